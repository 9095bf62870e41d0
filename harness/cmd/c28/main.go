// C28: set-ups that cannot be simulated as written are refused, consistent ones are accepted.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

// attempt is one set-up: bad must be refused, good (the same without the mistake) accepted.
// intact is evaluated after the refusal.
type attempt struct {
	what   string
	bad    func()
	good   func()
	intact func() string
}

func field(name string, n int, r *rand.Rand) pf.Field {
	d := make([]complex128, n)
	for i := range d {
		d[i] = complex(0.1+0.5*r.Float64(), 0)
	}
	return pf.NewField(name, n, d)
}

// snapshot watches that the fields of a model stay as they are
func snapshot(m *pf.Model) func() string {
	before := make([][]complex128, len(m.Fields))
	for i := range m.Fields {
		before[i] = append([]complex128{}, m.Fields[i].Data...)
	}
	return func() string {
		for i := range before {
			for k := range before[i] {
				if m.Fields[i].Data[k] != before[i][k] {
					return fmt.Sprintf("node %d of %s changed", k, m.Fields[i].Name)
				}
			}
		}
		return ""
	}
}

func otherSize(r *rand.Rand, n int) int {
	for {
		k := n + r.Intn(7) - 3
		if r.Intn(3) == 0 {
			k = 2 * n
		}
		if k > 0 && k != n {
			return k
		}
	}
}

var kinds = []func(c *lib.Case, dims []int) attempt{
	// the nodes of a field and the domain do not agree
	func(c *lib.Case, dims []int) attempt {
		r, n := c.R, lib.Prod(dims)
		k := otherSize(r, n)
		nf := 1 + r.Intn(3)
		wrong := r.Intn(nf)
		m := pf.NewModel()
		for i := 0; i < nf; i++ {
			sz := n
			if i == wrong {
				sz = k
			}
			m.AddField(field([]string{"conc", "eta", "phi"}[i], sz, r))
			m.AddEquation(fmt.Sprintf("d%s/dt = LAP*%s", m.Fields[i].Name, m.Fields[i].Name))
		}
		return attempt{what: fmt.Sprintf("field %d of %d has %d nodes", wrong, nf, k), bad: func() { pf.NewSolver(&m, dims, 0.1) },
			good: func() {
				g := pf.NewModel()
				g.AddField(field("conc", n, r))
				g.AddEquation("dconc/dt = LAP*conc")
				pf.NewSolver(&g, dims, 0.1)
			}, intact: snapshot(&m)}
	},
	// unknown stepper
	func(c *lib.Case, dims []int) attempt {
		r, n := c.R, lib.Prod(dims)
		m := pf.NewModel()
		m.AddField(field("conc", n, r))
		m.AddEquation("dconc/dt = LAP*conc")
		s := pf.NewSolver(&m, dims, 0.1)
		s.SetStepper([]string{"euler", "rk4"}[r.Intn(2)])
		old := s.Stepper
		name := []string{"Euler", "RK4", "", "rk", "euler ", "rk45", "implicit", "eulerrk4"}[r.Intn(8)]
		return attempt{what: fmt.Sprintf("stepper %q", name), bad: func() { s.SetStepper(name) }, good: func() { s.SetStepper("rk4"); s.SetStepper("euler") },
			intact: func() string {
				if s.Stepper != old {
					return "the stepper was replaced"
				}
				return ""
			}}
	},
	// data of the wrong length
	func(c *lib.Case, dims []int) attempt {
		n := lib.Prod(dims)
		k := otherSize(c.R, n)
		return attempt{what: fmt.Sprintf("%d values for %d nodes", k, n), bad: func() { pf.NewField("conc", n, make([]complex128, k)) },
			good: func() { pf.NewField("conc", n, make([]complex128, n)); pf.NewField("conc", n, nil) }}
	},
	// advection with too few or too many velocities
	func(c *lib.Case, dims []int) attempt {
		r, n := c.R, lib.Prod(dims)
		build := func(k int) func() {
			return func() {
				m := pf.NewModel()
				m.AddField(field("conc", n, r))
				ad := pf.Advection{Field: "conc"}
				for d := 0; d < k; d++ {
					name := fmt.Sprintf("vel%c", 'x'+d)
					m.AddScalar(pf.NewScalar(name, 1))
					ad.VelocityFields = append(ad.VelocityFields, name)
				}
				ad.PrepareModel(n, &m, pfutil.NewFFTW(dims))
				if k != len(dims) {
					return // has to be refused before it is used
				}
				m.RegisterExplicitTerm("ADV", &ad, nil)
				m.AddEquation("dconc/dt = ADV")
				pf.NewSolver(&m, dims, 1e-3).Propagate(1)
			}
		}
		k := len(dims) - 1
		if r.Intn(2) == 0 {
			k = len(dims) + 1
		}
		return attempt{what: fmt.Sprintf("%d velocities in %dD", k, len(dims)), bad: build(k), good: build(len(dims))}
	},
	// advection of a field, or by a velocity, that does not exist
	func(c *lib.Case, dims []int) attempt {
		r, n := c.R, lib.Prod(dims)
		miss := r.Intn(len(dims) + 1)
		build := func(miss int) func() {
			return func() {
				m := pf.NewModel()
				name := "conc"
				m.AddField(field(name, n, r))
				if miss == len(dims) {
					name = "con"
				}
				ad := pf.Advection{Field: name}
				for d := range dims {
					v := fmt.Sprintf("vel%c", 'x'+d)
					if d != miss {
						m.AddScalar(pf.NewScalar(v, 1))
					}
					ad.VelocityFields = append(ad.VelocityFields, v)
				}
				ad.PrepareModel(n, &m, pfutil.NewFFTW(dims))
			}
		}
		return attempt{what: fmt.Sprintf("missing name %d of the advection", miss), bad: build(miss), good: build(-1)}
	},
	// operators in an impossible number of dimensions
	func(c *lib.Case, dims []int) attempt {
		bad := [][]int{{8}, {4, 4, 4, 4}, {}}[c.R.Intn(3)]
		return attempt{what: fmt.Sprintf("squared gradient in the domain %v", bad), bad: func() { pf.NewSquareGradient("conc", bad) }, good: func() { pf.NewSquareGradient("conc", dims) }}
	},
	// malformed equations
	func(c *lib.Case, dims []int) attempt {
		r, n := c.R, lib.Prod(dims)
		eq := []string{
			"dconc/dt = LAP conc = eta", "dconc/dt == LAP conc", "conc/dt = LAP conc", "dconc = LAP conc",
			"dconc/dx = LAP conc", "d/dt conc = LAP conc", "LAP conc", "conc = LAP conc", "dconc/dt2 = eta", "/dt = eta", "conc_t = eta",
		}[r.Intn(11)]
		var m pf.Model
		build := func(eq string) func() {
			return func() {
				m = pf.NewModel()
				m.AddField(field("conc", n, r))
				m.AddField(field("eta", n, r))
				m.AddEquation(eq)
				m.AddEquation("deta/dt = LAP eta")
				pf.NewSolver(&m, dims, 1e-3).Propagate(1)
			}
		}
		return attempt{what: fmt.Sprintf("equation %q", eq), bad: build(eq), good: build("dconc/dt = LAP conc")}
	},
	// the number of an equation that does not exist
	func(c *lib.Case, dims []int) attempt {
		r, n := c.R, lib.Prod(dims)
		m := pf.NewModel()
		m.AddField(field("conc2", n, r))
		m.AddField(field("eta", n, r))
		m.AddEquation("deta/dt = LAP eta")
		m.AddEquation("dconc2/dt = LAP conc2 + eta")
		name := []string{"conc", "onc2", "c", "", "LAP", "Conc2", "et", "dt", "conc22"}[r.Intn(9)]
		return attempt{what: fmt.Sprintf("equation number of %q", name), bad: func() { m.EqNumber(name) }, good: func() {
			if m.EqNumber("conc2") != 1 || m.EqNumber("eta") != 0 {
				panic("wrong number")
			}
		}}
	},
	// terms without the derived fields they need
	func(c *lib.Case, dims []int) attempt {
		r, n := c.R, lib.Prod(dims)
		build := func(with bool) func() {
			return func() {
				m := pf.NewModel()
				m.AddField(field("conc", n, r))
				cn := pf.NewConservativeNoise(0.1, len(dims))
				d := cn.RequiredDerivedFields(n)
				if !with {
					d = d[:r.Intn(len(d))]
				}
				m.RegisterExplicitTerm("NOISE", &cn, d)
				m.AddEquation("dconc/dt = NOISE")
				pf.NewSolver(&m, dims, 1e-3).Propagate(1)
			}
		}
		return attempt{what: "noise without its currents", bad: build(false), good: build(true)}
	},
	func(c *lib.Case, dims []int) attempt {
		r, n := c.R, lib.Prod(dims)
		build := func(with bool) func() {
			return func() {
				m := pf.NewModel()
				m.AddField(field("conc", n, r))
				id := &pf.IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: 1, C4: 1}, Field: "conc", Prefactor: 1, Laplacian: r.Intn(2) == 0}
				var d []pf.DerivedField
				if with {
					d = append(d, id.DerivedField(n, m.Bricks))
				}
				m.RegisterMixedTerm("MIX", id, d)
				m.AddEquation("dconc/dt = MIX")
				pf.NewSolver(&m, dims, 1e-4).Propagate(1)
			}
		}
		return attempt{what: "mixture without its derived field", bad: build(false), good: build(true)}
	},
	func(c *lib.Case, dims []int) attempt {
		r, n := c.R, lib.Prod(dims)
		build := func(with bool) func() {
			return func() {
				m := pf.NewModel()
				m.AddField(field("conc", n, r))
				if with {
					m.RegisterFunction("IND", func(i int, b map[string]pf.Brick) complex128 { return 1 })
				} else {
					m.RegisterFunction("INDI", func(i int, b map[string]pf.Brick) complex128 { return 1 })
				}
				v := pf.NewVolumeConservingLP("conc", "IND", 1e-3, n)
				m.RegisterExplicitTerm("VOL", &v, nil)
				m.AddEquation("dconc/dt = VOL")
				pf.NewSolver(&m, dims, 1e-3).Propagate(1)
			}
		}
		return attempt{what: "volume constraint without its indicator", bad: build(false), good: build(true)}
	},
	// saddle search that was not set up
	func(c *lib.Case, dims []int) attempt {
		r, n := c.R, lib.Prod(dims)
		m := pf.NewModel()
		m.AddField(field("conc", n, r))
		m.AddEquation("dconc/dt = LAP conc")
		pf.NewSolver(&m, dims, 1e-3)
		what := r.Intn(4)
		mk := func(what int) func() {
			return func() {
				s := pf.NewSDD(dims, &m)
				k := n
				if what == 2 {
					k = otherSize(r, n)
				}
				o := make([]float64, k)
				for i := range o {
					o[i] = r.NormFloat64()
				}
				if what != 0 {
					s.SetInitialOrientation(o)
				}
				if what != 1 {
					s.Dt = 1e-3
				}
				if what == 3 {
					v := pf.NewVandeven(2)
					s.SetFilter(&v)
				}
				s.Step(&m)
			}
		}
		good := mk(5)
		return attempt{what: []string{"no orientation", "no time step", "orientation of wrong length", "filter"}[what], bad: mk(what), good: good, intact: snapshot(&m)}
	},
	// crystal utilities
	func(c *lib.Case, dims []int) attempt {
		r := c.R
		cell := pfc.SC2D(1)
		ms := pfc.ModeSolver{ReciprocalCell: cell.Reciprocal(), Miller: []pfc.Miller{miller(1, 0, 0), miller(1, 1, 0)}}
		p := make([]int, []int{1, 3, 0, 4}[r.Intn(4)])
		return attempt{what: fmt.Sprintf("%d powers for two modes", len(p)), bad: func() { ms.UnitcellIntegral(p, 8) }, good: func() { ms.UnitcellIntegral([]int{2, 0}, 8) }}
	},
	func(c *lib.Case, dims []int) attempt {
		cell := pfc.SC2D(1)
		ms := pfc.ModeSolver{ReciprocalCell: cell.Reciprocal(), Miller: []pfc.Miller{miller(1, 0, 0), miller(1, 1, 0)}}
		name := []string{"Bulk", "young", "", "xzshear", "bulkmod"}[c.R.Intn(5)]
		return attempt{what: fmt.Sprintf("elastic property %q", name), bad: func() { ms.MatchElasticProp(map[string]float64{"area": 1, name: 2}) },
			good: func() { ms.MatchElasticProp(map[string]float64{"area": 1, "xyshear": 0.5}) }}
	},
	func(c *lib.Case, dims []int) attempt {
		d := []int{0, 1, 4, -1, 6}[c.R.Intn(5)]
		m := miller(c.R.Intn(4), c.R.Intn(4), c.R.Intn(4))
		return attempt{what: fmt.Sprintf("equivalent planes in %d dimensions", d), bad: func() { pfc.NumEquivalent(m, d) }, good: func() { pfc.NumEquivalent(m, 3); pfc.NumEquivalent(miller(1, 2, 0), 2) }}
	},
	func(c *lib.Case, dims []int) attempt {
		a := 2 + c.R.Intn(3)
		m := miller(a, a+c.R.Intn(3), a+c.R.Intn(3))
		return attempt{what: fmt.Sprintf("density of the plane %v", m), bad: func() { pfc.CubicUnitCellDensity(m) }, good: func() { pfc.CubicUnitCellDensity(miller(1, 1, 0)) }}
	},
	func(c *lib.Case, dims []int) attempt {
		n := lib.Prod(dims)
		k := []int{0, 1, 3}[c.R.Intn(3)]
		mk := func(k int) func() {
			return func() {
				var f pfc.TwoPhaseCorrFunc
				for i := 0; i < k; i++ {
					f.CorrFunc = append(f.CorrFunc, pfc.ReciprocalSpacePairCorrelation{EffTemp: 0.1, Peaks: []pfc.Peak{{PlaneDensity: 1, Location: 1, Width: 0.5, NumPlanes: 4}}})
				}
				f.Evaluate(make([]complex128, n), pfutil.NewFFTW(dims))
			}
		}
		return attempt{what: fmt.Sprintf("%d phases", k), bad: mk(k), good: mk(2)}
	},
	// grids
	func(c *lib.Case, dims []int) attempt {
		r := c.R
		d3 := []int{2 + r.Intn(3), 2 + r.Intn(3), 1 + r.Intn(3)}
		g := pfutil.NewGrid(d3)
		for i := range g.Data {
			g.Data[i] = r.Float64()
		}
		keep := append([]float64{}, g.Data...)
		g2 := pfutil.NewGrid(d3[:2])
		tilt := r.Intn(2) == 0
		do := func(g *pfutil.Grid) {
			if tilt {
				pfc.TiltGB(g, 0.3)
			} else {
				g.Rotate2D(0.3)
			}
		}
		return attempt{what: fmt.Sprintf("planar rotation (boundary %v) of a 3D grid", tilt), bad: func() { do(&g) }, good: func() { do(&g2) }, intact: func() string {
			for i := range keep {
				if keep[i] != g.Data[i] {
					return "the grid was changed"
				}
			}
			return ""
		}}
	},
	func(c *lib.Case, dims []int) attempt {
		r := c.R
		g := pfutil.NewGrid([]int{3, 4, 3})
		g2 := pfutil.NewGrid([]int{3, 4})
		box := pfutil.Box{Diagonal: []float64{2, 2}}
		b := shape{pfutil.BoundingBox{Min: []int{-1, -1, -1}, Max: []int{1, 1, 1}}}
		what := r.Intn(3)
		switch what {
		case 1:
			b.b.Min[r.Intn(3)] = 2
		case 2:
			if r.Intn(2) == 0 {
				b.b.Min = b.b.Min[:2]
			} else {
				b.b.Max = append(b.b.Max, 3)
			}
		}
		return attempt{what: []string{"a rectangle on a 3D grid", "an inverted bounding box", "a bounding box of wrong length"}[what],
			bad: func() {
				if what == 0 {
					pfutil.Draw(&box, &g, nil, 1)
				} else {
					pfutil.Draw(&b, &g, nil, 1)
				}
			}, good: func() {
				pfutil.Draw(&box, &g2, nil, 1)
				pfutil.Draw(&shape{pfutil.BoundingBox{Min: []int{-1, -1, -1}, Max: []int{1, 1, 1}}}, &g2, nil, 1)
			}, intact: func() string {
				for _, v := range g.Data {
					if v != 0 {
						return "the grid was drawn on"
					}
				}
				return ""
			}}
	},
	func(c *lib.Case, dims []int) attempt {
		r := c.R
		bad := [][]int{{3}, {2, 2, 2, 2}, {}}[r.Intn(3)]
		return attempt{what: fmt.Sprintf("nodes of the domain %v", bad), bad: func() {
			if r.Intn(2) == 0 {
				pfutil.Pos(bad, 0)
			} else {
				pfutil.NodeIdx(bad, make([]int, len(bad)))
			}
		}, good: func() { pfutil.Pos(dims, 0); pfutil.NodeIdx(dims, make([]int, len(dims))) }}
	},
	func(c *lib.Case, dims []int) attempt {
		k := 5 - len(dims) // the other number of dimensions
		return attempt{what: fmt.Sprintf("%d indices in the domain %v", k, dims), bad: func() { pfutil.NodeIdx(dims, make([]int, k)) }, good: func() { pfutil.NodeIdx(dims, make([]int, len(dims))) }}
	},
	func(c *lib.Case, dims []int) attempt {
		dir := c.Scratch()
		bad := [][]int{{3}, {2, 2, 2, 2}, {}}[c.R.Intn(3)]
		f := filepath.Join(dir, "x.xdmf")
		return attempt{what: fmt.Sprintf("description of the domain %v", bad), bad: func() { pf.WriteXDMF(f, []string{"conc"}, "conc", 2, bad) },
			intact: func() string {
				if lib.FileSize(f) > 0 {
					return "a description was written"
				}
				return ""
			}, good: func() { pf.WriteXDMF(f, []string{"conc"}, "conc", 2, dims) }}
	},
	func(c *lib.Case, dims []int) attempt {
		m := pf.NewModel()
		return attempt{what: "a model without fields", bad: func() { m.NumNodes() }, good: func() { m.AddField(field("conc", 3, c.R)); m.NumNodes() }}
	},
	// a term named like nothing known, used with a prefix
	func(c *lib.Case, dims []int) attempt {
		r, n := c.R, lib.Prod(dims)
		build := func(name string) func() {
			return func() {
				m := pf.NewModel()
				m.AddField(field("conc", n, r))
				m.RegisterFunction("FUNC", func(i int, b map[string]pf.Brick) complex128 { return 1 })
				m.AddScalar(pf.NewScalar("kap", 2))
				m.AddEquation("dconc/dt = kap*" + name + " - LAP conc")
				pf.NewSolver(&m, dims, 1e-3).Propagate(1)
			}
		}
		bad := []string{"FUN", "FUNCC", "UNC", "func", "KAP", "con", "conc1", "concFUNC", "LAP*FUN", "FUNC*FUN", "FUNC^2*con"}[r.Intn(11)]
		return attempt{what: fmt.Sprintf("undefined %q", bad), bad: build(bad), good: build("FUNC")}
	},
}

func miller(h, k, l int) pfc.Miller { return pfc.Miller{H: h, K: k, L: l} }

type shape struct{ b pfutil.BoundingBox }

func (s *shape) InteriorPoint(pos []float64) bool { return true }
func (s *shape) BBox() pfutil.BoundingBox         { return s.b }

func refusals(c *lib.Case) {
	dims := lib.Dims2or3(c.R, 2, 6, 120)
	k := c.Index % len(kinds)
	a := kinds[k](c, dims)
	c.Notef("%s, domain %v", a.what, dims)
	pan, _ := lib.MustPanic(a.bad)
	if !pan {
		c.Fatalf("accepted", "%s was accepted (domain %v)", a.what, dims)
	}
	if a.intact != nil {
		if s := a.intact(); s != "" {
			c.Fatalf("touched", "%s was refused, but %s", a.what, s)
		}
	}
	if pan, v := lib.MustPanic(a.good); pan {
		c.Fatalf("control", "the set-up without the mistake (%s, domain %v) is refused too: %v", a.what, dims, v)
	}
	c.Count("refused", 1)
	c.Count("accepted", 1)
	c.Key("%s", a.what)
}

// names are checked by terminating the program
var namers = map[string]func(name string){
	"field":  func(n string) { pf.NewField(n, 4, nil) },
	"scalar": func(n string) { pf.NewScalar(n, 1) },
	"function": func(n string) {
		m := four()
		m.RegisterFunction(n, func(i int, b map[string]pf.Brick) complex128 { return 1 })
	},
	"explicit": func(n string) {
		m := four()
		m.RegisterExplicitTerm(n, &pf.SpectralViscosity{Eps: 1, DissipationThreshold: 0.2, Power: 2}, nil)
	},
	"implicit": func(n string) {
		m := four()
		m.RegisterImplicitTerm(n, &pf.SpectralViscosity{Eps: 1, DissipationThreshold: 0.2, Power: 2}, nil)
	},
	"mixed": func(n string) { m := four(); m.RegisterMixedTerm(n, &pf.IdealMixtureTerm{Field: "conc"}, nil) },
}
var namerOrder = []string{"field", "scalar", "function", "explicit", "implicit", "mixed"}

func four() *pf.Model {
	m := pf.NewModel()
	m.AddField(pf.NewField("conc", 4, nil))
	return &m
}

func child(args []string) {
	namers[args[0]](args[1])
	fmt.Println("accepted")
	os.Exit(0)
}

func reserved(c *lib.Case) {
	kind := namerOrder[c.Index%len(namerOrder)]
	bad := []string{"LAP", "LAPLACE", "LAPconc", "LAP^2x", "-conc", "*conc", "LAP^4", "-", "*"}[c.R.Intn(9)]
	good := []string{"lap", "conc", "LA", "eLAst", "phi", "x"}[c.R.Intn(6)]
	c.Notef("%s named %q, %q", kind, bad, good)
	run := func(name string) (bool, string) {
		cmd := exec.Command("/proc/self/exe", "--special", kind, name)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() < 0 {
			c.Inconclusive("child: %s", err)
		}
		return err == nil && strings.Contains(so.String(), "accepted"), se.String()
	}
	if ok, se := run(bad); ok || strings.TrimSpace(se) == "" {
		c.Fatalf("reserved", "a %s was given the reserved name %q without an error", kind, bad)
	}
	if ok, se := run(good); !ok {
		c.Fatalf("control", "a %s may not be called %q: %s", kind, good, se)
	}
	c.Count("names_refused", 1)
	c.Count("accepted", 1)
	c.Key("%s-%s", kind, bad)
}

func main() {
	lib.Main(lib.Prop{ID: "C28", Level: "exploration", Special: child,
		Rule: "Set-ups with one mistake (sizes that do not agree, unknown steppers, properties and names, malformed equations, terms without the fields they need, impossible numbers of dimensions, reserved names) on random domains: each must be refused by a panic or by termination with a message, without touching fields, grids or files, and the same set-up without the mistake must be accepted. Non-trivial: both were observed; classes are the mistakes.",
		Groups: []lib.Group{
			{Name: "refusals", Quick: 24 * 40, Thorough: 24 * 600, Run: refusals},
			{Name: "reserved", Quick: 36, Thorough: 360, Run: reserved},
		}})
}
