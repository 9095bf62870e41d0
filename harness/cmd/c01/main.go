// C01: the right hand side the solver integrates is the one written in the equation strings.
package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"verif/lib"
)

// rhsOf evaluates the complete right hand side gopf integrates, in real space
func rhsOf(c *lib.Case, m *pf.Model, dims []int, t float64) [][]complex128 {
	m.SyncDerivedFields()
	for i := range m.Fields {
		copy(m.Fields[i].Data, lib.DFT(dims, m.Fields[i].Data, -1))
	}
	for i := range m.DerivedFields {
		copy(m.DerivedFields[i].Data, lib.DFT(dims, m.DerivedFields[i].Data, -1))
	}
	out := make([][]complex128, len(m.Fields))
	for i := range m.Fields {
		e := m.GetRHS(i, lib.FreqFunc(dims), t)
		d := m.GetDenum(i, lib.FreqFunc(dims), t)
		tot := make([]complex128, len(e))
		for k := range tot {
			tot[k] = e[k] + d[k]*m.Fields[i].Data[k]
		}
		out[i] = lib.Inv(dims, tot)
	}
	c.Count("rhs_values_compared", len(out)*lib.Prod(dims))
	return out
}

func classOf(s *lib.System) string {
	var parts []string
	lap, prod, fn, cross, konst := 0, 0, 0, 0, 0
	for _, n := range s.Names {
		for _, t := range s.Eqs[n] {
			if t.Lap > lap {
				lap = t.Lap
			}
			if len(t.Fields) > 1 {
				prod = len(t.Fields)
			}
			if len(t.Fields) == 0 {
				konst = 1
			}
			for _, f := range t.Fields {
				if f.Name != n {
					cross = 1
				}
				for _, g := range s.Fns {
					if g.Name == f.Name {
						fn = 1
					}
				}
			}
		}
	}
	for _, v := range []int{len(s.Dims), len(s.Names), lap, prod, fn, cross, konst} {
		parts = append(parts, string(rune('0'+v)))
	}
	same := "ordered"
	for i := range s.Names {
		if s.Names[i] != s.EqOrder[i] {
			same = "shuffled"
		}
	}
	return strings.Join(parts, "") + same
}

func semantics(hostile bool) func(c *lib.Case) {
	return func(c *lib.Case) {
		r := c.R
		dims := lib.Dims2or3(r, 2, 9, 400)
		s := lib.GenSystem(r, dims, lib.SysOpts{Hostile: hostile, MaxFields: 3, MaxTerms: 5, MaxLap: 4, MaxPow: 4,
			Funcs: true, ShuffleEqs: hostile, Constants: true})
		c.Notef("%s", s.Describe())
		m := s.Build()
		m.Init()
		got := rhsOf(c, m, dims, 0)
		for i, n := range s.Names {
			want, scale := s.RHS(i, s.Init)
			d, at := lib.Diff(got[i], lib.ToC(want))
			if d > 1e-9*(scale+1e-3) {
				c.Failf("rhs", "d%s/dt at node %d: equation gives %g, the library integrates %v (scale %g)", n, at, want[at], got[i][at], scale)
			}
		}
		c.Count("equations", len(s.Names))
		c.Key("%s", classOf(s))
	}
}

// one tiny step through the public solver gives the same derivative
func observed(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 3, 7, 250)
	s := lib.GenSystem(r, dims, lib.SysOpts{Hostile: true, MaxFields: 3, MaxTerms: 4, MaxLap: 2, MaxPow: 3,
		Funcs: true, ShuffleEqs: true, Constants: true, ScalarAmp: 1, FieldAmp: 0.8})
	c.Notef("%s", s.Describe())
	m := s.Build()
	dt := 1e-10
	stepper := []string{"euler", "rk4"}[r.Intn(2)]
	solver := pf.NewSolver(m, dims, dt)
	solver.SetStepper(stepper)
	solver.Solve(1, 1)
	stiff := 30.0
	for i := range s.Names {
		_, scale := s.RHS(i, s.Init)
		stiff += scale
	}
	if dt*stiff > 1e-5 {
		c.Count("too_stiff", 1)
		return
	}
	for i, n := range s.Names {
		want, scale := s.RHS(i, s.Init)
		// truncation error: dt times the second time derivative; round-off: eps/dt
		tol := 1e-5*(scale+1) + 1e-14/dt + 1e3*dt*stiff*stiff
		for k := range want {
			v := (real(m.Fields[i].Data[k]) - s.Init[i][k]) / dt
			if math.Abs(v-want[k]) > tol || math.IsNaN(v) {
				c.Failf("step", "%s: d%s/dt observed over one step at node %d is %g, the equation gives %g (tol %g)", stepper, n, k, v, want[k], tol)
				break
			}
		}
		c.Count("step_derivatives", len(want))
	}
	c.Key("%s-%s", stepper, classOf(s))
}

// powers need not be integers: fields stay positive and every factor carries a decimal power
func decimalPowers(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 7, 200)
	n := lib.Prod(dims)
	names := []string{"conc", "eta"}[:1+r.Intn(2)]
	m := pf.NewModel()
	y := map[string][]float64{}
	for _, f := range names {
		v := make([]float64, n)
		for i := range v {
			v[i] = 0.2 + 1.6*r.Float64()
		}
		y[f] = v
		m.AddField(pf.NewField(f, n, lib.ToC(v)))
	}
	k := 0.3 + 1.5*r.Float64()
	m.AddScalar(pf.NewScalar("KKK", complex(k, 0)))
	pow := func() (float64, string) {
		// at most four decimals; the text is what counts
		x := []string{"0.5", "1.5", "0.25", "1.25", "2.75", "0.3333", "2", "3", "1.0", "2.125", "0.05", "1.01", "2."}[r.Intn(13)]
		v := 0.0
		if _, err := fmt.Sscanf(strings.TrimSuffix(x, "."), "%g", &v); err != nil {
			panic(err)
		}
		return v, x
	}
	var text []string
	var want [][]float64
	scale := 1.0
	for _, own := range names {
		eq := "d" + own + "/dt ="
		w := make([]float64, n)
		for t := 0; t < 1+r.Intn(3); t++ {
			sign := 1.0
			if r.Intn(2) == 0 {
				sign = -1
				eq += " - "
			} else if t > 0 {
				eq += " + "
			} else {
				eq += " "
			}
			prod := make([]float64, n)
			for i := range prod {
				prod[i] = sign
			}
			if r.Intn(2) == 0 {
				p, s := pow()
				eq += "KKK^" + s + "*"
				for i := range prod {
					prod[i] *= math.Pow(k, p)
				}
			}
			lap := r.Intn(3)
			if lap > 0 {
				eq += []string{"", "LAP ", "LAP^2 "}[lap]
			}
			for j, f := range names[:1+r.Intn(len(names))] {
				p, s := pow()
				if j > 0 {
					eq += "*"
				}
				eq += f + "^" + s
				for i := range prod {
					prod[i] *= math.Pow(y[f][i], p)
				}
			}
			mx := lib.MaxAbsR(prod) * math.Pow(math.Pi*math.Pi*float64(len(dims)), float64(lap))
			scale += mx
			for i, v := range lib.LapPow(dims, prod, lap) {
				w[i] += v
			}
		}
		text = append(text, eq)
		want = append(want, w)
		m.AddEquation(eq)
	}
	c.Notef("dims %v %v", dims, text)
	m.Init()
	got := rhsOf(c, &m, dims, 0)
	for i := range want {
		if d, at := lib.Diff(got[i], lib.ToC(want[i])); !(d <= 1e-9*scale) {
			c.Fatalf("powers", "%s at node %d: expected %g, the library integrates %v", text[i], at, want[i][at], got[i][at])
		}
	}
	c.Key("%dD-%df", len(dims), len(names))
}

// names that are not defined are refused
func undefined(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 5, 100)
	s := lib.GenSystem(r, dims, lib.SysOpts{Hostile: r.Intn(2) == 0, MaxFields: 2, MaxTerms: 3, MaxLap: 2, MaxPow: 3, Funcs: true})
	own := s.Names[r.Intn(len(s.Names))]
	bad := []string{"undefinedName", "zq", "Kundef", "c9", "concX", "m7"}[r.Intn(6)]
	extra := ""
	switch r.Intn(4) {
	case 0:
		extra = " + " + bad + "*" + own
	case 1:
		extra = " - " + bad
	case 2:
		extra = " + LAP " + bad
	default:
		extra = " - " + s.ScOrder[0] + "*" + bad + "*" + own + "^2"
	}
	s.Text[own] += extra
	c.Notef("%s", s.Describe())
	pan, _ := lib.MustPanic(func() {
		m := s.Build()
		m.Init()
	})
	if !pan {
		c.Failf("undefined-accepted", "the equation %q uses the undefined name %s and was accepted", s.Text[own], bad)
	}
	c.Count("undefined_names_refused", 1)
	c.Key("%s-%s", extra[:3], bad)
}

func main() {
	lib.Main(lib.Prop{
		ID: "C01", Level: "exploration",
		Rule: "Random equation systems (1-3 fields, scalars with powers, Laplacian powers 1-4, products and powers of fields and registered functions, constants, hostile names that contain each other, odd spacing, equations added in any order) on random 2D/3D grids. The monitor evaluates the library's complete right hand side (explicit part + implicit factor times field) in real space and compares with an independent evaluator of the generated syntax tree. A case is non-trivial if at least one right hand side was compared; classes are (dimension, fields, max Laplacian power, product length, functions, coupling, constants, order).",
		Groups: []lib.Group{
			{Name: "clean", Quick: 2000, Thorough: 60000, Run: semantics(false)},
			{Name: "hostile", Quick: 4000, Thorough: 120000, Run: semantics(true)},
			{Name: "observed", Quick: 600, Thorough: 12000, Run: observed},
			{Name: "decimal", Quick: 1000, Thorough: 20000, Run: decimalPowers},
			{Name: "undefined", Quick: 150, Thorough: 1500, Run: undefined},
		},
	})
}
