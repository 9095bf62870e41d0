// C11: symmetries of simulations: equivalent descriptions give equivalent results.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

// variant of a simulation: the system to run, how to map its fields back, and how to call the solver
type variant struct {
	name string
	sys  *lib.System
	src  []lib.Src
	back func(f [][]float64) [][]float64 // to the fields and nodes of the original
	plan [][2]int                        // calls of Solve (epochs, steps)
}

func clone(s *lib.System) *lib.System {
	t := *s
	t.Init = nil
	for _, f := range s.Init {
		t.Init = append(t.Init, append([]float64{}, f...))
	}
	t.Text = map[string]string{}
	for k, v := range s.Text {
		t.Text[k] = v
	}
	t.Names = append([]string{}, s.Names...)
	t.EqOrder = append([]string{}, s.EqOrder...)
	t.ScOrder = append([]string{}, s.ScOrder...)
	return &t
}

// moved maps the nodes: new position of the node at p
func moved(v *variant, dims []int, to func(p []int) []int) {
	old := v.sys.Dims
	n := lib.Prod(old)
	target := make([]int, n)
	for i := 0; i < n; i++ {
		target[i] = lib.Idx(dims, to(lib.PosOf(old, i)))
	}
	for k := range v.sys.Init {
		f := make([]float64, n)
		for i := range f {
			f[target[i]] = v.sys.Init[k][i]
		}
		v.sys.Init[k] = f
	}
	for k := range v.src {
		p := make([]int, len(old))
		for d := range p {
			p[d] = int(math.Round(v.src[k].Pos[d]))
		}
		q := to(p)
		v.src[k].Pos = make([]float64, len(q))
		for d := range q {
			v.src[k].Pos[d] = float64(q[d])
		}
	}
	v.sys.Dims = dims
	v.back = func(f [][]float64) [][]float64 {
		res := make([][]float64, len(f))
		for k := range f {
			res[k] = make([]float64, n)
			for i := range res[k] {
				res[k][i] = f[k][target[i]]
			}
		}
		return res
	}
}

var word = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

func rename(s *lib.System, ren map[string]string) {
	get := func(n string) string {
		if m, ok := ren[n]; ok {
			return m
		}
		return n
	}
	text := map[string]string{}
	for k, v := range s.Text {
		eq := strings.SplitN(v, "=", 2)
		text[get(k)] = "d" + get(k) + "/dt =" + word.ReplaceAllStringFunc(eq[1], get)
	}
	s.Text = text
	for i := range s.Names {
		s.Names[i] = get(s.Names[i])
	}
	for i := range s.EqOrder {
		s.EqOrder[i] = get(s.EqOrder[i])
	}
	sc := map[string]float64{}
	for k, v := range s.Scalars {
		sc[get(k)] = v
	}
	s.Scalars = sc
	for i := range s.ScOrder {
		s.ScOrder[i] = get(s.ScOrder[i])
	}
	fns := append([]lib.Fn{}, s.Fns...)
	for i := range fns {
		fns[i].Name = get(fns[i].Name)
		args := make([]string, len(fns[i].Args))
		for j := range args {
			args[j] = get(fns[i].Args[j])
		}
		fns[i].Args = args
	}
	s.Fns = fns
}

// overlap is true if the name of a field or function is a part of another name: such
// names decide in gopf whether a linear term is treated implicitly
func overlap(s *lib.System) bool {
	fields := append([]string{}, s.Names...)
	for _, f := range s.Fns {
		fields = append(fields, f.Name)
	}
	for _, f := range fields {
		for _, o := range append(append([]string{}, fields...), s.ScOrder...) {
			if f != o && strings.Contains(o, f) {
				return true
			}
		}
	}
	return false
}

// overlapping: the scheme does not depend on one name being a part of another one
func overlapping(c *lib.Case) {
	pair := [][2]string{{"conc", "conc2"}, {"t", "Tt"}, {"c", "cc"}}[c.Index%3]
	n, dt := 16, 0.1
	run := func(a, b string) []float64 {
		m := pf.NewModel()
		fa, fb := pf.NewField(a, n, nil), pf.NewField(b, n, nil)
		for i := range fb.Data {
			fb.Data[i] = 1
		}
		m.AddField(fa)
		m.AddField(fb)
		m.AddEquation("d" + a + "/dt = " + b)
		m.AddEquation("d" + b + "/dt = -" + b)
		s := pf.NewSolver(&m, []int{4, 4}, dt)
		s.Solve(1, 1)
		return lib.Fields(&m)[1]
	}
	want, got := run("alpha", "beta")[3], run(pair[0], pair[1])[3]
	c.Count("names", 1)
	c.Key("%v", pair)
	if !(math.Abs(got-want) <= 1e-12) {
		key := "value"
		if math.Abs(got-0.9) <= 1e-12 {
			key = "explicit"
		}
		c.Failf(key, "dy/dt = -y in one step of %v: %v with the names %v, %v with the names alpha, beta", dt, got, pair, want)
	}
}

func mkVariant(r *rand.Rand, s *lib.System, src []lib.Src, plan [][2]int) *variant {
	v := &variant{sys: clone(s), src: append([]lib.Src{}, src...), plan: plan, back: func(f [][]float64) [][]float64 { return f }}
	for i := range v.src {
		v.src[i].Pos = append([]float64{}, src[i].Pos...)
		v.src[i].Calls = &lib.TimeLog{}
	}
	dims := s.Dims
	switch r.Intn(8) {
	case 0:
		v.name = "translated"
		sh := make([]int, len(dims))
		for d := range sh {
			sh[d] = r.Intn(dims[d])
		}
		moved(v, append([]int{}, dims...), func(p []int) []int {
			q := make([]int, len(p))
			for d := range q {
				q[d] = (p[d] + sh[d]) % dims[d]
			}
			return q
		})
	case 1:
		v.name = "reflected"
		fl := make([]bool, len(dims))
		for d := range fl {
			fl[d] = r.Intn(2) == 0
		}
		fl[r.Intn(len(dims))] = true
		moved(v, append([]int{}, dims...), func(p []int) []int {
			q := append([]int{}, p...)
			for d := range q {
				if fl[d] {
					q[d] = (dims[d] - p[d]) % dims[d]
				}
			}
			return q
		})
	case 2:
		v.name = "permuted axes"
		pm := r.Perm(len(dims))
		nd := make([]int, len(dims))
		for d := range pm {
			nd[pm[d]] = dims[d]
		}
		moved(v, nd, func(p []int) []int {
			q := make([]int, len(p))
			for d := range pm {
				q[pm[d]] = p[d]
			}
			return q
		})
	case 3:
		v.name = "tiled"
		d := r.Intn(len(dims))
		nd := append([]int{}, dims...)
		nd[d] *= 2
		if len(src) > 0 {
			v.src = nil
			return nil
		}
		old := dims
		for k := range v.sys.Init {
			f := make([]float64, lib.Prod(nd))
			for i := range f {
				p := lib.PosOf(nd, i)
				p[d] %= old[d]
				f[i] = s.Init[k][lib.Idx(old, p)]
			}
			v.sys.Init[k] = f
		}
		v.sys.Dims = nd
		which := r.Intn(2)
		v.back = func(f [][]float64) [][]float64 {
			res := make([][]float64, len(f))
			for k := range f {
				res[k] = make([]float64, lib.Prod(old))
				for i := range res[k] {
					p := lib.PosOf(old, i)
					p[d] += which * old[d]
					res[k][i] = f[k][lib.Idx(nd, p)]
				}
			}
			return res
		}
	case 4:
		if len(dims) != 2 || len(src) > 0 {
			return nil
		}
		v.name = "extruded"
		at := r.Intn(3) // where the new axis goes
		nd := []int{}
		depth := 1 + r.Intn(4)
		for d := 0; d < 3; d++ {
			if d == at {
				nd = append(nd, depth)
			}
			if d < 2 {
				nd = append(nd, dims[d])
			}
		}
		nd = nd[:3]
		proj := func(p []int) []int {
			q := []int{}
			for d := range p {
				if d != at {
					q = append(q, p[d])
				}
			}
			return q
		}
		for k := range v.sys.Init {
			f := make([]float64, lib.Prod(nd))
			for i := range f {
				f[i] = s.Init[k][lib.Idx(dims, proj(lib.PosOf(nd, i)))]
			}
			v.sys.Init[k] = f
		}
		v.sys.Dims = nd
		v.back = func(f [][]float64) [][]float64 {
			res := make([][]float64, len(f))
			for k := range f {
				res[k] = make([]float64, lib.Prod(dims))
				for i := range f[k] {
					p := lib.PosOf(nd, i)
					if p[at] == depth-1 {
						res[k][lib.Idx(dims, proj(p))] = f[k][i]
					}
				}
			}
			return res
		}
	case 5:
		v.name = "renamed"
		if overlap(s) {
			return nil // see the group overlap
		}
		// fresh names, in an order that changes how they sort
		pool := []string{"zeta", "alpha1", "muu", "beta2", "omega", "yy", "cc3", "kk", "xx", "rr7"}
		r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		ren := map[string]string{}
		all := append(append([]string{}, s.Names...), s.ScOrder...)
		for _, f := range s.Fns {
			all = append(all, f.Name)
		}
		for i, n := range all {
			if i < len(pool) {
				ren[n] = pool[i]
			} else {
				ren[n] = fmt.Sprintf("name%c", 'a'+i)
			}
		}
		rename(v.sys, ren)
	case 6:
		v.name = "reordered"
		pm := r.Perm(len(s.Names))
		for i, j := range pm {
			v.sys.Names[i] = s.Names[j]
			v.sys.Init[i] = append([]float64{}, s.Init[j]...)
		}
		for k := range v.src {
			for i, j := range pm {
				if src[k].Field == j {
					v.src[k].Field = i
				}
			}
		}
		sh := func(x []string) { r.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] }) }
		sh(v.sys.EqOrder)
		sh(v.sys.ScOrder)
		v.back = func(f [][]float64) [][]float64 {
			res := make([][]float64, len(f))
			for i, j := range pm {
				res[j] = f[i]
			}
			return res
		}
	default:
		v.name = "split"
		total := 0
		for _, p := range plan {
			total += p[0] * p[1]
		}
		v.plan = nil
		for total > 0 {
			e := 1 + r.Intn(total)
			k := total / e
			v.plan = append(v.plan, [2]int{e, k})
			total -= e * k
			if r.Intn(4) == 0 {
				v.plan = append(v.plan, [2]int{r.Intn(2), 0})
			}
		}
	}
	return v
}

func setStepper(s *pf.Solver, name string, dims []int, dt float64) {
	switch name {
	case "rk4":
		s.SetStepper("rk4")
	case "implicit":
		s.Stepper = &pf.ImplicitEuler{Dt: dt, FT: pfutil.NewFFTW(dims)}
	}
}

// run returns the fields (nil when they leave a sane range) and the largest imaginary part
func run(v *variant, dt float64, stepper string, eps float64, r *rand.Rand) ([][]float64, float64) {
	sys := v.sys
	if eps > 0 {
		sys = clone(sys)
		for i := range sys.Init {
			for k := range sys.Init[i] {
				sys.Init[i][k] += eps * (2*r.Float64() - 1)
			}
		}
	}
	m := sys.Build()
	for _, q := range v.src {
		q.Attach(m, sys.Names[q.Field])
	}
	s := pf.NewSolver(m, sys.Dims, dt)
	setStepper(s, stepper, sys.Dims, dt)
	for _, p := range v.plan {
		s.Solve(p[0], p[1])
	}
	return lib.Fields(m), lib.MaxImag(m)
}

func check(c *lib.Case, dims []int, stepper string, maxSteps int) {
	r := c.R
	s := lib.GenSystem(r, dims, lib.SysOpts{Hostile: r.Intn(2) == 0, MaxFields: 3, MaxTerms: 3, MaxLap: 2, MaxPow: 3, Funcs: r.Intn(2) == 0, Damped: true, ShuffleEqs: true, Constants: r.Intn(2) == 0, FieldAmp: 0.7})
	src := lib.RandSources(r, dims, len(s.Names), 2)
	if r.Intn(2) == 0 || stepper == "implicit" {
		src = nil
	}
	for i := range src {
		for d := range src[i].Pos {
			src[i].Pos[d] = float64(r.Intn(dims[d]))
		}
	}
	uniform := r.Intn(6) == 0 && len(src) == 0
	if uniform {
		for i := range s.Init {
			x := r.NormFloat64()
			for k := range s.Init[i] {
				s.Init[i][k] = x
			}
		}
	}
	dt := s.SafeDt(r, s.Init, 0.05)
	if stepper == "implicit" {
		// a step for which the implicit equation has one solution near the fields
		for i := range s.Names {
			_, scale := s.RHS(i, s.Init)
			if lim := 0.05 * (lib.MaxAbsAll(s.Init) + 0.1) / (scale + 1e-9); dt > lim {
				dt = lim
			}
		}
	}
	plan := [][2]int{{1 + r.Intn(3), 1 + r.Intn(maxSteps)}}
	base := &variant{sys: s, src: src, plan: plan}
	c.Notef("%s %s sources %d dt %v plan %v", stepper, s.Describe(), len(src), dt, plan)
	var want [][]float64
	var im float64
	failed, _ := lib.MustPanic(func() { want, im = run(base, dt, stepper, 0, r) })
	if failed {
		c.Count("refused", 1) // the implicit stepper gives up loudly when it does not converge
		return
	}
	size := lib.MaxAbsAll(want)
	if !(size < 50) {
		c.Count("diverged", 1)
		return
	}
	const eps = 1e-8
	var pert [][]float64
	if failed, _ = lib.MustPanic(func() { pert, _ = run(base, dt, stepper, eps, r) }); failed {
		return
	}
	grow := 1.0
	for i := range pert {
		if d, _ := lib.DiffR(pert[i], want[i]); d/eps > grow {
			grow = d / eps
		}
	}
	if !(grow < 1e4) {
		c.Count("ill conditioned", 1)
		return
	}
	tol := 1e-11 * grow * (1 + size)
	if stepper == "implicit" {
		tol = 1e-5 * grow * (1 + size)
	}
	if !(im <= tol) {
		c.Fatalf("real", "real fields became complex: imaginary part %v", im)
	}
	if uniform {
		for i := range want {
			for k := range want[i] {
				if !(math.Abs(want[i][k]-want[i][0]) <= tol) {
					c.Fatalf("uniform", "uniform field %s differs between nodes: %v and %v", s.Names[i], want[i][0], want[i][k])
				}
			}
		}
	}
	for k := 0; k < 4; k++ {
		v := mkVariant(r, s, src, plan)
		if v == nil {
			continue
		}
		var got [][]float64
		if failed, val := lib.MustPanic(func() { got, _ = run(v, dt, stepper, 0, r) }); failed {
			if stepper == "implicit" {
				continue
			}
			c.Fatalf("panic", "%s (%s): %v", v.name, v.sys.Describe(), val)
		}
		got = v.back(got)
		for i := range want {
			if d, j := lib.DiffR(got[i], want[i]); !(d <= tol) {
				c.Fatalf("symmetry", "%s (%s, plan %v): field %s at node %v of %v is %v, expected %v (tolerance %v)", v.name, v.sys.Describe(), v.plan, s.Names[i], lib.PosOf(dims, j), dims, got[i][j], want[i][j], tol)
			}
		}
		c.Count(v.name, 1)
		c.Key("%s %s %dD %df src%v", stepper, v.name, len(dims), len(s.Names), len(src) > 0)
	}
}

func small(c *lib.Case) {
	dims := lib.Dims2or3(c.R, 1, 9, 250)
	check(c, dims, []string{"euler", "rk4"}[c.R.Intn(2)], 4)
}

func large(c *lib.Case) {
	dims := []int{8 + c.R.Intn(120), 8 + c.R.Intn(120)}
	if c.R.Intn(3) == 0 {
		dims = []int{4 + c.R.Intn(20), 4 + c.R.Intn(20), 4 + c.R.Intn(20)}
	}
	check(c, dims, []string{"euler", "rk4"}[c.R.Intn(2)], 3)
}

func implicit(c *lib.Case) {
	dims := lib.Dims2or3(c.R, 1, 4, 27)
	check(c, dims, "implicit", 2)
}

// superposition: linear equations with sources
func linear(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 10, 300)
	n := lib.Prod(dims)
	stepper := []string{"euler", "rk4"}[r.Intn(2)]
	dt := 0.02 * r.Float64()
	k1, k2, k3 := r.Float64(), r.NormFloat64(), r.NormFloat64()
	steps := 1 + r.Intn(5)
	run := func(u, v []float64) [][]float64 {
		m := pf.NewModel()
		m.AddField(pf.NewField("u", n, lib.ToC(u)))
		m.AddField(pf.NewField("v", n, lib.ToC(v)))
		m.AddScalar(pf.NewScalar("K1", complex(k1, 0)))
		m.AddScalar(pf.NewScalar("K2", complex(k2, 0)))
		m.AddScalar(pf.NewScalar("K3", complex(k3, 0)))
		m.AddEquation("du/dt = K1*LAP*u + K2*v")
		m.AddEquation("dv/dt = K1*LAP*v + K3*u")
		s := pf.NewSolver(&m, dims, dt)
		setStepper(s, stepper, dims, dt)
		s.Solve(1, steps)
		return lib.Fields(&m)
	}
	a, b := r.NormFloat64(), r.NormFloat64()
	u1, v1, u2, v2 := lib.RandField(r, dims, 1), lib.RandField(r, dims, 1), lib.RandField(r, dims, 1), lib.RandField(r, dims, 1)
	us, vs := make([]float64, n), make([]float64, n)
	for i := range us {
		us[i] = a*u1[i] + b*u2[i]
		vs[i] = a*v1[i] + b*v2[i]
	}
	x, y, z := run(u1, v1), run(u2, v2), run(us, vs)
	for f := range z {
		for i := range z[f] {
			w := a*x[f][i] + b*y[f][i]
			if !(math.Abs(z[f][i]-w) <= 1e-9*(1+math.Abs(a)+math.Abs(b))*(1+lib.MaxAbsAll(x)+lib.MaxAbsAll(y))) {
				c.Fatalf("superposition", "%s %v dt %v: node %d is %v, the superposition is %v", stepper, dims, dt, i, z[f][i], w)
			}
		}
	}
	c.Count("nodes", n)
	c.Key("%s %v", stepper, dims)
}

func main() {
	lib.Main(lib.Prop{ID: "C11", Level: "exploration", CPULimit: 300,
		Rule: "Random systems of equations with sources on 2D/3D domains from one to 16000 nodes; the same simulation is run again translated, reflected, with permuted axes, tiled, extruded to 3D, with other names, with fields and equations added in another order and with the steps distributed differently over calls, and all node values are compared; uniform fields stay uniform, real ones real, linear equations superpose. The tolerance follows the measured growth of a small perturbation; ill-conditioned runs are counted and not judged.",
		Groups: []lib.Group{
			{Name: "small", Quick: 900, Thorough: 20000, Run: small},
			{Name: "large", Quick: 60, Thorough: 1200, Run: large},
			{Name: "implicit", Quick: 60, Thorough: 1000, Run: implicit},
			{Name: "overlap", Quick: 3, Thorough: 3, Run: overlapping},
			{Name: "linear", Quick: 300, Thorough: 6000, Run: linear},
		}})
}
