// C07: conserved quantities stay conserved.
package main

import (
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

func setStepper(c *lib.Case, s *pf.Solver, dims []int, dt float64, implicit bool) string {
	n := 2
	if implicit {
		n = 3
	}
	switch c.R.Intn(n) {
	case 0:
		s.SetStepper("euler")
		return "euler"
	case 1:
		s.SetStepper("rk4")
		return "rk4"
	}
	s.Stepper = &pf.ImplicitEuler{Dt: dt, FT: pfutil.NewFFTW(dims)}
	return "implicit"
}

type watcher struct {
	start []float64
	drift float64
}

func newWatcher(m *pf.Model) *watcher {
	w := &watcher{}
	for _, f := range lib.Fields(m) {
		w.start = append(w.start, lib.Mean(f))
	}
	return w
}

// check compares the averages; false ends the run (fields grown out of range)
func (w *watcher) check(c *lib.Case, m *pf.Model, which []int, step int, tol float64, size *float64) bool {
	y := lib.Fields(m)
	s := lib.MaxAbsAll(y)
	if v := lib.MaxImag(m); !(v <= s) {
		s = v // round-off that an unstable run has amplified
	}
	if !(s < 1e3) {
		return false
	}
	if s > *size {
		*size = s
	}
	for _, i := range which {
		d := lib.Mean(y[i]) - w.start[i]
		if !(math.Abs(d) <= tol*(1e-3+*size)*float64(step+1)) {
			c.Fatalf("drift", "the average of %s moved from %g by %g in %d steps (size %g)", m.Fields[i].Name, w.start[i], d, step+1, *size)
		}
		c.Count("averages_compared", 1)
	}
	return true
}

// divergence form equations written as strings
func strings_(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 9, 300)
	s := lib.GenSystem(r, dims, lib.SysOpts{Hostile: r.Intn(2) == 0, MaxFields: 3, MaxTerms: 4, MaxLap: 3, MinLap: 1, MaxPow: 3, Funcs: true, ShuffleEqs: true, ScalarAmp: 0.8})
	m := s.Build()
	dt := s.SafeDt(r, s.Init, 0.3)
	solver := pf.NewSolver(m, dims, dt)
	name := setStepper(c, solver, dims, dt, false)
	filter := r.Intn(4) == 0
	if filter {
		f := pf.NewVandeven(2 + r.Intn(4))
		solver.Stepper.SetFilter(&f)
	}
	c.Notef("%s dt %g filter %v %s", name, dt, filter, s.Describe())
	w := newWatcher(m)
	var all []int
	for i := range s.Names {
		all = append(all, i)
	}
	size := 0.0
	done := 0
	for k := 0; k < 20; k++ {
		if name == "rk4" && !(s.RK4Stages(lib.Fields(m), 0, dt, nil) < 1e2) {
			break // the fields leave the range within the step
		}
		solver.Propagate(1)
		if !w.check(c, m, all, k, 1e-11, &size) {
			break
		}
		done++
	}
	if done > 0 {
		c.Key("%s-%dD-%df-filter%v-%v", name, len(dims), len(s.Names), filter, done == 20)
	}
}

// ready-made conservative terms together with a non-conserved field
func terms(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 8, 300)
	n := lib.Prod(dims)
	m := pf.NewModel()
	m.AddField(pf.NewField("conc", n, lib.ToC(lib.RandField(r, dims, 0.5))))
	m.AddField(pf.NewField("eta", n, lib.ToC(lib.RandField(r, dims, 0.5))))
	m.AddScalar(pf.NewScalar("AAA", complex(0.2+r.Float64(), 0)))
	m.AddScalar(pf.NewScalar("BBB", complex(0.1*r.NormFloat64(), 0)))
	ft := pfutil.NewFFTW(dims)
	eq := "dconc/dt = AAA*LAP conc + BBB*LAP conc^3 + BBB*LAP conc*eta^2"
	cls := ""
	if r.Intn(2) == 0 {
		dg := &pf.DivGrad{Field: []string{"conc", "eta"}[r.Intn(2)], F: func(i int, b map[string]pf.Brick) complex128 {
			return complex(0.1+0.1*math.Tanh(real(b["conc"].Get(i))*real(b["eta"].Get(i))), 0)
		}}
		dg.PrepareModel(n, &m, ft)
		m.RegisterExplicitTerm("DIVGRAD", dg, nil)
		eq += " + DIVGRAD"
		cls += "d"
	}
	if r.Intn(2) == 0 {
		cn := pf.NewConservativeNoise(0.01*r.Float64(), len(dims))
		m.RegisterExplicitTerm("NOISE", &cn, cn.RequiredDerivedFields(n))
		eq += " + NOISE"
		cls += "n"
	}
	if r.Intn(2) == 0 {
		k := make([]float64, len(dims)*len(dims))
		for i := range dims {
			k[i*len(dims)+i] = 0.1 + r.Float64()
		}
		m.RegisterImplicitTerm("HESS", &pf.TensorialHessian{Field: "conc", K: k}, nil)
		eq += " + HESS"
		cls += "h"
	}
	if r.Intn(2) == 0 {
		m.RegisterImplicitTerm("VISC", &pf.SpectralViscosity{Eps: 0.1, DissipationThreshold: 0.25, Power: 2}, nil)
		eq += " + VISC"
		cls += "v"
	}
	if r.Intn(2) == 0 {
		// velocity fields constant in space conserve the advected field
		ad := &pf.Advection{Field: "conc"}
		for d := range dims {
			name := []string{"velx", "vely", "velz"}[d]
			m.AddScalar(pf.NewScalar(name, complex(r.NormFloat64(), 0)))
			ad.VelocityFields = append(ad.VelocityFields, name)
		}
		ad.PrepareModel(n, &m, ft)
		m.RegisterExplicitTerm("ADVECT", ad, nil)
		eq += " + ADVECT"
		cls += "a"
	}
	m.AddEquation(eq)
	m.AddEquation("deta/dt = AAA*LAP eta + eta - eta^3 - BBB*conc*eta")
	dt := 0.002 + 0.008*r.Float64()
	solver := pf.NewSolver(&m, dims, dt)
	name := setStepper(c, solver, dims, dt, false)
	c.Notef("%s dt %g dims %v %s", name, dt, dims, eq)
	w := newWatcher(&m)
	size := 0.0
	moved := false
	y0 := lib.Fields(&m)
	for k := 0; k < 30; k++ {
		solver.Propagate(1)
		if !w.check(c, &m, []int{0}, k, 1e-11, &size) {
			break
		}
		if d, _ := lib.DiffR(y0[0], lib.Fields(&m)[0]); d > 1e-6 {
			moved = true
		}
	}
	if moved {
		c.Key("%s-%dD-%s", name, len(dims), cls)
	}
}

// the implicit stepper conserves up to the tolerance of its solver
func implicit(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 6, 100)
	n := lib.Prod(dims)
	m := pf.NewModel()
	m.AddField(pf.NewField("conc", n, lib.ToC(lib.RandField(r, dims, 0.5))))
	m.AddScalar(pf.NewScalar("GAM", complex(-0.5, 0)))
	m.AddEquation("dconc/dt = LAP conc^3 - LAP conc + GAM*LAP^2 conc")
	dt := 0.001 + 0.02*r.Float64()
	solver := pf.NewSolver(&m, dims, dt)
	solver.Stepper = &pf.ImplicitEuler{Dt: dt, FT: pfutil.NewFFTW(dims)}
	c.Notef("implicit dt %g dims %v", dt, dims)
	w := newWatcher(&m)
	size := 0.0
	for k := 0; k < 5; k++ {
		solver.Propagate(1)
		w.check(c, &m, []int{0}, k, 1e-6, &size)
	}
	c.Key("implicit-%dD", len(dims))
}

// a point source changes the total by its strength, and by nothing else
func sourced(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 8, 300)
	n := lib.Prod(dims)
	m := pf.NewModel()
	m.AddField(pf.NewField("conc", n, lib.ToC(lib.RandField(r, dims, 0.5))))
	m.AddScalar(pf.NewScalar("DDD", complex(0.5, 0)))
	m.AddEquation("dconc/dt = DDD*LAP conc + DDD*LAP conc^2")
	src := lib.RandSources(r, dims, 1, 3)
	for _, q := range src {
		q.Attach(&m, "conc")
	}
	dt := 0.001 + 0.01*r.Float64()
	solver := pf.NewSolver(&m, dims, dt)
	name := setStepper(c, solver, dims, dt, false)
	c.Notef("%s dt %g dims %v sources %d", name, dt, dims, len(src))
	want := lib.Mean(lib.Fields(&m)[0]) * float64(n)
	for k := 0; k < 15; k++ {
		t := float64(k) * dt
		for _, q := range src {
			if name == "euler" {
				want += dt * q.Val(t)
			} else {
				want += dt * (q.Val(t) + 4*q.Val(t+dt/2) + q.Val(t+dt)) / 6
			}
		}
		solver.Propagate(1)
		got := lib.Mean(lib.Fields(&m)[0]) * float64(n)
		if !(math.Abs(got-want) < 1e-9*(1+math.Abs(want))*float64(n)) {
			c.Fatalf("source", "after %d steps the total is %g, sources account for %g", k+1, got, want)
		}
		c.Count("totals_compared", 1)
	}
	c.Key("%s-%d", name, len(src))
}

func main() {
	lib.Main(lib.Prop{ID: "C07", Level: "exploration",
		Rule: "Random systems in divergence form (every term under a Laplacian power; or ready-made conservative terms: variable diffusivity, conservative noise, anisotropic diffusion, spectral viscosity, uniform advection) coupled to non-conserved fields; the monitor compares the average of every conserved field with its initial value after every step, and with the accumulated strength of point sources. Non-trivial: the fields moved and at least one step was compared; classes are (stepper, dimension, terms).",
		Groups: []lib.Group{
			{Name: "strings", Quick: 900, Thorough: 20000, Run: strings_},
			{Name: "terms", Quick: 500, Thorough: 10000, Run: terms},
			{Name: "implicit", Quick: 60, Thorough: 1500, Run: implicit},
			{Name: "sourced", Quick: 200, Thorough: 5000, Run: sourced},
		}})
}
