// C04: the fully implicit stepper solves its implicit equation.
package main

import (
	"bytes"
	"log"
	"math"
	"math/cmplx"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

// phi1 = (e^z-1)/z, phi2 = (e^z-1-z)/z^2
func phi(z complex128) (complex128, complex128) {
	if cmplx.Abs(z) < 0.05 {
		p1, p2, t := complex(0, 0), complex(0, 0), complex(1, 0)
		f := 1.0
		for n := 1; n < 14; n++ {
			f *= float64(n)
			p1 += t / complex(f, 0)
			p2 += t / complex(f*float64(n+1), 0)
			t *= z
		}
		return p1, p2
	}
	e := cmplx.Exp(z)
	return (e - 1) / z, (e - 1 - z) / (z * z)
}

func newStepper(m *pf.Model, dims []int, dt float64) (*pf.Solver, *pf.ImplicitEuler) {
	s := pf.NewSolver(m, dims, dt)
	ie := &pf.ImplicitEuler{Dt: dt, FT: pfutil.NewFFTW(dims)}
	s.Stepper = ie
	return s, ie
}

func residual(gentle bool) func(c *lib.Case) {
	return func(c *lib.Case) { residualRun(c, gentle) }
}

func residualRun(c *lib.Case, gentle bool) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 6, 80)
	s := lib.GenSystem(r, dims, lib.SysOpts{Tame: gentle, MaxFields: 2, MaxTerms: 3, MaxLap: 2, MaxPow: 3, Funcs: !gentle, ShuffleEqs: true, Constants: true, ScalarAmp: 0.7, FieldAmp: 0.6})
	m := s.Build()
	var src []lib.Src
	if r.Intn(2) == 0 {
		src = lib.RandSources(r, dims, len(s.Names), 3)
		for i := range src {
			src[i].Amp *= 0.5
			src[i].Attach(m, s.Names[src[i].Field])
		}
	}
	dt := s.SafeDt(r, s.Init, 0.3)
	n, lin := s.NL(s.Init, 0, nil)
	big := lib.MaxAll(n) / float64(lib.Prod(dims))
	lmax := 0.0
	for i := range lin {
		for _, l := range lin[i] {
			if real(l) > lmax {
				lmax = real(l)
			}
		}
	}
	if lmax*dt > 1 {
		dt = 1 / lmax
	}
	// keep the Newton iteration in its basin: explicit part is a small perturbation
	stiff := 0.0
	for _, q := range s.Eqs {
		for _, t := range q {
			k := 1.0
			for _, f := range t.Scalars {
				k *= math.Pow(math.Abs(s.Scalars[f.Name]), float64(f.Pow))
			}
			stiff += k * math.Pow(math.Pi*math.Pi*float64(len(dims)), float64(t.Lap)) * 3
		}
	}
	if dt*(stiff+big) > 0.5 {
		dt = 0.5 / (stiff + big)
	}
	c.Notef("dt %g %d sources %s", dt, len(src), s.Describe())
	var buf bytes.Buffer
	log.SetOutput(&buf)
	defer log.SetOutput(&bytes.Buffer{})
	solver, ie := newStepper(m, dims, dt)
	if len(src) > 0 {
		ie.CurrentStep = r.Intn(50)
	}
	start := ie.CurrentStep
	for step := 0; step < 3; step++ {
		if step > 0 && r.Intn(3) == 0 {
			// the user refines the time step; the clock is steps times step size
			dt *= 0.5 + 0.4*r.Float64()
			ie.Dt = dt
			c.Count("step_size_changes", 1)
		}
		if step > 0 && r.Intn(3) == 0 && s.ChangeScalar(r, m) {
			c.Count("scalar_changes", 1)
		}
		t0 := float64(start+step) * dt
		y := lib.Fields(m)
		if !(lib.MaxAbsAll(y) < 20) {
			break
		}
		if math.Abs(ie.GetTime()-t0) > 1e-12*(1+t0) {
			c.Failf("time", "after %d steps of %g the time is %g", step, dt, ie.GetTime())
		}
		solver.Propagate(1)
		if strings.Contains(buf.String(), "not converge") {
			if !gentle {
				// documented: the scheme depends on the convergence of the non-linear solver
				c.Count("not_converged", 1)
				return
			}
			c.Failf("not-converged", "the solver did not converge although dt times the stiffness is %g", dt*(stiff+big))
			return
		}
		z := lib.Fields(m)
		nOld, lin := s.NL(y, t0, src)
		nNew, _ := s.NL(z, t0+dt, src)
		yh, zh := lib.FwdAll(dims, y), lib.FwdAll(dims, z)
		var worst float64
		nodes := float64(lib.Prod(dims))
		for i := range yh {
			res := make([]complex128, len(yh[i]))
			for k := range res {
				h := complex(dt, 0)
				zz := lin[i][k] * h
				p1, p2 := phi(zz)
				res[k] = zh[i][k] - cmplx.Exp(zz)*yh[i][k] - h*p1*nOld[i][k] - h*p2*(nNew[i][k]-nOld[i][k])
			}
			re := lib.Inv(dims, res)
			v := lib.MaxAbs(re)
			if v > worst {
				worst = v
			}
		}
		tol := 1e-6 * (1 + lib.MaxAbsAll(y) + dt*big)
		if worst > tol || math.IsNaN(worst) {
			c.Failf("residual", "step %d: the new fields miss the implicit equation by %g (tol %g, nodes %g)", step, worst, tol, nodes)
			return
		}
		c.Count("steps_compared", 1)
		c.Count("residuals", len(yh)*lib.Prod(dims))
		if im := lib.MaxImag(m); im > 1e-12 {
			c.Failf("imag", "imaginary part %g", im)
		}
	}
	c.Key("%dD-%df-lin%v-src%v", len(dims), len(s.Names), lmax != 0, len(src) > 0)
}

// linear equations are integrated exactly for any step size
func linear(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 7, 120)
	n := lib.Prod(dims)
	a, b := r.Float64(), r.Float64()
	dt := math.Pow(10, 4*r.Float64()-2)
	u := lib.RandField(r, dims, 1)
	m := pf.NewModel()
	m.AddField(pf.NewField("uu", n, lib.ToC(u)))
	m.AddScalar(pf.NewScalar("AAA", complex(a, 0)))
	m.AddScalar(pf.NewScalar("BBB", complex(b, 0)))
	m.AddEquation("duu/dt = AAA*LAP uu - BBB*uu - AAA*LAP^2 uu")
	c.Notef("dims %v dt %g A %g B %g", dims, dt, a, b)
	s, _ := newStepper(&m, dims, dt)
	k := 1 + r.Intn(4)
	s.Propagate(k)
	h := lib.Fwd(dims, u)
	for i := range h {
		k2 := lib.K2(lib.FreqOf(dims, i))
		h[i] *= complex(math.Exp(float64(k)*dt*(-a*k2-b-a*k2*k2)), 0)
	}
	d, at := lib.Diff(m.Fields[0].Data, lib.Inv(dims, h))
	if d > 1e-6 {
		c.Failf("linear", "node %d is off the exact solution by %g", at, d)
	}
	c.Count("exact_solutions", n)
	c.Key("%dD-dt%d", len(dims), int(math.Log10(dt)+10))
}

// constant and linearly growing forcing is interpolated without error: exact for any step
func forced(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 6, 80)
	n := lib.Prod(dims)
	amp := math.Pow(10, 4*r.Float64())
	a, b := math.Pow(10, 3*r.Float64()-3), math.Pow(10, 3*r.Float64()-3)
	if r.Intn(3) == 0 {
		b = 0
	}
	dt := math.Pow(10, 3*r.Float64()-2)
	m0 := amp * r.NormFloat64()
	s0, s1 := amp*r.NormFloat64(), amp*r.NormFloat64()
	u := lib.RandField(r, dims, amp)
	m := pf.NewModel()
	m.AddField(pf.NewField("uu", n, lib.ToC(u)))
	m.AddScalar(pf.NewScalar("AAA", complex(a, 0)))
	m.AddScalar(pf.NewScalar("BBB", complex(b, 0)))
	m.AddScalar(pf.NewScalar("MMM", complex(m0, 0)))
	m.AddEquation("duu/dt = AAA*LAP uu - BBB*uu + MMM")
	pos := make([]float64, len(dims))
	for d := range pos {
		pos[d] = float64(dims[d]) * r.Float64()
	}
	m.AddSource(0, pf.NewSource(pos, func(t float64) float64 { return s0 + s1*t }))
	s, ie := newStepper(&m, dims, dt)
	ie.CurrentStep = r.Intn(20)
	t := dt * float64(ie.CurrentStep)
	h := lib.Fwd(dims, u)
	k := 1 + r.Intn(3)
	c.Notef("dims %v dt %g A %g B %g amplitude %g, %d steps from %g", dims, dt, a, b, amp, k, t)
	s.Propagate(k)
	scale := lib.MaxAbsR(u)
	for i := 0; i < k; i++ {
		for j := range h {
			f := lib.FreqOf(dims, j)
			z := complex(dt*(-a*lib.K2(f)-b), 0)
			arg := 0.0
			for d := range f {
				arg -= 2 * math.Pi * f[d] * pos[d]
			}
			w := cmplx.Exp(complex(0, arg))
			n0 := w * complex(s0+s1*t, 0)
			if j == 0 {
				n0 += complex(m0*float64(n), 0)
			}
			p1, p2 := phi(z)
			h[j] = cmplx.Exp(z)*h[j] + complex(dt, 0)*(p1*n0+p2*w*complex(s1*dt, 0))
			// the field is real, whatever the position of the source
			scale += dt * (math.Abs(m0)/float64(n) + (math.Abs(s0)+math.Abs(s1)*t)/float64(n))
		}
		t += dt
	}
	want := lib.Inv(dims, h)
	for i := range want {
		want[i] = complex(real(want[i]), 0)
	}
	d, at := lib.Diff(m.Fields[0].Data, want)
	if !(d <= 1e-9*scale) {
		c.Failf("forced", "node %d is off the exact solution by %g (scale %g)", at, d, scale)
	}
	c.Count("exact_solutions", n)
	c.Key("%dD-dt%d-A%d-B%d", len(dims), int(math.Log10(dt)+10), int(math.Log10(a)+10), int(math.Log10(b+1e-5)+10))
}

// second order in time
func convergence(c *lib.Case) {
	r := c.R
	dims := lib.RandDims(r, 2, 3, 5)
	n := lib.Prod(dims)
	a, b := 0.5+0.5*r.Float64(), 0.5+0.5*r.Float64()
	u0 := lib.RandField(r, dims, 0.8)
	for i := range u0 {
		u0[i] += 0.5
	}
	run := func(steps int) []float64 {
		m := pf.NewModel()
		m.AddField(pf.NewField("uu", n, lib.ToC(append([]float64{}, u0...))))
		m.AddScalar(pf.NewScalar("AAA", complex(a, 0)))
		m.AddScalar(pf.NewScalar("BBB", complex(b, 0)))
		m.AddEquation("duu/dt = AAA*LAP uu - BBB*uu^3 + AAA*uu")
		s, ie := newStepper(&m, dims, 1.0/float64(steps))
		nl := pf.DefaultNonLinSolver()
		nl.Tol = 1e-10
		ie.NonlinSolver = &nl
		s.Propagate(steps)
		return lib.Re(m.Fields[0].Data)
	}
	c.Notef("dims %v a %g b %g", dims, a, b)
	ref := run(320)
	e1, _ := lib.DiffR(run(5), ref)
	best := 0.0
	for _, k := range []int{10, 20, 40} {
		e2, _ := lib.DiffR(run(k), ref)
		if p := math.Log2(e1 / e2); p > best {
			best = p
		}
		if e1 < 1e-6 || best > 1.6 {
			best = 2
			break
		}
		e1 = e2
	}
	if best < 1.6 {
		c.Failf("order", "halving the step leaves the error near %g (observed order at most %g)", e1, best)
	}
	c.Count("orders_observed", 1)
	c.Key("%v", dims)
}

// bounded for large steps
func stable(c *lib.Case) {
	r := c.R
	dims := lib.RandDims(r, 2, 3, 6)
	n := lib.Prod(dims)
	dt := 0.5 + 2*r.Float64()
	u := lib.RandField(r, dims, 1)
	m := pf.NewModel()
	m.AddField(pf.NewField("uu", n, lib.ToC(u)))
	m.AddScalar(pf.NewScalar("AAA", complex(0.3, 0)))
	m.AddEquation("duu/dt = AAA*LAP uu - AAA*uu^3")
	c.Notef("dims %v dt %g", dims, dt)
	s, _ := newStepper(&m, dims, dt)
	prev := lib.MaxAbsR(u)
	start := prev
	s.Propagate(8)
	cur := lib.MaxAbsR(lib.Re(m.Fields[0].Data))
	if !(cur <= start*1.05+1e-6) {
		c.Failf("unstable", "decaying problem grew from %g to %g with dt=%g", start, cur, dt)
	}
	c.Count("decays", 1)
	c.Key("dt%d", int(dt))
}

func main() {
	lib.Main(lib.Prop{ID: "C04", Level: "exploration", CPULimit: 120,
		Rule: "Random coupled systems, with time dependent sources, step sizes and scalars changed on the way, stepped with the fully implicit stepper; after every step the monitor evaluates, in real space, the residual of the exponentially weighted implicit update equation (linear part integrated exactly, explicit part interpolated between the two ends) with an independent evaluator, records solver warnings, and compares linear problems with the exact solution for any step size; observed order 2. Non-trivial: at least one converged step compared.",
		Groups: []lib.Group{
			{Name: "residual", Quick: 800, Thorough: 30000, Run: residual(false)},
			{Name: "gentle", Quick: 600, Thorough: 20000, Run: residual(true)},
			{Name: "linear", Quick: 400, Thorough: 10000, Run: linear},
			{Name: "forced", Quick: 500, Thorough: 12000, Run: forced},
			{Name: "convergence", Quick: 40, Thorough: 800, Run: convergence},
			{Name: "stable", Quick: 200, Thorough: 5000, Run: stable},
		}})
}
