// C03: Runge-Kutta steps.
package main

import (
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

var spec = lib.StepSpec{Name: "rk4", Filter: true, MaxDt: 0.3,
	Stages: (*lib.System).RK4Stages,
	Oracle: func(s *lib.System, y [][]float64, t, dt float64, src []lib.Src) [][]complex128 {
		return s.RK4Oracle(y, t, dt, src)
	},
	Times: func(t, dt float64) []float64 { return []float64{t, t + dt/2, t + dt} },
}

func steps(o lib.SysOpts) func(c *lib.Case) {
	return func(c *lib.Case) { lib.RunStepper(c, spec, o) }
}

// fourth order for problems without implicit terms, including time dependent sources
func convergence(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 5, 60)
	n := lib.Prod(dims)
	a, b := 0.5+r.Float64(), 0.5+r.Float64()
	u0, v0 := lib.RandField(r, dims, 0.5), lib.RandField(r, dims, 0.5)
	src := r.Intn(2) == 0
	run := func(steps int) []float64 {
		m := pf.NewModel()
		m.AddField(pf.NewField("uu", n, lib.ToC(u0)))
		m.AddField(pf.NewField("vv", n, lib.ToC(v0)))
		m.AddScalar(pf.NewScalar("AAA", complex(a, 0)))
		m.AddScalar(pf.NewScalar("BBB", complex(b, 0)))
		m.AddEquation("duu/dt = AAA*vv - BBB*uu^3")
		m.AddEquation("dvv/dt = - AAA*uu - BBB*uu*vv^2")
		if src {
			pos := make([]float64, len(dims))
			m.AddSource(0, pf.NewSource(pos, func(t float64) float64 { return math.Cos(2 * t) }))
		}
		s := pf.NewSolver(&m, dims, 2.0/float64(steps))
		s.SetStepper("rk4")
		s.Solve(1, steps)
		return append(lib.Re(m.Fields[0].Data), lib.Re(m.Fields[1].Data)...)
	}
	c.Notef("dims %v a %g b %g source %v", dims, a, b, src)
	ref := run(640)
	e1, _ := lib.DiffR(run(20), ref)
	e2, _ := lib.DiffR(run(40), ref)
	p := math.Log2(e1 / e2)
	if e1 > 1e-9 && p < 3.3 {
		c.Failf("order", "halving the step changes the error from %g to %g (observed order %g)", e1, e2, p)
	}
	c.Count("orders_observed", 1)
	c.Key("%dD-src%v", len(dims), src)
}

// the stepper used on its own: the clock starts where it is told to, and the stages see the documented times
func clock(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 4, 40)
	n := lib.Prod(dims)
	start := r.Intn(1000)
	dt := 0.01 * (1 + r.Float64())
	log := &lib.TimeLog{}
	m := pf.NewModel()
	u0 := lib.RandField(r, dims, 1)
	m.AddField(pf.NewField("uu", n, lib.ToC(u0)))
	m.AddScalar(pf.NewScalar("KKK", complex(0, 0)))
	m.AddEquation("duu/dt = KKK*uu")
	pos := make([]float64, len(dims))
	m.AddSource(0, pf.NewSource(pos, func(t float64) float64 { log.Add(t); return math.Sin(t) }))
	m.Init()
	rk := pf.RK4{Dt: dt, FT: pfutil.NewFFTW(dims), CurrentStep: start}
	k := 1 + r.Intn(5)
	rk.Propagate(k, &m)
	c.Notef("%v start %d dt %g steps %d", dims, start, dt, k)
	want := float64(start+k) * dt
	if math.Abs(rk.GetTime()-want) > 1e-9*(1+want) {
		c.Failf("clock", "time is %g, expected %g", rk.GetTime(), want)
	}
	var ts []float64
	for _, t := range log.Take() {
		if len(ts) == 0 || t-ts[len(ts)-1] > dt/100 { // t+dt and the next t differ by rounding
			ts = append(ts, t)
		}
	}
	if len(ts) != 2*k+1 {
		c.Fatalf("clock", "%d steps evaluated the source at %d different times %v", k, len(ts), ts)
	}
	for i, t := range ts {
		if math.Abs(t-(float64(start)+float64(i)/2)*dt) > 1e-9*(1+want) {
			c.Fatalf("clock", "evaluation %d of the source at %g, expected %g", i, t, (float64(start)+float64(i)/2)*dt)
		}
	}
	c.Count("clock_values", 3*k)
	c.Key("k%d %dD", k, len(dims))
}

func main() {
	lib.Main(lib.Prop{ID: "C03", Level: "exploration",
		Rule: "Random systems of 1-3 coupled equations on random 2D/3D grids are stepped with the solver's Runge-Kutta stepper; after every step all Fourier amplitudes are compared with the documented four-stage formula (stage times t, t+dt/2, t+dt/2, t+dt; implicit factors 1-dt A/2 and 1-dt A) evaluated independently on the state observed before the step; source evaluation times are recorded; the observed order without implicit terms must be 4. Non-trivial: at least one complete step compared.",
		Groups: []lib.Group{
			{Name: "coupled", Quick: 1000, Thorough: 30000, Run: steps(lib.SysOpts{MaxFields: 3, MaxTerms: 4, MaxLap: 2, MaxPow: 3, Funcs: true, ShuffleEqs: true, Constants: true})},
			{Name: "damped", Quick: 500, Thorough: 15000, Run: steps(lib.SysOpts{MaxFields: 3, MaxTerms: 4, MaxLap: 3, MaxPow: 3, Funcs: true, Damped: true, ShuffleEqs: true, ScalarAmp: 0.6})},
			{Name: "explicit-only", Quick: 400, Thorough: 10000, Run: steps(lib.SysOpts{MaxFields: 3, MaxTerms: 4, MaxLap: 1, MaxPow: 3, Funcs: true, NoLinear: true, Constants: true, ScalarAmp: 0.6})},
			{Name: "clock", Quick: 300, Thorough: 5000, Run: clock},
			{Name: "convergence", Quick: 24, Thorough: 300, Run: convergence},
		}})
}
