// C02: semi-implicit Euler steps.
package main

import (
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

var spec = lib.StepSpec{Name: "euler", Filter: true, MaxDt: 0.5,
	Oracle: func(s *lib.System, y [][]float64, t, dt float64, src []lib.Src) [][]complex128 {
		return s.EulerOracle(y, t, dt, src)
	},
	Times: func(t, dt float64) []float64 { return []float64{t} },
}

func steps(o lib.SysOpts) func(c *lib.Case) {
	return func(c *lib.Case) { lib.RunStepper(c, spec, o) }
}

// the error at a fixed time is first order in dt
func convergence(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 4, 6, 120)
	n := lib.Prod(dims)
	a, b := 0.5+r.Float64(), 0.2+r.Float64()
	// du/dt = A v - B u^3..., dv/dt = D LAP v - A u
	u0, v0 := lib.RandField(r, dims, 0.5), lib.RandField(r, dims, 0.5)
	run := func(steps int) []float64 {
		m := pf.NewModel()
		m.AddField(pf.NewField("uu", n, lib.ToC(u0)))
		m.AddField(pf.NewField("vv", n, lib.ToC(v0)))
		m.AddScalar(pf.NewScalar("AAA", complex(a, 0)))
		m.AddScalar(pf.NewScalar("BBB", complex(b, 0)))
		m.AddEquation("duu/dt = AAA*vv - BBB*uu^3")
		m.AddEquation("dvv/dt = BBB*LAP vv - AAA*uu")
		s := pf.NewSolver(&m, dims, 0.4/float64(steps))
		s.Solve(1, steps)
		return append(lib.Re(m.Fields[0].Data), lib.Re(m.Fields[1].Data)...)
	}
	c.Notef("dims %v a %g b %g", dims, a, b)
	ref := run(1600)
	e1, _ := lib.DiffR(run(25), ref)
	e2, _ := lib.DiffR(run(50), ref)
	p := math.Log2(e1 / e2)
	if e1 > 1e-6 && (p < 0.8 || p > 1.35) {
		c.Failf("order", "halving the step changes the error from %g to %g (observed order %g)", e1, e2, p)
	}
	c.Count("orders_observed", 1)
	c.Key("%dD", len(dims))
}

// linear decay is stable for any time step
func stability(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 9, 300)
	n := lib.Prod(dims)
	dt := math.Pow(10, 6*r.Float64()-2)
	p := 1 + r.Intn(4)
	m := pf.NewModel()
	d := math.Pow(10, 2*r.Float64()-1)
	if p%2 == 0 {
		d = -d
	}
	m.AddField(pf.NewField("uu", n, lib.ToC(lib.RandField(r, dims, 1))))
	m.AddScalar(pf.NewScalar("DDD", complex(d, 0)))
	m.AddEquation("duu/dt = DDD*LAP^" + string(rune('0'+p)) + " uu")
	c.Notef("dims %v dt %g power %d D %g", dims, dt, p, d)
	s := pf.NewSolver(&m, dims, dt)
	prev := 0.0
	for _, v := range m.Fields[0].Data {
		prev += real(v) * real(v)
	}
	for i := 0; i < 10; i++ {
		s.Propagate(1)
		cur := 0.0
		for _, v := range m.Fields[0].Data {
			cur += real(v) * real(v)
		}
		if !(cur <= prev*(1+1e-9)+1e-15) {
			c.Failf("unstable", "norm grows from %g to %g in step %d", prev, cur, i)
			return
		}
		prev = cur
		c.Count("norms_compared", 1)
	}
	c.Key("p%d", p)
}

// a stepper created with a start step continues the clock
func clock(c *lib.Case) {
	r := c.R
	dims := []int{4, 4}
	start := r.Intn(1000)
	dt := 0.01 * (1 + r.Float64())
	log := &lib.TimeLog{}
	m := pf.NewModel()
	m.AddField(pf.NewField("uu", 16, nil))
	m.AddScalar(pf.NewScalar("KKK", complex(-1, 0)))
	m.AddEquation("duu/dt = KKK*uu")
	m.AddSource(0, pf.NewSource([]float64{1, 2}, func(t float64) float64 { log.Add(t); return math.Sin(t) }))
	m.Init()
	eu := pf.Euler{Dt: dt, FT: pfutil.NewFFTW(dims), CurrentStep: start}
	k := 1 + r.Intn(5)
	eu.Propagate(k, &m)
	want := float64(start+k) * dt
	c.Notef("start %d dt %g steps %d", start, dt, k)
	if math.Abs(eu.GetTime()-want) > 1e-9*(1+want) {
		c.Failf("clock", "time is %g, expected %g", eu.GetTime(), want)
	}
	ts := log.Take()
	if len(ts) != k {
		c.Failf("clock", "%d steps evaluated the source at %d different times %v", k, len(ts), ts)
		return
	}
	for i, t := range ts {
		if math.Abs(t-float64(start+i)*dt) > 1e-9*(1+want) {
			c.Failf("clock", "step %d evaluated the source at %g, expected %g", i, t, float64(start+i)*dt)
		}
	}
	c.Count("clock_values", k)
	c.Key("k%d", k)
}

func main() {
	lib.Main(lib.Prop{ID: "C02", Level: "exploration",
		Rule: "Random systems of 1-3 coupled equations (products, functions, Laplacian powers, point sources, modal filters) on random 2D/3D grids are stepped with the solver's Euler stepper; after every step all Fourier amplitudes are compared with (y + dt N(t,y))/(1 - dt A) evaluated by an independent evaluator on the state observed before the step, and the times at which sources are evaluated are recorded. Also observed: order of convergence, monotone decay for any dt, the clock. Non-trivial: at least one complete step compared; classes are (sources, dimension, fields, filter, equation order, stiff implicit part).",
		Groups: []lib.Group{
			{Name: "coupled", Quick: 1500, Thorough: 40000, Run: steps(lib.SysOpts{MaxFields: 3, MaxTerms: 4, MaxLap: 2, MaxPow: 3, Funcs: true, ShuffleEqs: true, Constants: true})},
			{Name: "damped", Quick: 700, Thorough: 20000, Run: steps(lib.SysOpts{MaxFields: 3, MaxTerms: 5, MaxLap: 3, MaxPow: 4, Funcs: true, Damped: true, ShuffleEqs: true, ScalarAmp: 0.6})},
			{Name: "explicit-only", Quick: 400, Thorough: 8000, Run: steps(lib.SysOpts{MaxFields: 3, MaxTerms: 4, MaxLap: 1, MaxPow: 3, Funcs: true, NoLinear: true, Constants: true, ScalarAmp: 0.6})},
			{Name: "convergence", Quick: 24, Thorough: 300, Run: convergence},
			{Name: "stability", Quick: 200, Thorough: 5000, Run: stability},
			{Name: "clock", Quick: 60, Thorough: 600, Run: clock},
		}})
}
