package lib

import (
	"math"

	"github.com/davidkleiven/gopf/pf"
)

// StepSpec is the scheme a stepper check compares with.
type StepSpec struct {
	Name   string
	Oracle func(s *System, y [][]float64, t, dt float64, src []Src) [][]complex128
	Times  func(t, dt float64) []float64 // the times sources may be evaluated at within a step
	Filter bool
	Stages func(s *System, y [][]float64, t, dt float64, src []Src) float64 // the largest value within a step
	MaxDt  float64
}

// RunStepper drives the named stepper over several steps of a random system and compares every
// step with the oracle applied to the state that was observed before the step.
func RunStepper(c *Case, sp StepSpec, o SysOpts) {
	r := c.R
	dims := Dims2or3(r, 2, 8, 220)
	s := GenSystem(r, dims, o)
	m := s.Build()
	src := RandSources(r, dims, len(s.Names), 3)
	if r.Intn(3) == 0 {
		src = nil
	}
	for _, q := range src {
		q.Attach(m, s.Names[q.Field])
	}
	dt := s.SafeDt(r, s.Init, sp.MaxDt)
	c.Notef("%s dt %g %s sources %d", sp.Name, dt, s.Describe(), len(src))
	solver := pf.NewSolver(m, dims, dt)
	solver.SetStepper(sp.Name)
	var filter *FilterFn
	if sp.Filter && r.Intn(3) == 0 {
		filter = &FilterFn{F: func(x float64) float64 { return 1 / (1 + 2*x) }}
		if r.Intn(2) == 0 {
			filter.F = func(x float64) float64 { return 0.75 }
		}
		solver.Stepper.SetFilter(filter)
		c.Notef("filter")
	}
	refilter := sp.Filter && r.Intn(8) == 0
	steps := 3 + r.Intn(4)
	if r.Intn(40) == 0 {
		steps = 30 + r.Intn(30)
	}
	cls := "plain"
	changing := r.Intn(4) == 0
	for n := 0; n < steps; n++ {
		if changing && n > 0 && r.Intn(2) == 0 && s.ChangeScalar(r, m) {
			c.Count("scalar_changes", 1)
		}
		if refilter && n > 0 && r.Intn(2) == 0 { // another filter from here on
			a := 0.5 + r.Float64()
			f := func(x float64) float64 { return 1 / (1 + a*x) }
			if filter != nil && r.Intn(2) == 0 {
				filter.F = f
			} else {
				filter = &FilterFn{F: f}
				solver.Stepper.SetFilter(filter)
			}
			c.Count("filter_changes", 1)
		}
		y := Fields(m)
		size := MaxAbsAll(y)
		// (imaginary round-off that an unstable run has amplified is not part of the oracle's state)
		if !(size < 10) || MaxImag(m) > 1e-9*(size+1e-3) {
			c.Count("trajectories_cut", 1)
			break
		}
		for i := range m.Fields {
			copy(m.Fields[i].Data, ToC(y[i]))
		}
		t := solver.Stepper.GetTime()
		if math.Abs(t-float64(n)*dt) > 1e-12+1e-12*math.Abs(t) {
			c.Failf("time", "after %d steps of %g the stepper reports the time %g", n, dt, t)
			return
		}
		for _, q := range src {
			q.Calls.Take()
		}
		if sp.Stages != nil && !(sp.Stages(s, y, t, dt, src) < 1e2) {
			c.Count("trajectories_cut", 1)
			break
		}
		want := sp.Oracle(s, y, t, dt, src)
		unfiltered := want
		if filter != nil {
			want = make([][]complex128, len(unfiltered))
			for i := range want {
				want[i] = append([]complex128{}, unfiltered[i]...)
				for k := range want[i] {
					want[i][k] *= complex(filter.F(FilterArg(dims, k)), 0)
				}
			}
		}
		solver.Propagate(1)
		scale := size * float64(Prod(dims))
		if v := MaxAll(want); v > scale {
			scale = v
		}
		if nl, _ := s.NL(y, t, src); dt*MaxAll(nl) > scale {
			scale = dt * MaxAll(nl)
		}
		if !(size < 10) || !(scale < 1e6) || math.IsNaN(MaxAll(want)) {
			break
		}
		// conditioning of the step: steps that amplify round-off cannot be compared
		yp := make([][]float64, len(y))
		for i := range y {
			yp[i] = make([]float64, len(y[i]))
			for k := range y[i] {
				yp[i][k] = y[i][k] + 1e-7*size*(2*r.Float64()-1)
			}
		}
		cond := 0.0
		for i, w := range sp.Oracle(s, yp, t, dt, src) {
			if d, _ := Diff(w, unfiltered[i]); d > cond {
				cond = d
			}
		}
		cond /= 1e-7*scale + 1e-300
		if !(cond < 1e3) {
			c.Count("ill_conditioned_steps", 1)
			break
		}
		if cond > 1 {
			scale *= cond
		}
		_, lin := s.NL(y, t, nil)
		amp := 1.0
		for i := range lin {
			for _, l := range lin[i] {
				if v := math.Abs(real(l)) * dt; v > amp {
					amp = v
				}
			}
		}
		// terms that cancel each other leave round-off of their own size
		for i := range y {
			if _, v := s.RHS(i, y); dt*v > scale {
				scale = dt * v
			}
		}
		tol := 1e-9 * (scale + 1e-3) * amp
		for i := range m.Fields {
			got := DFT(dims, m.Fields[i].Data, -1)
			d, at := Diff(got, want[i])
			if d > tol {
				c.Failf("step", "%s step %d (t=%g dt=%g): field %s mode %d is %v, the scheme gives %v (tol %g)", sp.Name, n, t, dt, s.Names[i], at, got[at], want[i][at], tol)
				return
			}
		}
		c.Count("amplitudes_compared", len(m.Fields)*Prod(dims))
		c.Count("steps_compared", 1)
		allowed := sp.Times(t, dt)
		for _, q := range src {
			cls = "sources"
			for _, tt := range q.Calls.Take() {
				ok := false
				for _, a := range allowed {
					if math.Abs(a-tt) < 1e-9*(1+math.Abs(a)) {
						ok = true
					}
				}
				if !ok {
					c.Failf("source-time", "in the step from t=%g (dt=%g) a source was evaluated at t=%g", t, dt, tt)
					return
				}
				c.Count("source_times", 1)
			}
		}
		c.Key("%s %dD %df filter=%v order=%v lin=%v", cls, len(dims), len(s.Names), filter != nil, s.Names[0] == s.EqOrder[0], amp > 1)
	}
}

// MaxAbsAll is the largest modulus of several real arrays.
func MaxAbsAll(y [][]float64) float64 {
	m := 0.0
	for _, f := range y {
		v := MaxAbsR(f)
		if math.IsNaN(v) {
			return v
		}
		if v > m {
			m = v
		}
	}
	return m
}

// EvalRHS evaluates the complete right hand side (explicit part plus implicit factor times
// field) of all equations of an initialised model, in real space. The fields are restored.
func EvalRHS(m *pf.Model, dims []int, t float64) [][]complex128 {
	keep := make([][]complex128, len(m.Fields))
	m.SyncDerivedFields()
	for i := range m.Fields {
		keep[i] = append([]complex128{}, m.Fields[i].Data...)
		copy(m.Fields[i].Data, DFT(dims, m.Fields[i].Data, -1))
	}
	for i := range m.DerivedFields {
		copy(m.DerivedFields[i].Data, DFT(dims, m.DerivedFields[i].Data, -1))
	}
	out := make([][]complex128, len(m.Fields))
	for i := range m.Fields {
		e := m.GetRHS(i, FreqFunc(dims), t)
		d := m.GetDenum(i, FreqFunc(dims), t)
		tot := make([]complex128, len(e))
		for k := range tot {
			tot[k] = e[k] + d[k]*m.Fields[i].Data[k]
		}
		out[i] = Inv(dims, tot)
	}
	for i := range m.Fields {
		copy(m.Fields[i].Data, keep[i])
	}
	return out
}
