// C06: the solver's protocol: steps, notifications, callbacks and monitors.
package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

type event struct {
	Kind  string
	Id    int
	Epoch int
	T     float64
	Val   float64
}

type trace struct{ ev []event }

func (t *trace) add(e event) { t.ev = append(t.ev, e) }

type term struct {
	tr  *trace
	id  int
	lin bool
}

func (p *term) fill(v complex128) pf.Term {
	return func(freq pf.Frequency, t float64, field []complex128) {
		for i := range field {
			field[i] = v
		}
	}
}
func (p *term) Construct(b map[string]pf.Brick) pf.Term          { return p.fill(0) }
func (p *term) ConstructLinear(b map[string]pf.Brick) pf.Term    { return p.fill(0) }
func (p *term) ConstructNonLinear(b map[string]pf.Brick) pf.Term { return p.fill(0) }
func (p *term) OnStepFinished(t float64, b map[string]pf.Brick) {
	p.tr.add(event{Kind: "finished", Id: p.id, T: t, Val: real(b["uu"].Get(3))})
}

type mon struct {
	tr *trace
	id int
}

func (m *mon) Add(b map[string]pf.Brick) {
	m.tr.add(event{Kind: "monitor", Id: m.id, Val: real(b["uu"].Get(3))})
}

// spy wraps a stepper
type spy struct {
	pf.TimeStepper
	tr *trace
}

func (s *spy) Step(m *pf.Model) {
	s.tr.add(event{Kind: "step", T: s.TimeStepper.GetTime()})
	s.TimeStepper.Step(m)
}

func protocol(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 4, 40)
	for lib.Prod(dims) < 4 {
		dims = lib.Dims2or3(r, 2, 4, 40)
	}
	n := lib.Prod(dims)
	dt := 0.01 + 0.1*r.Float64()
	tr := &trace{}
	m := pf.NewModel()
	u0 := lib.RandField(r, dims, 1)
	m.AddField(pf.NewField("uu", n, lib.ToC(u0)))
	rate := -0.1 - r.Float64()
	m.AddScalar(pf.NewScalar("KKK", complex(rate, 0)))
	eq := "duu/dt = KKK*uu"
	nterm := r.Intn(5)
	if r.Intn(10) == 0 {
		nterm = 5 + r.Intn(10)
	}
	for i := 0; i < nterm; i++ {
		name := fmt.Sprintf("TERM%c", 'A'+i)
		switch r.Intn(3) {
		case 0:
			m.RegisterImplicitTerm(name, &term{tr: tr, id: i}, nil)
		case 1:
			m.RegisterExplicitTerm(name, &term{tr: tr, id: i}, nil)
		default:
			m.RegisterMixedTerm(name, &term{tr: tr, id: i}, nil)
		}
		if r.Intn(4) > 0 { // (some terms only observe)
			eq += " + " + name
		}
	}
	m.AddEquation(eq)
	s := pf.NewSolver(&m, dims, dt)
	name := "euler"
	switch r.Intn(4) {
	case 0:
		name = "rk4"
		s.SetStepper(name)
	case 1:
		s.SetStepper(name)
	case 2:
		name = "implicit"
		s.Stepper = &pf.ImplicitEuler{Dt: dt, FT: pfutil.NewFFTW(dims)}
	}
	start := 0
	if r.Intn(2) == 0 { // continues an earlier run
		start = r.Intn(200)
		switch st := s.Stepper.(type) {
		case *pf.Euler:
			st.CurrentStep = start
		case *pf.RK4:
			st.CurrentStep = start
		case *pf.ImplicitEuler:
			st.CurrentStep = start
		}
	}
	s.Stepper = &spy{s.Stepper, tr}
	ncb, nmon := r.Intn(4), r.Intn(4)
	if r.Intn(10) == 0 {
		ncb, nmon = r.Intn(16), r.Intn(16)
	}
	for i := 0; i < ncb; i++ {
		i := i
		s.AddCallback(func(sv *pf.Solver, epoch int) {
			ok := 0.0
			if sv == s {
				ok = real(sv.Model.Fields[0].Data[3])
			}
			tr.add(event{Kind: "callback", Id: i, Epoch: epoch, T: sv.Stepper.GetTime(), Val: ok})
		})
	}
	for i := 0; i < nmon; i++ {
		s.AddMonitor(&mon{tr, i})
	}
	site := r.Intn(n)
	pm := pf.NewPointMonitor(site, "uu")
	s.AddMonitor(&pm)
	s.StartEpoch = r.Intn(50)
	calls := 1 + r.Intn(3)
	c.Notef("dims %v stepper %s dt %g terms %d callbacks %d monitors %d first step %d, epoch %d", dims, name, dt, nterm, ncb, nmon, start, s.StartEpoch)
	step := 0
	value := func(k int) float64 {
		switch name {
		case "implicit":
			return u0[3] * math.Exp(rate*dt*float64(k))
		default:
			return u0[3] * math.Pow(1/(1-dt*rate), float64(k))
		}
	}
	near := func(a, b float64) bool { return math.Abs(a-b) < 1e-6*(1+math.Abs(b)) }
	epochs := 0
	for call := 0; call < calls; call++ {
		tr.ev = nil
		ne, ns := r.Intn(4), r.Intn(4)
		if r.Intn(12) == 0 {
			ne = 4 + r.Intn(20)
		}
		if r.Intn(12) == 0 {
			ns = 4 + r.Intn(20)
		}
		s.Solve(ne, ns)
		pos := 0
		next := func() event {
			if pos >= len(tr.ev) {
				return event{Kind: "end of trace"}
			}
			pos++
			return tr.ev[pos-1]
		}
		for e := 0; e < ne; e++ {
			for k := 0; k < ns; k++ {
				ev := next()
				if ev.Kind != "step" || !near(ev.T, float64(start+step)*dt) {
					c.Fatalf("order", "Solve(%d,%d) epoch %d: expected step %d at t=%g, observed %+v", ne, ns, e, k, float64(start+step)*dt, ev)
				}
				step++
				seen := map[int]bool{}
				for j := 0; j < nterm; j++ {
					ev = next()
					if ev.Kind != "finished" || seen[ev.Id] || !near(ev.T, float64(start+step)*dt) || !near(ev.Val, value(step)) {
						c.Fatalf("finished", "after step %d (t=%g, value %g) expected one notification per term, observed %+v (seen %v)", step, float64(start+step)*dt, value(step), ev, seen)
					}
					seen[ev.Id] = true
					c.Count("notifications", 1)
				}
			}
			for j := 0; j < ncb; j++ {
				ev := next()
				if ev.Kind != "callback" || ev.Id != j || ev.Epoch != e+s.StartEpoch || !near(ev.T, float64(start+step)*dt) || !near(ev.Val, value(step)) {
					c.Fatalf("callback", "expected callback %d with epoch %d at t=%g value %g, observed %+v", j, e+s.StartEpoch, float64(start+step)*dt, value(step), ev)
				}
				c.Count("callbacks", 1)
			}
			for j := 0; j < nmon; j++ {
				ev := next()
				if ev.Kind != "monitor" || ev.Id != j || !near(ev.Val, value(step)) {
					c.Fatalf("monitor", "expected monitor %d with value %g, observed %+v", j, value(step), ev)
				}
				c.Count("monitor_adds", 1)
			}
			epochs++
			if e == ne-1 && (len(pm.Data) != epochs || pm.Data[epochs-1] != real(m.Fields[0].Data[site])) {
				c.Fatalf("point", "point monitor holds %v after %d epochs, the field is %v", pm.Data, epochs, m.Fields[0].Data[site])
			}
		}
		if pos != len(tr.ev) {
			c.Fatalf("extra", "unexpected event %+v", tr.ev[pos])
		}
		c.Key("%s-t%d-c%d-m%d-%d-%d", name, nterm, ncb, nmon, ne, ns)
	}
	// Propagate does not run callbacks
	tr.ev = nil
	k := r.Intn(4)
	s.Propagate(k)
	got := 0
	for _, ev := range tr.ev {
		if ev.Kind == "step" {
			got++
		}
		if ev.Kind == "callback" || ev.Kind == "monitor" {
			c.Fatalf("propagate", "Propagate produced %+v", ev)
		}
	}
	if got != k {
		c.Fatalf("propagate", "Propagate(%d) made %d steps", k, got)
	}
}

// point monitors and their JSON form hold one value per epoch
func monitors(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 5, 60)
	n := lib.Prod(dims)
	m := pf.NewModel()
	m.AddField(pf.NewField("uu", n, lib.ToC(lib.RandField(r, dims, 1))))
	m.AddField(pf.NewField("vv", n, lib.ToC(lib.RandField(r, dims, 1))))
	m.AddScalar(pf.NewScalar("KKK", complex(0.3, 0)))
	m.AddEquation("duu/dt = KKK*LAP uu - KKK*vv")
	m.AddEquation("dvv/dt = KKK*LAP vv + KKK*uu*vv")
	s := pf.NewSolver(&m, dims, 0.05)
	type watch struct {
		p     *pf.PointMonitor
		field int
		site  int
		vals  []float64
	}
	var ws []*watch
	for k := 1 + r.Intn(4); k > 0; k-- {
		f := r.Intn(2)
		site := r.Intn(n)
		pm := pf.NewPointMonitor(site, []string{"uu", "vv"}[f])
		s.AddMonitor(&pm)
		ws = append(ws, &watch{p: &pm, field: f, site: site})
	}
	s.AddCallback(func(sv *pf.Solver, epoch int) {
		for _, w := range ws {
			w.vals = append(w.vals, real(sv.Model.Fields[w.field].Data[w.site]))
		}
	})
	ne := 1 + r.Intn(6)
	s.Solve(ne, 1+r.Intn(3))
	c.Notef("dims %v monitors %d epochs %d", dims, len(ws), ne)
	var dec []struct {
		Data  []float64
		Site  int
		Field string
		Name  string
	}
	if err := json.Unmarshal(s.JSONifyMonitors(), &dec); err != nil || len(dec) != len(ws) {
		c.Fatalf("json", "monitors do not decode: %v (%d)", err, len(dec))
	}
	for i, w := range ws {
		if len(w.p.Data) != ne || len(dec[i].Data) != ne || dec[i].Site != w.site || dec[i].Field != []string{"uu", "vv"}[w.field] {
			c.Fatalf("json", "monitor %d: %d values, JSON %+v, expected %d values", i, len(w.p.Data), dec[i], ne)
		}
		for k := range w.vals {
			if w.p.Data[k] != w.vals[k] || dec[i].Data[k] != w.vals[k] {
				c.Fatalf("value", "monitor %d epoch %d recorded %g (JSON %g), the field had %g", i, k, w.p.Data[k], dec[i].Data[k], w.vals[k])
			}
			c.Count("monitor_values", 1)
		}
	}
	c.Key("%d-%d", len(ws), ne)
}

func misuse(c *lib.Case) {
	dims := []int{4, 3}
	mk := func(n int) *pf.Model {
		m := pf.NewModel()
		m.AddField(pf.NewField("uu", n, nil))
		m.AddScalar(pf.NewScalar("KKK", complex(0.3, 0)))
		m.AddEquation("duu/dt = KKK*uu")
		return &m
	}
	var pan bool
	switch c.Index % 3 {
	case 0:
		s := pf.NewSolver(mk(12), dims, 0.1)
		pan, _ = lib.MustPanic(func() { s.SetStepper([]string{"rk5", "Euler", "", "RK4"}[c.R.Intn(4)]) })
	case 1:
		pan, _ = lib.MustPanic(func() { pf.NewSolver(mk(11+2*c.R.Intn(2)), dims, 0.1) })
	default:
		pan, _ = lib.MustPanic(func() { pf.NewField("uu", 5, make([]complex128, 4)) })
	}
	if !pan {
		c.Failf("misuse", "misuse %d accepted", c.Index%3)
	}
	c.Count("misuse_refused", 1)
	c.Key("%d", c.Index%3)
}

func main() {
	lib.Main(lib.Prop{ID: "C06", Level: "exploration",
		Rule: "Solver runs with random numbers of epochs, steps, callbacks, monitors and registered terms, several Solve calls and all steppers; a spy stepper, spy terms, callbacks and monitors write one trace, which an online checker matches event by event against the protocol (step, one notification per term with the new time and the new field values, callbacks in registration order with the right epoch number, then monitors). Non-trivial: a complete trace matched; classes are (stepper, terms, callbacks, monitors, epochs, steps).",
		Groups: []lib.Group{
			{Name: "protocol", Quick: 1500, Thorough: 40000, Run: protocol},
			{Name: "monitors", Quick: 300, Thorough: 5000, Run: monitors},
			{Name: "misuse", Quick: 12, Thorough: 24, Run: misuse},
		}})
}
