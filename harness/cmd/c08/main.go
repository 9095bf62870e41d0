// C08: user-defined terms, functions, derived fields and right hand side modifiers.
package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"math/rand"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"verif/lib"
)

// ut is a registered term together with its independent meaning.
type ut struct {
	name string
	kind int // 0 explicit, 1 implicit, 2 mixed
	// explicit part: amp(t) * filter(k) * product of the fields
	prod []int // powers of the fields, nil: no explicit part
	amp  float64
	time int
	flt  int
	// implicit part: coef * k2^pow/(1+k2)
	coef float64
	pow  int
	own  string // name of the derived field, if any
	// the implicit part reads individual components of the dim frequencies
	aniso bool
	dim   int
	nt    *int
}

func (u *ut) ampAt(t float64) float64 {
	switch u.time {
	case 1:
		return u.amp * math.Cos(2*t)
	case 2:
		return u.amp * (1 + t)
	}
	return u.amp
}

func fltAt(kind int, f []float64) float64 {
	switch kind {
	case 1:
		return math.Exp(-lib.K2(f) / 10)
	case 2:
		return 1 / (1 + lib.K2(f))
	}
	return 1
}

func (u *ut) lin(f []float64) float64 {
	// an anisotropic function of the individual components, the last one counting double
	k := lib.K2(f)
	last := 2 * math.Pi * f[len(f)-1]
	if u.aniso {
		if last = 2 * math.Pi * f[u.dim-1]; u.dim == 3 {
			last += math.Pi * f[1]
		}
	} else {
		last = 0
	}
	return u.coef * math.Pow(k+last*last, float64(u.pow)) / (1 + k)
}

func (u *ut) explicit(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, field []complex128) {
		br := b[u.own]
		for i := range field {
			field[i] = br.Get(i) * complex(u.ampAt(t)*fltAt(u.flt, freq(i)), 0)
		}
	}
}
func (u *ut) implicit(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, field []complex128) {
		for i := range field {
			field[i] = complex(u.lin(freq(i)), 0)
		}
	}
}
func (u *ut) Construct(b map[string]pf.Brick) pf.Term {
	if u.kind == 1 {
		return u.implicit(b)
	}
	return u.explicit(b)
}
func (u *ut) ConstructLinear(b map[string]pf.Brick) pf.Term        { return u.implicit(b) }
func (u *ut) ConstructNonLinear(b map[string]pf.Brick) pf.Term     { return u.explicit(b) }
func (u *ut) OnStepFinished(t float64, bricks map[string]pf.Brick) { *u.nt++ }

type use struct {
	u    *ut
	sign float64
	lap  int
	text string
}

// names of fields; some begin with the name of another one
var nameSets = [][]string{{"conc", "eta", "phi"}, {"concA", "conc", "conc2"}, {"eta", "etab", "et"}}

func product(p []int, y [][]float64, i int) float64 {
	v := 1.0
	for f := range p {
		v *= math.Pow(y[f][i], float64(p[f]))
	}
	return v
}

func genTerms(r *rand.Rand, m *pf.Model, dim, nf, n int, names []string, notified *int) []*ut {
	var out []*ut
	nt := 1 + r.Intn(4)
	for k := 0; k < nt; k++ {
		u := &ut{kind: r.Intn(3), nt: notified, amp: r.NormFloat64(), time: r.Intn(3), flt: r.Intn(3), coef: -r.Float64(), pow: r.Intn(3), aniso: r.Intn(2) == 0, dim: dim}
		u.name = []string{"ELAST", "ELASTIC", "TERM", "TERM2", "NOISEY", "XTERM"}[(k*2+r.Intn(2))%6]
		for _, o := range out {
			if o.name == u.name {
				u.name += "B"
			}
		}
		var df []pf.DerivedField
		if u.kind != 1 {
			u.prod = make([]int, nf)
			for f := range u.prod {
				u.prod[f] = r.Intn(3)
			}
			single := -1
			sum := 0
			for f, p := range u.prod {
				sum += p
				if p == 1 {
					single = f
				}
			}
			if sum == 1 && r.Intn(2) == 0 {
				u.own = names[single] // reads the field itself
			} else {
				u.own = fmt.Sprintf("dfield_%d_%s", k, u.name)
				prod := u.prod
				df = []pf.DerivedField{{Name: u.own, Data: make([]complex128, n), Calc: func(data []complex128) {
					for i := range data {
						v := complex(1, 0)
						for f, p := range prod {
							for q := 0; q < p; q++ {
								v *= m.Bricks[names[f]].Get(i)
							}
						}
						data[i] = v
					}
				}}}
				if r.Intn(3) == 0 {
					m.RegisterDerivedField(df[0])
					df = nil
				}
			}
		}
		switch u.kind {
		case 0:
			m.RegisterExplicitTerm(u.name, u, df)
		case 1:
			m.RegisterImplicitTerm(u.name, u, df)
		default:
			m.RegisterMixedTerm(u.name, u, df)
		}
		out = append(out, u)
	}
	return out
}

func terms(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 7, 200)
	n := lib.Prod(dims)
	nf := 1 + r.Intn(3)
	names := nameSets[r.Intn(len(nameSets))]
	m := pf.NewModel()
	var y [][]float64
	for f := 0; f < nf; f++ {
		y = append(y, lib.RandField(r, dims, 0.8))
		m.AddField(pf.NewField(names[f], n, lib.ToC(y[f])))
	}
	k0 := r.NormFloat64()
	m.AddScalar(pf.NewScalar("KKK", complex(k0, 0)))
	notified := 0
	ts := genTerms(r, &m, len(dims), nf, n, names, &notified)
	var uses [][]use
	var str []int // string terms: 0 none, 1 KKK*own, 2 KKK*own^2
	for f := 0; f < nf; f++ {
		var us []use
		for k := 1 + r.Intn(3); k > 0; k-- {
			q := use{u: ts[r.Intn(len(ts))], sign: 1}
			if r.Intn(2) == 0 {
				q.sign = -1
			}
			lap := ""
			switch r.Intn(6) {
			case 0:
				q.lap, lap = 1, "LAP "
			case 1:
				q.lap, lap = 2, "LAP^2 "
			case 2:
				q.lap, lap = 4, "LAP^4 "
			}
			q.text = lap + q.u.name
			us = append(us, q)
		}
		uses = append(uses, us)
		eq := "d" + names[f] + "/dt ="
		st := r.Intn(3)
		for _, o := range names[:nf] {
			// treated explicitly: the known finding of C11 (overlap/explicit)
			if st == 1 && o != names[f] && strings.Contains(names[f], o) {
				st = 2
			}
		}
		if st == 1 {
			eq += " KKK*" + names[f]
		} else if st == 2 {
			eq += " KKK*" + names[f] + "^2"
		}
		str = append(str, st)
		for i, q := range us {
			if q.sign < 0 {
				eq += " - " + q.text
			} else if i > 0 || st > 0 {
				eq += " + " + q.text
			} else {
				eq += " " + q.text
			}
		}
		c.Notef("%s", eq)
		m.AddEquation(eq)
	}
	type mod struct {
		f   int
		a   float64
		add float64
	}
	var mods []mod
	for k := r.Intn(4); k > 0; k-- {
		q := mod{r.Intn(nf), 0.5 + r.Float64(), r.NormFloat64()}
		mods = append(mods, q)
		m.RegisterRHSModifier(m.EqNumber(names[q.f]), func(d []complex128) {
			for i := range d {
				d[i] = d[i]*complex(q.a, 0) + complex(q.add, 0)
			}
		})
	}
	c.Notef("dims %v modifiers %v", dims, mods)

	size, exsize := 1.0, 1.0 // of the largest single contribution to an implicit and an explicit part
	oracle := func(y [][]float64, t float64) (ex, lin [][]complex128) {
		for f := 0; f < nf; f++ {
			e, l := make([]complex128, n), make([]complex128, n)
			add := func(p []int, g func(k []float64) float64) {
				x := make([]float64, n)
				for i := range x {
					x[i] = product(p, y, i)
				}
				for i, v := range lib.Fwd(dims, x) {
					v *= complex(g(lib.FreqOf(dims, i)), 0)
					exsize = math.Max(exsize, cmplx.Abs(v))
					e[i] += v
				}
			}
			switch str[f] {
			case 1:
				for i := range l {
					l[i] += complex(k0, 0)
				}
			case 2:
				p := make([]int, nf)
				p[f] = 2
				add(p, func(k []float64) float64 { return k0 })
			}
			for _, q := range uses[f] {
				q := q
				lap := func(k []float64) float64 { return q.sign * math.Pow(-lib.K2(k), float64(q.lap)) }
				if q.u.kind != 1 {
					add(q.u.prod, func(k []float64) float64 { return lap(k) * q.u.ampAt(t) * fltAt(q.u.flt, k) })
				}
				if q.u.kind != 0 {
					for i := range l {
						k := lib.FreqOf(dims, i)
						v := lap(k) * q.u.lin(k)
						size = math.Max(size, math.Abs(v))
						l[i] += complex(v, 0)
					}
				}
			}
			for _, q := range mods {
				if q.f == f {
					for i := range e {
						e[i] = e[i]*complex(q.a, 0) + complex(q.add, 0)
					}
				}
			}
			ex, lin = append(ex, e), append(lin, l)
		}
		return
	}
	solver := pf.NewSolver(&m, dims, 0.01)
	t := 3 * r.Float64()
	m.SyncDerivedFields()
	for i := range m.Fields {
		copy(m.Fields[i].Data, lib.DFT(dims, m.Fields[i].Data, -1))
	}
	for i := range m.DerivedFields {
		copy(m.DerivedFields[i].Data, lib.DFT(dims, m.DerivedFields[i].Data, -1))
	}
	ex, lin := oracle(y, t)
	for f := 0; f < nf; f++ {
		ge, gl := m.GetRHS(f, lib.FreqFunc(dims), t), m.GetDenum(f, lib.FreqFunc(dims), t)
		if d, at := lib.Diff(ge, ex[f]); d > 1e-9*(1+exsize+lib.MaxAbs(ex[f])) {
			c.Fatalf("explicit", "explicit part of the equation of %s, mode %d: %v, expected %v", names[f], at, ge[at], ex[f][at])
		}
		if d, at := lib.Diff(gl, lin[f]); d > 1e-9*size {
			c.Fatalf("implicit", "implicit part of the equation of %s, mode %d: %v, expected %v", names[f], at, gl[at], lin[f][at])
		}
		c.Count("amplitudes_compared", 2*n)
	}
	for i := range m.Fields {
		copy(m.Fields[i].Data, lib.ToC(y[i]))
	}
	// a few Euler steps with the terms in place
	dt := 0.01
	safe := true
	for f := range lin {
		for i := range lin[f] {
			if v := 1 - dt*real(lin[f][i]); math.Abs(v) < 0.2 {
				safe = false
			}
		}
	}
	if !safe {
		c.Key("no-step")
		return
	}
	for step := 0; step < 3; step++ {
		y = lib.Fields(&m)
		for i := range y {
			copy(m.Fields[i].Data, lib.ToC(y[i]))
		}
		if !(lib.MaxAbsAll(y) < 20) {
			break
		}
		ex, lin = oracle(y, float64(step)*dt)
		before := notified
		solver.Propagate(1)
		if notified-before != len(ts) {
			c.Fatalf("notify", "%d notifications for %d registered terms", notified-before, len(ts))
		}
		for f := 0; f < nf; f++ {
			h := lib.Fwd(dims, y[f])
			want := make([]complex128, n)
			sc := math.Max(1, dt*math.Max(exsize, size*lib.MaxAbs(h)))
			for i := range h {
				want[i] = (h[i] + complex(dt, 0)*ex[f][i]) / (1 - complex(dt, 0)*lin[f][i])
			}
			if v := lib.MaxAbs(want); v > sc {
				sc = v
			}
			if v := lib.MaxAbs(ex[f]); v > sc {
				sc = v
			}
			// modifiers may make the fields complex: compare complex amplitudes
			got := lib.DFT(dims, m.Fields[f].Data, -1)
			if d, at := lib.Diff(got, want); d > 1e-8*sc {
				c.Fatalf("step", "step %d field %s mode %d: %v, expected %v", step, names[f], at, got[at], want[at])
			}
		}
		c.Count("steps_compared", 1)
	}
	kinds := 0
	for _, u := range ts {
		kinds |= 1 << u.kind
	}
	c.Key("f%d-kinds%d-mods%d-terms%d", nf, kinds, len(mods), len(ts))
}

// an implicit term that depends on a field is refused
type bad struct {
	brick string
	kind  int
	amp   float64
	node  int
}

func (b *bad) Construct(br map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, field []complex128) {
		for i := range field {
			v := br[b.brick].Get(i)
			switch b.kind {
			case 0:
				field[i] = v * complex(b.amp, 0)
			case 1:
				field[i] = complex(-1, 0) + v*v*complex(b.amp, 0)
			case 3: // at one wave vector only
				field[i] = -1
				if i == b.node {
					field[i] -= v * complex(b.amp, 0)
				}
			case 4: // the difference to another field
				other := "eta"
				if b.brick == "eta" {
					other = "conc"
				}
				field[i] = -1 + complex(b.amp, 0)*(v-br[other].Get(i))
			case 5: // differences within the field
				field[i] = -1 + complex(b.amp, 0)*(v-br[b.brick].Get((i+1)%len(field)))
			default:
				field[i] = complex(-lib.K2(freq(i)), 0) * (1 + v*complex(b.amp, 0))
			}
		}
	}
}
func (b *bad) OnStepFinished(t float64, br map[string]pf.Brick) {}

// scalarTerm depends on a scalar, which is not a field
type scalarTerm struct{}

func (scalarTerm) Construct(br map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, field []complex128) {
		for i := range field {
			field[i] = -br["RATE"].Get(i)
		}
	}
}
func (scalarTerm) OnStepFinished(t float64, br map[string]pf.Brick) {}

func refused(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 5, 60)
	n := lib.Prod(dims)
	m := pf.NewModel()
	m.AddField(pf.NewField("conc", n, lib.ToC(lib.RandField(r, dims, 1))))
	m.AddField(pf.NewField("eta", n, lib.ToC(lib.RandField(r, dims, 1))))
	m.RegisterFunction("FUN", func(i int, b map[string]pf.Brick) complex128 { return b["conc"].Get(i) * b["eta"].Get(i) })
	b := &bad{brick: []string{"conc", "eta", "FUN"}[r.Intn(3)], kind: r.Intn(7), amp: 0.3 + r.Float64(), node: r.Intn(n)}
	good := r.Intn(4) == 0
	cls := fmt.Sprintf("%s-%d", b.brick, b.kind)
	if good {
		if r.Intn(2) == 0 {
			m.AddScalar(pf.NewScalar("RATE", complex(0.3, 0)))
			m.RegisterImplicitTerm("GOOD", scalarTerm{}, nil)
		} else {
			m.RegisterImplicitTerm("GOOD", &ut{kind: 1, coef: -1, pow: r.Intn(3), nt: new(int)}, nil)
		}
		m.AddEquation("dconc/dt = GOOD")
		cls = "good"
	} else {
		m.RegisterImplicitTerm("BADTERM", b, nil)
		m.AddEquation("dconc/dt = BADTERM")
	}
	m.AddEquation("deta/dt = eta")
	c.Notef("brick %s kind %d amp %g good %v", b.brick, b.kind, b.amp, good)
	pan, v := lib.MustPanic(func() { pf.NewSolver(&m, dims, 0.1) })
	if pan == good {
		c.Failf("validation", "term accepted=%v, should be accepted=%v (%v)", !pan, good, v)
	}
	c.Count("validations", 1)
	c.Key("%s", cls)
}

// functions and scalars see the current values in every step
func live(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 5, 60)
	n := lib.Prod(dims)
	m := pf.NewModel()
	y := [][]float64{lib.RandField(r, dims, 0.5), lib.RandField(r, dims, 0.5)}
	m.AddField(pf.NewField("conc", n, lib.ToC(y[0])))
	m.AddField(pf.NewField("eta", n, lib.ToC(y[1])))
	m.AddScalar(pf.NewScalar("KKK", complex(0.7, 0)))
	m.RegisterFunction("FUN", func(i int, b map[string]pf.Brick) complex128 {
		return complex(math.Sin(real(b["conc"].Get(i)))*real(b["eta"].Get(i)), 0)
	})
	rate := r.Float64()
	m.AddScalar(pf.NewScalar("RATE", complex(rate, 0)))
	m.RegisterImplicitTerm("DECAY", scalarTerm{}, nil)
	m.AddEquation("dconc/dt = KKK*FUN + DECAY")
	m.AddEquation("deta/dt = FUN*conc")
	dt := 0.1 * r.Float64()
	s := pf.NewSolver(&m, dims, dt)
	kv := 0.7
	for step := 0; step < 5; step++ {
		if r.Intn(2) == 0 {
			kv = r.NormFloat64()
			m.Bricks["KKK"].(*pf.Scalar).SetFloat(kv)
		}
		if r.Intn(2) == 0 {
			rate = r.Float64()
			m.Bricks["RATE"].(*pf.Scalar).SetFloat(rate)
		}
		want := make([][]float64, 2)
		for f := range want {
			want[f] = make([]float64, n)
		}
		for i := 0; i < n; i++ {
			fn := math.Sin(y[0][i]) * y[1][i]
			want[0][i] = (y[0][i] + dt*kv*fn) / (1 + dt*rate)
			want[1][i] = y[1][i] + dt*fn*y[0][i]
		}
		s.Propagate(1)
		got := lib.Fields(&m)
		for f := range want {
			if d, at := lib.DiffR(got[f], want[f]); d > 1e-10 {
				c.Fatalf("live", "step %d: field %d node %d is %g, expected %g (scalar %g)", step, f, at, got[f][at], want[f][at], kv)
			}
		}
		y = got
		c.Count("steps_compared", 1)
	}
	c.Notef("dims %v dt %g", dims, dt)
	c.Key("%dD", len(dims))
}

func main() {
	lib.Main(lib.Prop{ID: "C08", Level: "exploration",
		Rule: "Random models with registered explicit, implicit and mixed terms (time dependent, wave-number dependent, reading fields or their own derived fields) used with random signs and Laplacian prefixes in several equations, string terms beside them and random right hand side modifiers; explicit and implicit parts are compared mode by mode with an independent evaluator, then three solver steps; implicit registrations that depend on a field must be refused; scalars changed between steps and functions must be seen by the next step. Non-trivial: all modes of all equations compared.",
		Groups: []lib.Group{
			{Name: "terms", Quick: 1200, Thorough: 30000, Run: terms},
			{Name: "refused", Quick: 120, Thorough: 2000, Run: refused},
			{Name: "live", Quick: 100, Thorough: 2000, Run: live},
		}})
}
