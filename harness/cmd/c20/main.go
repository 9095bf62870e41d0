// C20: phase field crystal terms and energies.
package main

import (
	"math"
	"math/rand"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

type peak struct {
	dens, loc, width float64
	num              int
}

type corr struct {
	temp  float64
	peaks []peak
}

func (co corr) eval(k float64) float64 {
	best := 0.0
	for _, p := range co.peaks {
		v := math.Exp(-co.temp*co.temp*k*k/(2*p.dens*float64(p.num)) - (k-p.loc)*(k-p.loc)/(2*p.width*p.width))
		best = math.Max(best, v)
	}
	return best
}

func (co corr) lib() pfc.ReciprocalSpacePairCorrelation {
	res := pfc.ReciprocalSpacePairCorrelation{EffTemp: co.temp}
	for _, p := range co.peaks {
		res.Peaks = append(res.Peaks, pfc.Peak{PlaneDensity: p.dens, Location: p.loc, Width: p.width, NumPlanes: p.num})
	}
	return res
}

func randCorr(r *rand.Rand) corr {
	co := corr{}
	if r.Intn(3) != 0 {
		co.temp = r.Float64()
	}
	for n := r.Intn(5); n >= 0; n-- {
		co.peaks = append(co.peaks, peak{dens: 0.3 + 2*r.Float64(), loc: 2.0 * math.Pi * r.Float64(), width: 0.1 + math.Exp(3*r.Float64()-1.5), num: 1 + r.Intn(12)})
	}
	return co
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

// the correlation function and the ideal mixing energy as functions of one number
func functions(c *lib.Case) {
	r := c.R
	co := randCorr(r)
	l := co.lib()
	for i := 0; i < 50; i++ {
		k := 8 * r.Float64()
		switch r.Intn(5) {
		case 0:
			k = co.peaks[r.Intn(len(co.peaks))].loc
		case 1:
			k = 0
		case 2:
			k = 40 * r.Float64()
		}
		if got, want := l.Eval(k), co.eval(k); !near(got, want, 1e-12) {
			c.Fatalf("correlation", "correlation function %+v at %v is %v, expected %v", co, k, got, want)
		}
		c.Count("values", 1)
	}
	for i := range l.Peaks {
		if p := l.Peaks[i]; p.Location != co.peaks[i].loc || p.Width != co.peaks[i].width || p.NumPlanes != co.peaks[i].num || p.PlaneDensity != co.peaks[i].dens {
			c.Fatalf("correlation", "evaluating the correlation function changed its peaks")
		}
	}
	// ready made lattices
	a := 1 + 20*r.Float64()
	w := 0.1 + r.Float64()
	sq := pfc.SquareLattice2D(w, a)
	if len(sq) != 2 {
		c.Fatalf("square", "%d peaks", len(sq))
	}
	for i, k := range []float64{2 * math.Pi / a, 2 * math.Pi * math.Sqrt2 / a} {
		dens := []float64{1, 1 / math.Sqrt2}[i]
		if !near(sq[i].Location, k, 1e-12*k) || sq[i].Width != w || sq[i].NumPlanes != 4 || !near(sq[i].PlaneDensity, dens, 1e-12) {
			c.Fatalf("square", "peak %d of the square lattice with a=%v, width %v: %+v, expected location %v", i, a, w, sq[i], k)
		}
	}
	tri := pfc.TriangularLattice2D(w, a)
	if k := 2 * math.Pi / a; len(tri) != 1 || !near(tri[0].Location, k, 1e-12*k) || tri[0].Width != w || tri[0].NumPlanes != 3 || !near(tri[0].PlaneDensity, 2, 1e-12) {
		c.Fatalf("triangular", "peaks of the triangular lattice with a=%v, width %v: %+v, expected one at %v", a, w, tri, k)
	}
	// ideal mixture
	c3, c4 := r.NormFloat64(), r.NormFloat64()
	im := pfc.IdealMix{C3: c3, C4: c4}
	for i := 0; i < 20; i++ {
		n := 2 * r.NormFloat64()
		want := n*n/2 - c3*n*n*n/6 + c4*n*n*n*n/12
		der := n - c3*n*n/2 + c4*n*n*n/3
		sc := 1e-12 * (1 + n*n*n*n)
		if got := im.Eval(n); !near(got, want, sc) {
			c.Fatalf("ideal", "ideal mixture with %v %v at %v: energy %v, expected %v", c3, c4, n, got, want)
		}
		if got := im.Deriv(n); !near(got, der, sc) {
			c.Fatalf("ideal", "ideal mixture with %v %v at %v: derivative %v, expected %v", c3, c4, n, got, der)
		}
		c.Count("values", 2)
	}
	c.Key("peaks%d temp%v", len(co.peaks), co.temp == 0)
}

type setup struct {
	dims  []int
	n     int
	co    corr
	u     []float64
	A     float64 // prefactor of the pair correlation
	B     float64 // prefactor of the ideal mixture
	mix   pfc.IdealMix
	lap   bool
	lap2  bool
	name  string
	field pf.Field
}

func mk(c *lib.Case) *setup {
	r := c.R
	s := &setup{}
	s.dims = lib.Dims2or3(r, 2, 9, 250)
	s.n = lib.Prod(s.dims)
	s.co = randCorr(r)
	s.u = lib.RandField(r, s.dims, 0.8)
	s.A = 2 * r.NormFloat64()
	s.B = 2 * r.NormFloat64()
	s.mix = pfc.IdealMix{C3: r.NormFloat64(), C4: r.NormFloat64()}
	s.lap = r.Intn(2) == 0
	s.lap2 = r.Intn(2) == 0
	s.name = []string{"rho", "density", "n", "conc1"}[r.Intn(4)]
	s.field = pf.NewField(s.name, s.n, lib.ToC(s.u))
	c.Notef("%v %+v A %v B %v mix %+v lap %v %v", s.dims, s.co, s.A, s.B, s.mix, s.lap, s.lap2)
	return s
}

// factor of the pair correlation term at node i
func (s *setup) pairFac(i int) float64 {
	k := math.Sqrt(lib.K2(lib.FreqOf(s.dims, i)))
	v := -s.A * s.co.eval(k)
	if s.lap {
		v *= -k * k
	}
	return v
}

func (s *setup) pair() pf.PairCorrlationTerm {
	return pf.PairCorrlationTerm{PairCorrFunc: s.co.lib(), Field: s.name, Prefactor: s.A, Laplacian: s.lap}
}

func (s *setup) ideal() pf.IdealMixtureTerm {
	return pf.IdealMixtureTerm{IdealMix: s.mix, Field: s.name, Prefactor: s.B, Laplacian: s.lap2}
}

// terms: values of the terms for every wave vector
func terms(c *lib.Case) {
	r := c.R
	s := mk(c)
	ft := pfutil.NewFFTW(s.dims)
	hat := lib.Fwd(s.dims, s.u)
	bricks := map[string]pf.Brick{s.name: pf.Field{Name: s.name, Data: hat}, "other": pf.Field{Name: "other", Data: lib.Fwd(s.dims, lib.RandField(r, s.dims, 3))}}
	before := append([]complex128{}, hat...)
	p := s.pair()
	e := pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: s.pair()}
	ti, te := p.Construct(bricks), e.Construct(bricks)
	for rep := 0; rep < 2; rep++ {
		out := make([]complex128, s.n)
		out2 := make([]complex128, s.n)
		for i := range out {
			out[i] = complex(r.NormFloat64(), 1)
			out2[i] = out[i]
		}
		ti(ft.Freq, r.Float64(), out)
		te(ft.Freq, r.Float64(), out2)
		for i := range out {
			want := s.pairFac(i)
			sc := math.Abs(s.A) * (1 + 4*math.Pi*math.Pi*3)
			if !near(real(out[i]), want, 1e-11*sc) || math.Abs(imag(out[i])) > 1e-11*sc {
				c.Fatalf("implicit", "factor of wave vector %v is %v, expected %v", lib.FreqOf(s.dims, i), out[i], want)
			}
			w2 := complex(want, 0) * hat[i]
			d := out2[i] - w2
			if !(math.Hypot(real(d), imag(d)) <= 1e-11*sc*(1+lib.MaxAbs(hat))) {
				c.Fatalf("explicit", "term at wave vector %v is %v, expected %v", lib.FreqOf(s.dims, i), out2[i], w2)
			}
		}
		c.Count("wave vectors", 2*s.n)
		// the field may change between evaluations
		for i := range hat {
			hat[i] *= 2
			before[i] *= 2
		}
	}
	for i := range hat {
		if hat[i] != before[i] {
			c.Fatalf("input", "evaluating the term changed the field")
		}
	}
	c.Key("%v lap%v", s.dims, s.lap)
}

// energies and their derivatives
func energies(c *lib.Case) {
	r := c.R
	s := mk(c)
	ft := pfutil.NewFFTW(s.dims)
	p := s.pair()
	id := s.ideal()
	br := func(u []float64) map[string]pf.Brick {
		return map[string]pf.Brick{s.name: pf.Field{Name: s.name, Data: lib.ToC(u)}, "other": pf.Field{Name: "other", Data: make([]complex128, s.n)}}
	}
	own := func(u []float64) (float64, float64) {
		h := lib.Fwd(s.dims, u)
		ep := 0.0
		for i := range h {
			k := math.Sqrt(lib.K2(lib.FreqOf(s.dims, i)))
			ep -= 0.5 * s.A * s.co.eval(k) * (real(h[i])*real(h[i]) + imag(h[i])*imag(h[i])) / float64(s.n)
		}
		em := 0.0
		for _, x := range u {
			em += s.B * (x*x/2 - s.mix.C3*x*x*x/6 + s.mix.C4*x*x*x*x/12)
		}
		return ep, em
	}
	sq := 0.0
	for _, x := range s.u {
		sq += x*x + x*x*x*x
	}
	b := br(s.u)
	gp, gm := p.GetEnergy(b, ft, s.dims), id.GetEnergy(b, s.n)
	wp, wm := own(s.u)
	tol := 1e-11 * (1 + sq) * (1 + math.Abs(s.A) + math.Abs(s.B)*(1+math.Abs(s.mix.C3)+math.Abs(s.mix.C4)))
	if !near(gp, wp, tol) {
		c.Fatalf("pair", "pair correlation energy is %v, expected %v", gp, wp)
	}
	if !near(gm, wm, tol) {
		c.Fatalf("mixture", "energy of the ideal mixture is %v, expected %v", gm, wm)
	}
	for i, x := range b[s.name].(pf.Field).Data {
		if real(x) != s.u[i] || imag(x) != 0 {
			c.Fatalf("input", "computing the energy changed the field")
		}
	}
	// the term without Laplacian is the derivative of the energy
	s.lap = false
	v := lib.RandField(r, s.dims, 1)
	hv := lib.Fwd(s.dims, v)
	hu := lib.Fwd(s.dims, s.u)
	e := pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: s.pair()}
	out := make([]complex128, s.n)
	e.Construct(map[string]pf.Brick{s.name: pf.Field{Name: s.name, Data: hu}})(ft.Freq, 0, out)
	slope := 0.0
	for i := range out {
		slope += (real(out[i])*real(hv[i]) + imag(out[i])*imag(hv[i])) / float64(s.n)
	}
	up, dn := make([]float64, s.n), make([]float64, s.n)
	for i := range up {
		up[i], dn[i] = s.u[i]+v[i], s.u[i]-v[i]
	}
	fd := (p.GetEnergy(br(up), ft, s.dims) - p.GetEnergy(br(dn), ft, s.dims)) / 2
	tol *= 10
	for i := range v {
		tol += 1e-10 * math.Abs(s.A) * (v[i]*v[i] + s.u[i]*s.u[i])
	}
	if !near(slope, fd, tol) {
		c.Fatalf("derivative", "slope of the pair correlation energy is %v, the term gives %v", fd, slope)
	}
	for k := 0; k < 5; k++ {
		i := r.Intn(s.n)
		got := id.Eval(i, b)
		x := s.u[i]
		want := s.B * (x - s.mix.C3*x*x/2 + s.mix.C4*x*x*x/3)
		if !near(real(got), want, 1e-12*(1+math.Abs(s.B))*(1+x*x*x*x)*(1+math.Abs(s.mix.C3)+math.Abs(s.mix.C4))) || imag(got) != 0 {
			c.Fatalf("eval", "derivative of the mixture energy at density %v is %v, expected %v", x, got, want)
		}
	}
	c.Count("energies", 4)
	c.Key("%v", s.dims)
}

// mixtures: several mixture terms in one model keep their own coefficients
func mixtures(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 7, 150)
	n := lib.Prod(dims)
	names := []string{"rho", "eta"}[:1+r.Intn(2)]
	m := pf.NewModel()
	y := make([][]float64, len(names))
	for i, f := range names {
		y[i] = lib.RandField(r, dims, 0.7)
		m.AddField(pf.NewField(f, n, lib.ToC(y[i])))
	}
	type use struct {
		t    *pf.IdealMixtureTerm
		sign float64
	}
	uses := make([][]use, len(names))
	nt := 0
	for i, f := range names {
		eq := "d" + f + "/dt ="
		for k := 0; k < 1+r.Intn(3); k++ {
			t := &pf.IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: r.NormFloat64(), C4: r.NormFloat64()}, Field: f, Prefactor: r.NormFloat64(), Laplacian: r.Intn(2) == 0}
			name := "MIX" + string(rune('A'+nt))
			nt++
			m.RegisterMixedTerm(name, t, []pf.DerivedField{t.DerivedField(n, m.Bricks)})
			u := use{t, 1}
			if r.Intn(2) == 0 {
				u.sign = -1
				eq += " - " + name
			} else if k > 0 {
				eq += " + " + name
			} else {
				eq += " " + name
			}
			uses[i] = append(uses[i], u)
		}
		m.AddEquation(eq)
	}
	dt := 1e-3 * (0.1 + r.Float64())
	c.Notef("dims %v dt %v equations %v", dims, dt, m.Equations)
	s := pf.NewSolver(&m, dims, dt)
	for step := 0; step < 2; step++ {
		var want [][]float64
		for i := range names {
			h := lib.Fwd(dims, y[i])
			nonlin := make([]complex128, n)
			lin := make([]float64, n)
			for _, u := range uses[i] {
				g := make([]float64, n)
				for k, x := range y[i] {
					g[k] = u.sign * u.t.Prefactor * (-u.t.IdealMix.C3*x*x/2 + u.t.IdealMix.C4*x*x*x/3)
				}
				hg := lib.Fwd(dims, g)
				for k := range hg {
					f := 1.0
					if u.t.Laplacian {
						f = -lib.K2(lib.FreqOf(dims, k))
					}
					nonlin[k] += complex(f, 0) * hg[k]
					lin[k] += u.sign * u.t.Prefactor * f
				}
			}
			for k := range h {
				h[k] = (h[k] + complex(dt, 0)*nonlin[k]) / complex(1-dt*lin[k], 0)
			}
			want = append(want, lib.Re(lib.Inv(dims, h)))
		}
		s.Solve(1, 1)
		got := lib.Fields(&m)
		for i := range names {
			if d, k := lib.DiffR(got[i], want[i]); !(d <= 1e-10*(1+lib.MaxAbsR(want[i]))) {
				c.Fatalf("mixtures", "step %d: %s at node %d is %v, expected %v", step, names[i], k, got[i][k], want[i][k])
			}
			copy(y[i], got[i])
		}
		c.Count("steps", 1)
	}
	c.Key("mixtures-%d-%d", len(names), nt)
}

// models: complete time steps with the terms
func models(c *lib.Case) {
	r := c.R
	s := mk(c)
	s.name = []string{"rho", "density", "conc1"}[r.Intn(3)]
	explicit := r.Intn(2) == 0
	useFunc := r.Intn(3) == 0 // the mixture as a registered function
	sign := 1.0
	dt := 1e-3 * (0.1 + r.Float64())
	m := pf.NewModel()
	m.AddField(pf.NewField(s.name, s.n, lib.ToC(s.u)))
	p := s.pair()
	e := pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: s.pair()}
	if explicit {
		m.RegisterExplicitTerm("PAIR", &e, nil)
	} else {
		m.RegisterImplicitTerm("PAIR", &p, nil)
	}
	id := s.ideal()
	if useFunc {
		m.RegisterFunction("MIXFN", id.Eval)
	} else {
		m.RegisterMixedTerm("MIXTURE", &id, []pf.DerivedField{id.DerivedField(s.n, m.Bricks)})
	}
	eq := "d" + s.name + "/dt = PAIR + MIXTURE"
	if r.Intn(2) == 0 {
		eq = "d" + s.name + "/dt = PAIR - MIXTURE"
		sign = -1
	}
	if useFunc {
		eq = "d" + s.name + "/dt = PAIR + MIXFN"
		sign = 1
		if s.lap2 {
			eq = "d" + s.name + "/dt = PAIR + LAP*MIXFN"
		}
	}
	m.AddEquation(eq)
	two := r.Intn(3) == 0
	var u2 []float64
	if two {
		u2 = lib.RandField(r, s.dims, 1)
		m.AddField(pf.NewField("other", s.n, lib.ToC(u2)))
		m.AddScalar(pf.NewScalar("KAPPA", complex(-0.5, 0)))
		m.AddEquation("dother/dt = KAPPA*other")
	}
	sol := pf.NewSolver(&m, s.dims, dt)
	c.Notef("%s dt %v explicit %v two %v", eq, dt, explicit, two)
	y := append([]float64{}, s.u...)
	for step := 0; step < 3; step++ {
		nl := make([]float64, s.n)
		for i, x := range y {
			nl[i] = s.B * (-s.mix.C3*x*x/2 + s.mix.C4*x*x*x/3)
			if useFunc {
				nl[i] += s.B * x
			}
		}
		h, hn := lib.Fwd(s.dims, y), lib.Fwd(s.dims, nl)
		want := make([]complex128, s.n)
		for i := range want {
			k2 := lib.K2(lib.FreqOf(s.dims, i))
			lf := 1.0
			if s.lap2 {
				lf = -k2
			}
			lin := 0.0
			n := complex(sign*lf, 0) * hn[i]
			if explicit {
				n += complex(s.pairFac(i), 0) * h[i]
			} else {
				lin += s.pairFac(i)
			}
			if !useFunc {
				lin += sign * s.B * lf
			}
			want[i] = (h[i] + complex(dt, 0)*n) / complex(1-dt*lin, 0)
		}
		sol.Solve(1, 1)
		w := lib.Re(lib.Inv(s.dims, want))
		got := lib.Fields(&m)
		if d, i := lib.DiffR(got[0], w); !(d <= 1e-10*(1+lib.MaxAbsR(w))) {
			c.Fatalf("step", "step %d: density at node %d is %v, expected %v", step, i, got[0][i], w[i])
		}
		if two {
			for i := range u2 {
				u2[i] /= 1 + 0.5*dt
			}
			if d, i := lib.DiffR(got[1], u2); !(d <= 1e-10*(1+lib.MaxAbsR(u2))) {
				c.Fatalf("other", "step %d: other field at node %d is %v, expected %v", step, i, got[1][i], u2[i])
			}
		}
		copy(y, got[0])
		if lib.MaxAbsR(y) > 1e3 {
			break
		}
		c.Count("steps", 1)
	}
	c.Key("%v explicit%v func%v lap%v%v two%v", s.dims, explicit, useFunc, s.lap, s.lap2, two)
}

// the interpolated correlation function of two phases
func twophase(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 9, 250)
	n := lib.Prod(dims)
	co := [2]corr{randCorr(r), randCorr(r)}
	conc := lib.RandField(r, dims, 1)
	off := r.Float64()
	for i := range conc {
		conc[i] = off + 0.7*conc[i]
		if r.Intn(20) == 0 {
			conc[i] = float64(r.Intn(2))
		}
	}
	ind := func(x float64) float64 {
		x = math.Max(0, math.Min(1, x))
		return x * x * (3 - 2*x)
	}
	for i := 0; i < 20; i++ {
		x := 3*r.Float64() - 1
		if got := pfc.Indicator(x); !near(got, ind(x), 1e-12) {
			c.Fatalf("indicator", "indicator at %v is %v, expected %v", x, got, ind(x))
		}
		d := 0.0
		if x > 0 && x < 1 {
			d = 6 * x * (1 - x)
		}
		if got := pfc.IndicatorDeriv(x); !near(got, d, 1e-12) {
			c.Fatalf("indicator", "derivative of the indicator at %v is %v, expected %v", x, got, d)
		}
	}
	t := pfc.TwoPhaseCorrFunc{CorrFunc: []pfc.ReciprocalSpacePairCorrelation{co[0].lib(), co[1].lib()}}
	ft := pfutil.NewFFTW(dims)
	var in []complex128
	for round := 0; round < 3; round++ {
		// another concentration, other phases, or both
		if round > 0 && r.Intn(2) == 0 {
			for i := range conc {
				conc[i] = 1.2*r.Float64() - 0.1
			}
		}
		if j := r.Intn(2); round > 0 && r.Intn(2) == 0 {
			co[j] = randCorr(r)
			t.CorrFunc[j] = co[j].lib()
		}
		var real2 [2][]complex128
		for j := range co {
			f := make([]complex128, n)
			for i := range f {
				f[i] = complex(co[j].eval(math.Sqrt(lib.K2(lib.FreqOf(dims, i)))), 0)
			}
			real2[j] = lib.Inv(dims, f)
		}
		want := make([]complex128, n)
		for i := range want {
			w := complex(ind(conc[i]), 0)
			want[i] = w*real2[0][i] + (1-w)*real2[1][i]
		}
		hat := lib.Fwd(dims, conc)
		in = append([]complex128{}, hat...)
		got := t.Evaluate(in, ft)
		if d, i := lib.Diff(got, want); !(d <= 1e-10) {
			c.Fatalf("evaluate", "correlation function at node %d is %v, expected %v", i, got[i], want[i])
		}
		gotF := t.EvaluateFT(in, ft)
		wantF := lib.DFT(dims, want, -1)
		if d, i := lib.Diff(gotF, wantF); !(d <= 1e-10*float64(n)) {
			c.Fatalf("evaluateFT", "transform of the correlation function at wave vector %v is %v, expected %v", lib.FreqOf(dims, i), gotF[i], wantF[i])
		}
		for i := range in {
			if in[i] != hat[i] {
				c.Fatalf("input", "evaluating the correlation function changed the concentration")
			}
		}
	}
	if ok, _ := lib.MustPanic(func() {
		bad := pfc.TwoPhaseCorrFunc{CorrFunc: t.CorrFunc[:1]}
		bad.Evaluate(in, ft)
	}); !ok {
		c.Fatalf("refuse", "a single correlation function was accepted")
	}
	c.Count("nodes", 2*n)
	c.Key("%v", dims)
}

func main() {
	lib.Main(lib.Prop{ID: "C20", Level: "exploration", CPULimit: 200,
		Rule: "Random correlation functions (1-5 peaks, any temperature), mixing energies, prefactors, density fields and 2D/3D domains; every value of the correlation function, every wave vector of the terms, energies and whole time steps are compared with an independent evaluation, and the terms with difference quotients of the energies. Non-trivial: all values compared; classes are domains and ways of registering.",
		Groups: []lib.Group{
			{Name: "mixtures", Quick: 300, Thorough: 6000, Run: mixtures},
			{Name: "functions", Quick: 1000, Thorough: 30000, Run: functions},
			{Name: "terms", Quick: 800, Thorough: 20000, Run: terms},
			{Name: "energies", Quick: 800, Thorough: 20000, Run: energies},
			{Name: "models", Quick: 1200, Thorough: 30000, Run: models},
			{Name: "twophase", Quick: 600, Thorough: 15000, Run: twophase},
		}})
}
