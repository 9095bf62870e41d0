// C10: spatial operators equal the derivatives they stand for.
package main

import (
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

type setup struct {
	dims   []int
	n      int
	m      pf.Model
	ft     *pfutil.FFTWWrapper
	conc   lib.TrigPoly
	other  lib.TrigPoly
	smooth bool
	u, w   []float64
}

// band-limited fields make products exact, arbitrary ones exercise the Nyquist frequencies
func prepare(c *lib.Case) *setup {
	r := c.R
	s := &setup{}
	s.dims = lib.Dims2or3(r, 2, 9, 420)
	s.n = lib.Prod(s.dims)
	s.ft = pfutil.NewFFTW(s.dims)
	s.smooth = r.Intn(2) == 0
	if s.smooth {
		q := func(n int) int { return (n - 1) / 4 }
		s.conc = lib.NewTrigPoly(r, s.dims, 3, q, 0.7)
		s.other = lib.NewTrigPoly(r, s.dims, 3, q, 0.7)
		s.u, s.w = s.conc.Field(make([]int, len(s.dims))), s.other.Field(make([]int, len(s.dims)))
	} else {
		s.u, s.w = lib.RandField(r, s.dims, 1), lib.RandField(r, s.dims, 1)
	}
	s.m = pf.NewModel()
	s.m.AddField(pf.NewField("conc", s.n, lib.ToC(s.u)))
	s.m.AddField(pf.NewField("eta", s.n, lib.ToC(s.w)))
	s.m.AddScalar(pf.NewScalar("ZZZ", complex(0, 0)))
	c.Notef("dims %v smooth %v", s.dims, s.smooth)
	return s
}

func unit(dims []int, ds ...int) []int {
	e := make([]int, len(dims))
	for _, d := range ds {
		e[d]++
	}
	return e
}

// d returns a first derivative of a field
func (s *setup) d(field int, dir int) []float64 {
	if s.smooth {
		return []lib.TrigPoly{s.conc, s.other}[field].Field(unit(s.dims, dir))
	}
	return lib.Deriv(s.dims, [][]float64{s.u, s.w}[field], dir)
}

// d2 returns a second derivative; pure second derivatives keep the Nyquist frequency
func (s *setup) d2(field, a, b int) []float64 {
	if s.smooth {
		return []lib.TrigPoly{s.conc, s.other}[field].Field(unit(s.dims, a, b))
	}
	x := [][]float64{s.u, s.w}[field]
	if a != b {
		return lib.Deriv(s.dims, lib.Deriv(s.dims, x, a), b)
	}
	h := lib.Fwd(s.dims, x)
	for i := range h {
		f := lib.FreqOf(s.dims, i)[a]
		h[i] *= complex(-4*math.Pi*math.Pi*f*f, 0)
	}
	return lib.Re(lib.Inv(s.dims, h))
}

func (s *setup) compare(c *lib.Case, what string, got []complex128, want []float64) {
	scale := 1 + lib.MaxAbsR(want)
	d, at := lib.Diff(got, lib.ToC(want))
	if d > 1e-9*scale {
		c.Failf(what, "%s at node %d %v: got %v, expected %g", what, at, lib.PosOf(s.dims, at), got[at], want[at])
	}
	c.Count("values_compared", len(want))
	c.Key("%s-%dD-smooth%v", what, len(s.dims), s.smooth)
}

func (s *setup) run(c *lib.Case, what string, eq string, want []float64) {
	s.m.AddEquation(eq)
	s.m.AddEquation("deta/dt = ZZZ*eta")
	s.m.Init()
	// twice: the terms have no memory
	lib.EvalRHS(&s.m, s.dims, 0)
	got := lib.EvalRHS(&s.m, s.dims, 0)
	s.compare(c, what, got[0], want)
}

func gradient(c *lib.Case) {
	s := prepare(c)
	for d := range s.dims {
		g := pf.GradientCalculator{FT: s.ft, Comp: d}
		out := make([]complex128, s.n)
		in := lib.ToC(s.u)
		g.Calculate(in, out)
		s.compare(c, "gradient", out, s.d(0, d))
		if q, _ := lib.Diff(in, lib.ToC(s.u)); q != 0 {
			c.Failf("gradient", "the input was modified")
		}
		df := g.ToDerivedField("gg", s.n, s.m.Bricks["eta"])
		df.Update()
		s.compare(c, "derived-gradient", df.Data, s.d(1, d))
		if s.smooth {
			g.KeepNyquist = true
			g.Calculate(in, out)
			s.compare(c, "gradient-nyquist", out, s.d(0, d))
		}
	}
	// mixed second derivative by composition
	a, b := c.R.Intn(len(s.dims)), c.R.Intn(len(s.dims))
	if a != b {
		ga, gb := pf.GradientCalculator{FT: s.ft, Comp: a}, pf.GradientCalculator{FT: s.ft, Comp: b}
		out := lib.ToC(s.u)
		ga.Calculate(out, out)
		gb.Calculate(out, out)
		s.compare(c, "mixed", out, s.d2(0, a, b))
	}
}

func laplacian(c *lib.Case) {
	s := prepare(c)
	p := 1 + c.R.Intn(4)
	h := lib.DFT(s.dims, lib.ToC(s.u), -1)
	l := pf.LaplacianN{Power: p}
	ret := l.Eval(s.ft.Freq, h)
	want := lib.LapPow(s.dims, s.u, p)
	if s.smooth && p == 1 {
		want = make([]float64, s.n)
		for d := range s.dims {
			for i, v := range s.conc.Field(unit(s.dims, d, d)) {
				want[i] += v
			}
		}
	}
	s.compare(c, "laplacian", lib.Inv(s.dims, h), want)
	s.compare(c, "laplacian", lib.Inv(s.dims, ret), want)
}

func divgrad(c *lib.Case) {
	s := prepare(c)
	a, b := c.R.NormFloat64(), c.R.NormFloat64()
	kind := c.R.Intn(3)
	val := func(u, w float64) float64 {
		switch kind {
		case 0:
			return a
		case 1:
			return a + b*w
		default:
			return a + b*u
		}
	}
	field := c.R.Intn(2)
	term := pf.DivGrad{Field: []string{"conc", "eta"}[field], F: func(i int, br map[string]pf.Brick) complex128 {
		return complex(val(real(br["conc"].Get(i)), real(br["eta"].Get(i))), 0)
	}}
	term.PrepareModel(s.n, &s.m, s.ft)
	s.m.RegisterExplicitTerm("DIVGRAD", &term, nil)
	want := make([]float64, s.n)
	for d := range s.dims {
		g := s.d(field, d)
		for i := range g {
			g[i] *= val(s.u[i], s.w[i])
		}
		for i, v := range lib.Deriv(s.dims, g, d) {
			want[i] += v
		}
	}
	if math.Abs(lib.Mean(want)) > 1e-9*(1+lib.MaxAbsR(want)) {
		c.Inconclusive("oracle of DivGrad not conservative")
	}
	s.run(c, "divgrad", "dconc/dt = DIVGRAD", want)
}

// several terms of the same kind keep apart
func several(c *lib.Case) {
	s := prepare(c)
	r := c.R
	a, b := 0.5+r.Float64(), 0.5+r.Float64()
	k1 := &pf.DivGrad{Field: "conc", F: func(i int, br map[string]pf.Brick) complex128 { return complex(a, 0) }}
	f2 := "eta"
	if r.Intn(2) == 0 {
		f2 = "conc"
	}
	k2 := &pf.DivGrad{Field: f2, F: func(i int, br map[string]pf.Brick) complex128 { return br["eta"].Get(i) * complex(b, 0) }}
	k1.PrepareModel(s.n, &s.m, s.ft)
	k2.PrepareModel(s.n, &s.m, s.ft)
	s.m.RegisterExplicitTerm("DIVA", k1, nil)
	s.m.RegisterExplicitTerm("DIVB", k2, nil)
	w1, w2 := make([]float64, s.n), make([]float64, s.n)
	for d := range s.dims {
		g := s.d(0, d)
		g2 := s.d(1, d)
		if f2 == "conc" {
			g2 = s.d(0, d)
		}
		for i := range g {
			g[i] *= a
			g2[i] *= b * s.w[i]
		}
		for i, v := range lib.Deriv(s.dims, g, d) {
			w1[i] += v
		}
		for i, v := range lib.Deriv(s.dims, g2, d) {
			w2[i] += v
		}
	}
	s.m.AddEquation("dconc/dt = DIVA - DIVB")
	s.m.AddEquation("deta/dt = DIVB")
	s.m.Init()
	for i := range w1 {
		w1[i] -= w2[i]
	}
	lib.EvalRHS(&s.m, s.dims, 0)
	got := lib.EvalRHS(&s.m, s.dims, 0)
	c.Notef("second term on %s", f2)
	s.compare(c, "two-divgrad-"+f2, got[0], w1)
	s.compare(c, "two-divgrad-"+f2, got[1], w2)
}

// crowd: any number of operators of all kinds share one model; after each evaluation the fields
// change, and nothing of the preceding state may stay behind
func crowd(c *lib.Case) {
	s := prepare(c)
	s.smooth = false
	r := c.R
	dim := len(s.dims)
	state := [][]float64{s.u, s.w}
	names := []string{"conc", "eta"}
	schemes := [][]string{{"velx", "vely", "velz"}, {"conc_0", "conc_1", "conc_2"}, {"eta_0", "eta_1", "eta_2"}, {"v", "vv", "vvv"}, {"concDot", "econc", "e"}}
	scheme := schemes[r.Intn(len(schemes))]
	for d := 0; d < dim; d++ {
		v := lib.RandField(r, s.dims, 1)
		state = append(state, v)
		n := scheme[d]
		names = append(names, n)
		s.m.AddField(pf.NewField(n, s.n, lib.ToC(v)))
	}
	deriv := func(k, d int) []float64 { return lib.Deriv(s.dims, state[k], d) }
	type piece struct {
		name string
		eval func() []float64
	}
	var terms []piece
	var kinds []string
	for i := 0; i < 2+r.Intn(4); i++ {
		name := "TERM" + string(rune('A'+i))
		fld := r.Intn(len(names))
		switch r.Intn(4) {
		case 0:
			other := r.Intn(len(names))
			a, b := r.NormFloat64(), r.NormFloat64()
			t := &pf.DivGrad{Field: names[fld], F: func(i int, br map[string]pf.Brick) complex128 {
				return complex(a, 0) + complex(b, 0)*br[names[other]].Get(i)
			}}
			t.PrepareModel(s.n, &s.m, s.ft)
			s.m.RegisterExplicitTerm(name, t, nil)
			terms = append(terms, piece{name, func() []float64 {
				out := make([]float64, s.n)
				for d := 0; d < dim; d++ {
					g := deriv(fld, d)
					for i := range g {
						g[i] *= a + b*state[other][i]
					}
					for i, v := range lib.Deriv(s.dims, g, d) {
						out[i] += v
					}
				}
				return out
			}})
			kinds = append(kinds, "divgrad:"+names[fld])
		case 1:
			vel := make([]int, dim)
			t := &pf.Advection{Field: names[fld]}
			for d := range vel {
				vel[d] = r.Intn(len(names))
				t.VelocityFields = append(t.VelocityFields, names[vel[d]])
			}
			t.PrepareModel(s.n, &s.m, s.ft)
			s.m.RegisterExplicitTerm(name, t, nil)
			terms = append(terms, piece{name, func() []float64 {
				out := make([]float64, s.n)
				for d := 0; d < dim; d++ {
					for i, g := range deriv(fld, d) {
						out[i] -= g * state[vel[d]][i]
					}
				}
				return out
			}})
			kinds = append(kinds, "advection:"+names[fld])
		case 2:
			t := pf.NewSquareGradient(names[fld], s.dims)
			t.Factor = r.NormFloat64()
			s.m.RegisterExplicitTerm(name, &t, nil)
			terms = append(terms, piece{name, func() []float64 {
				out := make([]float64, s.n)
				for d := 0; d < dim; d++ {
					for i, g := range deriv(fld, d) {
						out[i] += t.Factor * g * g
					}
				}
				return out
			}})
			kinds = append(kinds, "squared:"+names[fld])
		default:
			a, other := r.NormFloat64(), r.Intn(len(names))
			s.m.RegisterFunction("PREF"+name, func(i int, br map[string]pf.Brick) complex128 {
				return complex(a, 0) + br[names[other]].Get(i)
			})
			t := &pf.WeightedLaplacian{Field: names[fld], PreFactor: "PREF" + name, FT: s.ft}
			s.m.RegisterExplicitTerm(name, t, nil)
			terms = append(terms, piece{name, func() []float64 {
				out := lib.LapPow(s.dims, state[fld], 1)
				for i := range out {
					out[i] *= a + state[other][i]
				}
				return out
			}})
			kinds = append(kinds, "weighted:"+names[fld])
		}
	}
	// every term enters one or two equations with its own sign
	type use struct {
		term int
		sign float64
	}
	eqs := make([][]use, len(names))
	for i := range terms {
		for k := 0; k < 1+r.Intn(2); k++ {
			e := r.Intn(len(names))
			eqs[e] = append(eqs[e], use{i, float64(1 - 2*r.Intn(2))})
		}
	}
	for e, n := range names {
		eq := "d" + n + "/dt = "
		if len(eqs[e]) == 0 {
			eq += "ZZZ*" + n
		}
		for i, u := range eqs[e] {
			if u.sign < 0 {
				eq += " - "
			} else if i > 0 {
				eq += " + "
			}
			eq += terms[u.term].name
		}
		s.m.AddEquation(eq)
	}
	c.Notef("terms %v equations %v", kinds, s.m.Equations)
	s.m.Init()
	for round := 0; round < 3; round++ {
		vals := make([][]float64, len(terms))
		for i, t := range terms {
			vals[i] = t.eval()
		}
		got := lib.EvalRHS(&s.m, s.dims, 0)
		for e := range eqs {
			want := make([]float64, s.n)
			for _, u := range eqs[e] {
				for i, v := range vals[u.term] {
					want[i] += u.sign * v
				}
			}
			scale := 1 + lib.MaxAbsR(want)
			if d, at := lib.Diff(got[e], lib.ToC(want)); !(d <= 1e-9*scale) {
				c.Fatalf("crowd", "evaluation %d, equation %q at node %d: got %v, expected %g", round+1, s.m.Equations[e], at, got[e][at], want[at])
			}
			c.Count("values_compared", s.n)
		}
		for k := range state {
			for i := range state[k] {
				state[k][i] = state[k][i]*0.7 + 0.2*r.NormFloat64()
				s.m.Fields[k].Data[i] = complex(state[k][i], 0)
			}
		}
	}
	c.Key("crowd-%dD-%d-%s", dim, len(terms), kinds[0])
}

func advection(c *lib.Case) {
	s := prepare(c)
	r := c.R
	ad := pf.Advection{Field: "conc"}
	want := make([]float64, s.n)
	for d := range s.dims {
		name := []string{"velx", "vely", "velz"}[d]
		v := lib.RandField(r, s.dims, 1)
		if r.Intn(4) == 0 {
			s.m.AddScalar(pf.NewScalar(name, complex(v[0], 0)))
			for i := range v {
				v[i] = v[0]
			}
		} else if r.Intn(4) == 0 {
			name, v = "eta", s.w
		} else {
			s.m.AddField(pf.NewField(name, s.n, lib.ToC(v)))
		}
		ad.VelocityFields = append(ad.VelocityFields, name)
		for i, g := range s.d(0, d) {
			want[i] -= v[i] * g
		}
	}
	ad.PrepareModel(s.n, &s.m, s.ft)
	s.m.RegisterExplicitTerm("ADVECT", &ad, nil)
	s.m.AddEquation("dconc/dt = ADVECT")
	s.m.AddEquation("deta/dt = ZZZ*eta")
	for _, f := range s.m.Fields[2:] {
		s.m.AddEquation("d" + f.Name + "/dt = ZZZ*" + f.Name)
	}
	s.m.Init()
	c.Notef("velocities %v", ad.VelocityFields)
	s.compare(c, "advection", lib.EvalRHS(&s.m, s.dims, 0)[0], want)
}

func squared(c *lib.Case) {
	s := prepare(c)
	f := c.R.NormFloat64()
	field := c.R.Intn(2)
	sq := pf.NewSquareGradient([]string{"conc", "eta"}[field], s.dims)
	sq.Factor = f
	s.m.RegisterExplicitTerm("SQGRAD", &sq, nil)
	want := make([]float64, s.n)
	for d := range s.dims {
		for i, g := range s.d(field, d) {
			want[i] += f * g * g
		}
	}
	s.run(c, "squared-gradient", "dconc/dt = SQGRAD", want)
}

func hessian(c *lib.Case) {
	s := prepare(c)
	dim := len(s.dims)
	k := make([]float64, dim*dim)
	sym := c.R.Intn(2) == 0
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			k[i*dim+j] = c.R.NormFloat64()
			if sym && j < i {
				k[i*dim+j] = k[j*dim+i]
			}
		}
	}
	th := pf.TensorialHessian{Field: "conc", K: k}
	s.m.RegisterImplicitTerm("HESS", &th, nil)
	want := make([]float64, s.n)
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			for q, v := range s.d2(0, i, j) {
				want[q] += k[i*dim+j] * v
			}
		}
	}
	c.Notef("K %v", k)
	what := "hessian"
	if !sym {
		what = "hessian-nonsymmetric"
	}
	s.run(c, what, "dconc/dt = HESS", want)
}

func weighted(c *lib.Case) {
	s := prepare(c)
	a, b := c.R.NormFloat64(), c.R.NormFloat64()
	s.m.RegisterFunction("PREF", func(i int, br map[string]pf.Brick) complex128 {
		return complex(a+b*real(br["eta"].Get(i))*real(br["conc"].Get(i)), 0)
	})
	field := c.R.Intn(2)
	wl := pf.WeightedLaplacian{Field: []string{"conc", "eta"}[field], PreFactor: "PREF", FT: s.ft}
	s.m.RegisterExplicitTerm("WLAP", &wl, nil)
	want := lib.LapPow(s.dims, [][]float64{s.u, s.w}[field], 1)
	for i := range want {
		want[i] *= a + b*s.w[i]*s.u[i]
	}
	s.run(c, "weighted-laplacian", "dconc/dt = WLAP", want)
}

// complex prefactors are part of the signature: the term is compared before the real part is taken
func weightedComplex(c *lib.Case) {
	s := prepare(c)
	a, b := complex(c.R.NormFloat64(), c.R.NormFloat64()), complex(c.R.NormFloat64(), c.R.NormFloat64())
	s.m.RegisterFunction("PREF", func(i int, br map[string]pf.Brick) complex128 { return a + b*br["eta"].Get(i) })
	wl := pf.WeightedLaplacian{Field: "conc", PreFactor: "PREF", FT: s.ft}
	s.m.RegisterExplicitTerm("WLAP", &wl, nil)
	s.m.AddEquation("dconc/dt = WLAP")
	s.m.AddEquation("deta/dt = ZZZ*eta")
	s.m.Init()
	got := lib.EvalRHS(&s.m, s.dims, 0)[0]
	lap := lib.LapPow(s.dims, s.u, 1)
	scale := 1 + lib.MaxAbsR(lap)*(1+lib.MaxAbsR(s.w))
	for i := range lap {
		want := (a + b*complex(s.w[i], 0)) * complex(lap[i], 0)
		if d := got[i] - want; !(math.Hypot(real(d), imag(d)) <= 1e-9*scale) {
			c.Fatalf("weighted-laplacian-complex", "node %v: got %v, expected %v (prefactor %v)", lib.PosOf(s.dims, i), got[i], want, a+b*complex(s.w[i], 0))
		}
	}
	c.Count("values_compared", s.n)
	c.Key("weighted-complex-%dD", len(s.dims))
}

func main() {
	lib.Main(lib.Prop{ID: "C10", Level: "exploration",
		Rule: "Every ready-made spatial operator (Laplacian powers, gradient, divergence of a variable-coefficient gradient, advection with field/scalar/own velocities, squared gradient, anisotropic second derivative, weighted Laplacian, two terms of the same kind) evaluated through a model on random 2D/3D non-cubic grids; band-limited trigonometric polynomials are compared with their analytical derivatives, arbitrary fields (with Nyquist content) with an independent spectral derivative. Non-trivial: all nodes of one operator compared; classes are (operator, dimension, kind of field).",
		Groups: []lib.Group{
			{Name: "gradient", Quick: 400, Thorough: 8000, Run: gradient},
			{Name: "laplacian", Quick: 300, Thorough: 6000, Run: laplacian},
			{Name: "divgrad", Quick: 400, Thorough: 8000, Run: divgrad},
			{Name: "several", Quick: 200, Thorough: 4000, Run: several},
			{Name: "crowd", Quick: 400, Thorough: 8000, Run: crowd},
			{Name: "advection", Quick: 400, Thorough: 8000, Run: advection},
			{Name: "squared", Quick: 300, Thorough: 6000, Run: squared},
			{Name: "hessian", Quick: 300, Thorough: 6000, Run: hessian},
			{Name: "weighted", Quick: 300, Thorough: 6000, Run: weighted},
			{Name: "complex", Quick: 150, Thorough: 3000, Run: weightedComplex},
		}})
}
