// C17: statistics of the noise terms.
package main

import (
	"math"
	"math/rand"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

// moments judges samples x that should be independent standard normal numbers
func moments(c *lib.Case, key string, x []float64) {
	n := float64(len(x))
	var m, v, s, k, lag float64
	for i, a := range x {
		m += a
		v += a * a
		s += a * a * a
		k += a * a * a * a
		if i > 0 {
			lag += a * x[i-1]
		}
	}
	const sig = 7
	check := func(what string, got, want, std float64) {
		if !(math.Abs(got/n-want) <= sig*std/math.Sqrt(n)) {
			c.Fatalf(key, "%s of %d normalised samples is %v, expected %v +- %v", what, len(x), got/n, want, std/math.Sqrt(n))
		}
	}
	check("mean", m, 0, 1)
	check("variance", v, 1, math.Sqrt(2))
	check("third moment", s, 0, math.Sqrt(15))
	check("fourth moment", k, 3, math.Sqrt(96)*2)
	check("correlation of neighbours", lag, 0, 1)
	c.Count("samples", len(x))
}

func corr(c *lib.Case, key string, x, y []float64) {
	s := 0.0
	for i := range x {
		s += x[i] * y[i]
	}
	n := float64(len(x))
	if !(math.Abs(s/n) <= 7/math.Sqrt(n)) {
		c.Fatalf(key, "correlation of %d pairs is %v", len(x), s/n)
	}
	c.Count("pairs", len(x))
}

func strength(r *rand.Rand) float64 { return math.Exp(6*r.Float64() - 4) }

// white noise in a model: every step adds dt times independent normal numbers
func white(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 12, 400)
	n := lib.Prod(dims)
	S, S2 := strength(r), strength(r)
	dt := math.Exp(-3 * r.Float64())
	w, w2 := pf.WhiteNoise{Strength: S}, pf.WhiteNoise{Strength: S2}
	mod := pf.NewModel()
	u := lib.RandField(r, dims, 1)
	mod.AddField(pf.NewField("u", n, lib.ToC(u)))
	mod.RegisterFunction("NOISE", w.Generate)
	mod.AddEquation("du/dt = NOISE")
	two := r.Intn(2) == 0
	if two {
		mod.AddField(pf.NewField("v", n, lib.ToC(u)))
		mod.RegisterFunction("OTHER", w2.Generate)
		mod.AddEquation("dv/dt = OTHER")
	}
	s := pf.NewSolver(&mod, dims, dt)
	change := r.Intn(3) == 0
	c.Notef("%v strength %v %v dt %v changing %v", dims, S, S2, dt, change)
	steps := 3000/n + 2
	var x, y, p, q []float64
	prev := lib.Fields(&mod)
	var last []float64
	for k := 0; k < steps; k++ {
		if change && r.Intn(3) == 0 { // the strength is that of the moment
			S = strength(r)
			w.Strength = S
		}
		s.Solve(1, 1)
		cur := lib.Fields(&mod)
		if lib.MaxImag(&mod) > 1e-10*(1+lib.MaxAbsR(cur[0])) {
			c.Fatalf("real", "complex field after noise")
		}
		d := make([]float64, n)
		for i := range d {
			d[i] = (cur[0][i] - prev[0][i]) / dt / math.Sqrt(2*S)
		}
		x = append(x, d...)
		if two {
			for i := range d {
				y = append(y, (cur[1][i]-prev[1][i])/dt/math.Sqrt(2*S2))
			}
		}
		if last != nil {
			p = append(p, last...)
			q = append(q, d...)
		}
		last = d
		prev = cur
	}
	moments(c, "white", x)
	corr(c, "time", p, q)
	if two {
		moments(c, "white", y)
		corr(c, "fields", x, y)
	}
	c.Key("%v two%v changing%v", dims, two, change)
}

// the numbers are normal far into the tails, from both noise sources
func tails(c *lib.Case) {
	r := c.R
	S := strength(r)
	std := math.Sqrt(2 * S)
	const n = 4000000
	x := make([]float64, 0, n)
	kind := r.Intn(2)
	if kind == 0 {
		w := pf.WhiteNoise{Strength: S}
		for i := 0; i < n; i++ {
			v := w.Generate(r.Intn(1000), nil)
			if imag(v) != 0 {
				c.Fatalf("real", "complex number %v", v)
			}
			x = append(x, real(v)/std)
		}
	} else {
		dim := 2 + r.Intn(2)
		cn := pf.NewConservativeNoise(S, dim)
		data := make([]complex128, 5000)
		fields := cn.RequiredDerivedFields(len(data))
		for len(x) < n {
			fields[r.Intn(dim)].Calc(data)
			for _, v := range data {
				x = append(x, real(v)/std)
			}
		}
	}
	edges := []float64{-4, -3.5, -3, -2.5, -2, -1.5, -1, -0.5, -0.1, 0, 0.1, 0.5, 1, 1.5, 2, 2.5, 3, 3.5, 4}
	cum := func(v float64) float64 { return 0.5 * math.Erfc(-v/math.Sqrt2) }
	count := make([]float64, len(edges)+1)
	for _, v := range x {
		k := 0
		for k < len(edges) && v >= edges[k] {
			k++
		}
		count[k]++
	}
	lo := 0.0
	for k := range count {
		hi := 1.0
		if k < len(edges) {
			hi = cum(edges[k])
		}
		p := hi - lo
		lo = hi
		want := p * float64(len(x))
		dev := 7 * math.Sqrt(want*(1-p))
		if want < 60 {
			dev += 8 // the distribution of small counts is skew
		}
		if math.Abs(count[k]-want) > dev {
			c.Fatalf("tails", "%v of %d normalised numbers in interval %d of %v, expected %v", count[k], len(x), k, edges, want)
		}
	}
	c.Count("samples", len(x))
	c.Key("kind%d", kind)
}

// spectrum of one conservative noise term
func conservative(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 9, 300)
	for lib.Prod(dims) < 6 {
		dims = lib.Dims2or3(r, 1, 9, 300)
	}
	n := lib.Prod(dims)
	S := strength(r)
	dt := math.Exp(-3 * r.Float64())
	cn := pf.NewConservativeNoise(S, len(dims))
	mod := pf.NewModel()
	u := lib.RandField(r, dims, 1)
	mod.AddField(pf.NewField("u", n, lib.ToC(u)))
	mod.RegisterExplicitTerm("NOISE", &cn, cn.RequiredDerivedFields(n))
	mod.AddEquation("du/dt = NOISE")
	two := r.Intn(2) == 0
	cn2 := pf.NewConservativeNoise(S, len(dims))
	if two {
		mod.AddField(pf.NewField("v", n, lib.ToC(u)))
		mod.RegisterExplicitTerm("OTHER", &cn2, cn2.RequiredDerivedFields(n))
		mod.AddEquation("dv/dt = OTHER")
	}
	s := pf.NewSolver(&mod, dims, dt)
	change := r.Intn(3) == 0
	c.Notef("%v strength %v dt %v changing %v", dims, S, dt, change)
	ft := pfutil.NewFFTW(dims)
	// variance of every amplitude, and the amplitudes that stand for independent numbers
	vr := make([]float64, n)
	half := make([]int, n) // 2: complex pair represented here, 1: real, 0: mirrored elsewhere
	zero := 0
	for i := range vr {
		f := lib.FreqOf(dims, i)
		for d := range f {
			if math.Abs(math.Abs(f[d])-0.5) > 1e-6 {
				vr[i] += 4 * math.Pow(math.Sin(math.Pi*f[d]), 2)
			}
		}
		vr[i] *= 2 * S * float64(n) * dt * dt
		j := ft.ConjugateNode(i)
		switch {
		case j == i:
			half[i] = 1
		case j > i:
			half[i] = 2
		}
		if vr[i] < 1e-20*S {
			zero++
			half[i] = 0
		}
	}
	steps := 3000/n + 2
	var x, y, p, q []float64
	prev := lib.Fields(&mod)
	var last []float64
	unit := func(cur, old []float64) []float64 {
		d := make([]float64, n)
		for i := range d {
			d[i] = cur[i] - old[i]
		}
		h := lib.Fwd(dims, d)
		sc := dt * math.Sqrt(S) * float64(n)
		var res []float64
		for i := range h {
			switch half[i] {
			case 2:
				res = append(res, real(h[i])/math.Sqrt(vr[i]/2), imag(h[i])/math.Sqrt(vr[i]/2))
			case 1:
				res = append(res, real(h[i])/math.Sqrt(vr[i]))
			}
			if vr[i] < 1e-20*S && !(math.Hypot(real(h[i]), imag(h[i])) <= 1e-9*sc+1e-12*float64(n)*(1+lib.MaxAbsR(cur))) {
				c.Fatalf("conserved", "amplitude of wave vector %v changes by %v", lib.FreqOf(dims, i), h[i])
			}
		}
		return res
	}
	for k := 0; k < steps; k++ {
		if change && r.Intn(3) == 0 { // the strength is that of the moment
			S1 := strength(r)
			for i := range vr {
				vr[i] *= S1 / S
			}
			S = S1
			cn.Strength, cn2.Strength = S, S
		}
		s.Solve(1, 1)
		cur := lib.Fields(&mod)
		if lib.MaxImag(&mod) > 1e-10*(1+lib.MaxAbsR(cur[0])) {
			c.Fatalf("real", "complex field after noise")
		}
		if !(math.Abs(lib.Mean(cur[0])-lib.Mean(u)) <= 1e-10*(1+lib.MaxAbsR(cur[0]))) {
			c.Fatalf("conserved", "the average changes from %v to %v", lib.Mean(u), lib.Mean(cur[0]))
		}
		d := unit(cur[0], prev[0])
		if two {
			y = append(y, unit(cur[1], prev[1])...)
		}
		x = append(x, d...)
		if last != nil {
			p = append(p, last...)
			q = append(q, d...)
		}
		last = d
		prev = cur
	}
	c.Count("conserved amplitudes", zero*steps)
	if len(x) > 200 {
		moments(c, "spectrum", x)
		corr(c, "time", p, q)
		if two {
			moments(c, "spectrum", y)
			corr(c, "fields", x, y)
		}
		c.Key("%v two%v changing%v", dims, two, change)
	}
}

// the spectrum of single wave vectors (rather than of all together)
func modes(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 3, 5, 60)
	n := lib.Prod(dims)
	S := strength(r)
	cn := pf.NewConservativeNoise(S, len(dims))
	df := cn.RequiredDerivedFields(n)
	ft := pfutil.NewFFTW(dims)
	bricks := map[string]pf.Brick{}
	if ok, _ := lib.MustPanic(func() { cn.Construct(bricks) }); !ok {
		c.Fatalf("refuse", "the noise term was built without its currents")
	}
	if cn.CurrentFieldsAreRegistered(bricks) {
		c.Fatalf("refuse", "missing currents are reported as registered")
	}
	for i := range df {
		bricks[df[i].Name] = &df[i]
	}
	if len(df) != len(dims) || len(bricks) != len(dims) || !cn.CurrentFieldsAreRegistered(bricks) {
		c.Fatalf("currents", "%d currents, %d names", len(df), len(bricks))
	}
	other := pf.NewConservativeNoise(S, len(dims))
	for i := range df {
		if other.GetCurrentName(i) == cn.GetCurrentName(i) {
			c.Fatalf("currents", "two noise terms share their current %s", cn.GetCurrentName(i))
		}
	}
	term := cn.Construct(bricks)
	const N = 1500
	sum := make([]float64, n)
	out := make([]complex128, n)
	for k := 0; k < N; k++ {
		for i := range df {
			df[i].Update()
			ft.FFT(df[i].Data)
		}
		for i := range out {
			out[i] = complex(7, 7)
		}
		term(ft.Freq, 0, out)
		for i := range out {
			sum[i] += real(out[i])*real(out[i]) + imag(out[i])*imag(out[i])
		}
	}
	for i := range sum {
		f := lib.FreqOf(dims, i)
		want := 0.0
		for d := range f {
			if math.Abs(math.Abs(f[d])-0.5) > 1e-6 {
				want += 4 * math.Pow(math.Sin(math.Pi*f[d]), 2)
			}
		}
		want *= 2 * S * float64(n)
		// mean of N squares: relative deviation sqrt(2/N) at most
		if !(math.Abs(sum[i]/N-want) <= 7*math.Sqrt(2.0/N)*want+1e-12*S) {
			c.Fatalf("mode", "mean square of wave vector %v is %v, expected %v", f, sum[i]/N, want)
		}
	}
	c.Count("wave vectors", n)
	c.Key("%v", dims)
}

// the noise is determined by the seed
func seeded(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 6, 100)
	n := lib.Prod(dims)
	u := lib.RandField(r, dims, 1)
	seed := r.Int63()
	run := func() []float64 {
		//lint:ignore SA1019 the library draws from the global source
		rand.Seed(seed)
		w := pf.WhiteNoise{Strength: 0.3}
		cn := pf.NewConservativeNoise(0.2, len(dims))
		mod := pf.NewModel()
		mod.AddField(pf.NewField("u", n, lib.ToC(u)))
		mod.RegisterFunction("WHITE", w.Generate)
		mod.RegisterExplicitTerm("CONSERVED", &cn, cn.RequiredDerivedFields(n))
		mod.AddScalar(pf.NewScalar("KAPPA", complex(0.1, 0)))
		mod.AddEquation("du/dt = KAPPA*LAP*u + WHITE + CONSERVED")
		s := pf.NewSolver(&mod, dims, 0.1)
		s.Solve(2, 2)
		return lib.Fields(&mod)[0]
	}
	a, b := run(), run()
	if d, i := lib.DiffR(a, b); !(d <= 1e-9) {
		c.Fatalf("seed", "two runs with the same seed differ at node %d: %v and %v", i, a[i], b[i])
	}
	c.Count("nodes", n)
	c.Key("%v", dims)
}

func main() {
	lib.Main(lib.Prop{ID: "C17", Level: "exploration", CPULimit: 300,
		Rule:   "Random strengths, time steps, models and 2D/3D domains; every increment of every step is normalised by the documented correlation and its moments, correlations in space, in time, between fields and between wave vectors are compared with those of independent normal numbers (seven standard deviations). Non-trivial: more than 200 samples; classes are domains.",
		Assume: []string{"a statistical alarm needs a deviation of seven standard deviations"},
		Groups: []lib.Group{
			{Name: "white", Quick: 300, Thorough: 4000, Run: white},
			{Name: "conservative", Quick: 300, Thorough: 4000, Run: conservative},
			{Name: "modes", Quick: 100, Thorough: 1500, Run: modes},
			{Name: "seeded", Quick: 100, Thorough: 1000, Run: seeded},
			{Name: "tails", Quick: 12, Thorough: 300, Run: tails},
		}})
}
