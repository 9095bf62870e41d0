// C27: complete models behave like the physics they are written for: energies decrease at the
// rate of their dissipation, and known solutions are reproduced.
package main

import (
	"math"
	"math/rand"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

// sum over modes of |k|^(2p) |u|^2 / N
func sobolev(dims []int, u []float64, p int) float64 {
	h := lib.Fwd(dims, u)
	s := 0.0
	for i, v := range h {
		s += math.Pow(lib.K2(lib.FreqOf(dims, i)), float64(p)) * (real(v)*real(v) + imag(v)*imag(v))
	}
	return s / float64(len(h))
}

// stepper of a random kind
func setStepper(r *rand.Rand, s *pf.Solver, dims []int, dt float64) string {
	switch r.Intn(3) {
	case 0:
		s.SetStepper("rk4")
		return "rk4"
	}
	return "euler"
}

// flow is a gradient flow: two fields, energy
// sum( A/4 c^4 - B/2 c^2 + H c + A2/4 e^4 - B2/2 e^2 + G/2 c^2 e^2 + L c e) + K/2 |grad c|^2 + K2/2 |grad e|^2
type flow struct {
	dims                        []int
	A, B, A2, B2, G, L, K, K2   float64
	M, M2                       float64
	conserved, conserved2, both bool
}

func (f *flow) energy(c, e []float64) float64 {
	s := 0.0
	for i := range c {
		s += f.A/4*math.Pow(c[i], 4) - f.B/2*c[i]*c[i]
		if f.both {
			s += f.A2/4*math.Pow(e[i], 4) - f.B2/2*e[i]*e[i] + f.G/2*c[i]*c[i]*e[i]*e[i] + f.L*c[i]*e[i]
		}
	}
	s += f.K / 2 * sobolev(f.dims, c, 1)
	if f.both {
		s += f.K2 / 2 * sobolev(f.dims, e, 1)
	}
	return s
}

// derivs are the functional derivatives of the energy
func (f *flow) derivs(c, e []float64) ([]float64, []float64) {
	a, b := lib.LapPow(f.dims, c, 1), make([]float64, len(c))
	if f.both {
		b = lib.LapPow(f.dims, e, 1)
	}
	for i := range c {
		a[i] = f.A*math.Pow(c[i], 3) - f.B*c[i] - f.K*a[i]
		if f.both {
			a[i] += f.G*c[i]*e[i]*e[i] + f.L*e[i]
			b[i] = f.A2*math.Pow(e[i], 3) - f.B2*e[i] - f.K2*b[i] + f.G*c[i]*c[i]*e[i] + f.L*c[i]
		}
	}
	return a, b
}

// dissipation rate, and the stiffest rate of change
func (f *flow) dissipation(c, e []float64) float64 {
	a, b := f.derivs(c, e)
	p, q := 0, 0
	if f.conserved {
		p = 1
	}
	if f.conserved2 {
		q = 1
	}
	d := f.M * sobolev(f.dims, a, p)
	if f.both {
		d += f.M2 * sobolev(f.dims, b, q)
	}
	return d
}

func gradientFlow(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 10, 300)
	n := lib.Prod(dims)
	pos := func() float64 { return 0.2 + r.Float64() }
	f := &flow{dims: dims, A: pos(), B: pos(), A2: pos(), B2: pos(), G: pos(), L: r.NormFloat64() * 0.3, K: pos(), K2: pos(), M: pos(), M2: pos(),
		conserved: r.Intn(2) == 0, conserved2: r.Intn(2) == 0, both: r.Intn(2) == 0}
	u, w := lib.RandField(r, dims, 0.4), lib.RandField(r, dims, 0.4)
	m := pf.NewModel()
	m.AddField(pf.NewField("conc", n, lib.ToC(u)))
	sc := func(name string, v float64) { m.AddScalar(pf.NewScalar(name, complex(v, 0))) }
	sc("mAA", f.M*f.A)
	sc("mBB", f.M*f.B)
	sc("mGG", f.M*f.G)
	sc("mLL", f.M*f.L)
	sc("mKK", f.M*f.K)
	eq := "dconc/dt = mBB*conc - mAA*conc^3 + mKK*LAP conc"
	if f.conserved {
		eq = "dconc/dt = mAA*LAP conc^3 - mBB*LAP*conc - mKK*LAP^2 conc"
	}
	if f.both {
		m.AddField(pf.NewField("eta", n, lib.ToC(w)))
		if f.conserved {
			eq += " + mGG*LAP*conc*eta^2 + mLL*LAP eta"
		} else {
			eq += " - mGG*conc*eta^2 - mLL*eta"
		}
		sc("nAA", f.M2*f.A2)
		sc("nBB", f.M2*f.B2)
		sc("nGG", f.M2*f.G)
		sc("nLL", f.M2*f.L)
		sc("nKK", f.M2*f.K2)
		eq2 := "deta/dt = nBB*eta - nAA*eta^3 + nKK*LAP eta - nGG*conc^2*eta - nLL*conc"
		if f.conserved2 {
			eq2 = "deta/dt = nAA*LAP eta^3 - nBB*LAP*eta - nKK*LAP^2 eta + nGG*LAP conc^2*eta + nLL*LAP conc"
		}
		m.AddEquation(eq)
		m.AddEquation(eq2)
	} else {
		m.AddEquation(eq)
	}
	dt := 1e-5 * (0.5 + r.Float64())
	s := pf.NewSolver(&m, dims, dt)
	st := setStepper(r, s, dims, dt)
	c.Notef("%v %s %+v dt %v", dims, eq, *f, dt)
	mean, mean2 := lib.Mean(u), lib.Mean(w)
	for step := 0; step < 3; step++ {
		e0, d0 := f.energy(u, w), f.dissipation(u, w)
		k := 1 + r.Intn(3)
		s.Solve(1, k)
		fl := lib.Fields(&m)
		u1, w1 := fl[0], w
		if f.both {
			w1 = fl[1]
		}
		e1, d1 := f.energy(u1, w1), f.dissipation(u1, w1)
		T := dt * float64(k)
		if !(e1 <= e0+1e-10*(1+math.Abs(e0))) {
			c.Fatalf("energy", "%s: the energy grows from %v to %v", st, e0, e1)
		}
		// the loss is the dissipation (trapezoidal rule; Euler is first order, curvature bounds the error)
		rel := 2*math.Abs(d1-d0)/(d0+d1+1e-30) + 0.02
		if want := T * (d0 + d1) / 2; !(math.Abs(e0-e1-want) <= rel*want+1e-9*(1+math.Abs(e0))) {
			c.Fatalf("dissipation", "%s: the energy falls by %v in %v, the dissipation is %v", st, e0-e1, T, want)
		}
		u, w = u1, w1
		if f.conserved && math.Abs(lib.Mean(u)-mean) > 1e-11*(1+lib.MaxAbsR(u)) {
			c.Fatalf("mean", "the mean of the conserved field changes from %v to %v", mean, lib.Mean(u))
		}
		if f.both && f.conserved2 && math.Abs(lib.Mean(w)-mean2) > 1e-11*(1+lib.MaxAbsR(w)) {
			c.Fatalf("mean", "the mean of the conserved field changes from %v to %v", mean2, lib.Mean(w))
		}
		c.Count("energies", 1)
	}
	c.Key("%s cons%v%v both%v %dD", st, f.conserved, f.conserved2, f.both, len(dims))
}

// long relaxation with the semi-implicit stepper: the energy never grows and the field ends in a stationary state
func relaxation(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 4, 9, 150)
	n := lib.Prod(dims)
	f := &flow{dims: dims, A: 1, B: 0.5 + r.Float64(), K: 0.3 + r.Float64(), M: 1}
	u := lib.RandField(r, dims, 0.5)
	for i := range u {
		u[i] += 0.2
	}
	m := pf.NewModel()
	m.AddField(pf.NewField("conc", n, lib.ToC(u)))
	m.AddScalar(pf.NewScalar("BBB", complex(f.B, 0)))
	m.AddScalar(pf.NewScalar("KKK", complex(f.K, 0)))
	m.AddEquation("dconc/dt = BBB*conc - conc^3 + KKK*LAP conc")
	s := pf.NewSolver(&m, dims, 0.05)
	c.Notef("%v B %v K %v", dims, f.B, f.K)
	e := f.energy(u, nil)
	for k := 0; k < 40; k++ {
		s.Solve(1, 40)
		u = lib.Fields(&m)[0]
		en := f.energy(u, nil)
		if !(en <= e+1e-9*(1+math.Abs(e))) {
			c.Fatalf("energy", "the energy grows from %v to %v", e, en)
		}
		e = en
	}
	d, _ := f.derivs(u, nil)
	if v := lib.MaxAbsR(d); v > 1e-5 {
		// slow walls may need longer: then the energy still has to fall
		e0 := e
		s.Solve(1, 400)
		if e1 := f.energy(lib.Fields(&m)[0], nil); !(e1 <= e0+1e-9) {
			c.Fatalf("stationary", "driving force %v remains", v)
		}
		c.Count("slow", 1)
	} else {
		c.Count("stationary", 1)
	}
	c.Key("%v", dims)
}

// phase field crystal: energy falls, mean density stays
func crystal(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 4, 12, 250)
	n := lib.Prod(dims)
	mix := pfc.IdealMix{C3: 0.5 * r.Float64(), C4: 0.3 + r.Float64()}
	loc := 0.8 + 1.5*r.Float64()
	width := 0.3 + 0.4*r.Float64()
	temp := 0.3 * r.Float64()
	co := pfc.ReciprocalSpacePairCorrelation{EffTemp: temp, Peaks: []pfc.Peak{{PlaneDensity: 1, Location: loc, Width: width, NumPlanes: 4}}}
	u := lib.RandField(r, dims, 0.3)
	lap := r.Intn(2) == 0
	m := pf.NewModel()
	m.AddField(pf.NewField("rho", n, lib.ToC(u)))
	// the flow is d rho/dt = LAP mu or -mu, mu = ideal - pair
	A := -1.0
	if lap {
		A = 1
	}
	p := &pf.PairCorrlationTerm{PairCorrFunc: co, Field: "rho", Prefactor: -A, Laplacian: lap}
	m.RegisterImplicitTerm("PAIR", p, nil)
	id := &pf.IdealMixtureTerm{IdealMix: mix, Field: "rho", Prefactor: A, Laplacian: lap}
	m.RegisterMixedTerm("MIXTURE", id, []pf.DerivedField{id.DerivedField(n, m.Bricks)})
	m.AddEquation("drho/dt = MIXTURE + PAIR")
	dt := 0.002 * (0.2 + r.Float64())
	s := pf.NewSolver(&m, dims, dt)
	energy := func(u []float64) float64 {
		e := 0.0
		for _, x := range u {
			e += x*x/2 - mix.C3*x*x*x/6 + mix.C4*x*x*x*x/12
		}
		h := lib.Fwd(dims, u)
		for i, v := range h {
			k := math.Sqrt(lib.K2(lib.FreqOf(dims, i)))
			// one Gaussian peak, damped by the effective temperature
			g := math.Exp(-temp*temp*loc*loc/(2*1*4)) * math.Exp(-(k-loc)*(k-loc)/(2*width*width))
			e -= 0.5 * g * (real(v)*real(v) + imag(v)*imag(v)) / float64(n)
		}
		return e
	}
	c.Notef("%v mix %+v peak %v %v temp %v laplacian %v dt %v", dims, mix, loc, width, temp, lap, dt)
	e, mean := energy(u), lib.Mean(u)
	for k := 0; k < 10; k++ {
		s.Solve(1, 4)
		u = lib.Fields(&m)[0]
		en := energy(u)
		if !(en <= e+1e-9*(1+math.Abs(e))) {
			c.Fatalf("crystal", "the energy grows from %v to %v", e, en)
		}
		if lap && math.Abs(lib.Mean(u)-mean) > 1e-11 {
			c.Fatalf("crystal", "the mean density changes from %v to %v", mean, lib.Mean(u))
		}
		e = en
		c.Count("energies", 1)
	}
	c.Key("lap%v %dD", lap, len(dims))
}

// smooth field: a few long waves
func smooth(r *rand.Rand, dims []int, amp float64, axes []int) []float64 {
	n := lib.Prod(dims)
	u := make([]float64, n)
	for k := 0; k < 3; k++ {
		a, ph := amp*r.NormFloat64()/2, 2*math.Pi*r.Float64()
		kv := make([]float64, len(dims))
		for _, d := range axes {
			if dims[d] >= 12 {
				kv[d] = float64(r.Intn(3)-1) / float64(dims[d])
			}
		}
		for i := range u {
			p := lib.PosOf(dims, i)
			x := ph
			for d := range dims {
				x += 2 * math.Pi * kv[d] * float64(p[d])
			}
			u[i] += a * math.Cos(x)
		}
	}
	return u
}

func heat(dims []int, u []float64, nu, t float64) []float64 {
	h := lib.Fwd(dims, u)
	for i := range h {
		h[i] *= complex(math.Exp(-nu*lib.K2(lib.FreqOf(dims, i))*t), 0)
	}
	return lib.Re(lib.Inv(dims, h))
}

func smoothDims(r *rand.Rand) []int {
	d := []int{24 + r.Intn(16), 24 + r.Intn(16)}
	if r.Intn(3) == 0 {
		d = append(d, 1+r.Intn(3))
		r.Shuffle(3, func(i, j int) { d[i], d[j] = d[j], d[i] })
	}
	return d
}

// extrapolated runs a model with dt and dt/2 and removes the first order error in dt of linear terms
func extrapolated(build func() *pf.Model, dims []int, dt float64, steps int) []float64 {
	var f [2][]float64
	for k := 0; k < 2; k++ {
		m := build()
		s := pf.NewSolver(m, dims, dt/float64(k+1))
		s.SetStepper("rk4")
		s.Solve(1, steps*(k+1))
		f[k] = lib.Fields(m)[0]
	}
	for i := range f[1] {
		f[1][i] = 2*f[1][i] - f[0][i]
	}
	return f[1]
}

// growth of an interface: exp(h) solves the diffusion equation (Cole and Hopf)
func kpz(c *lib.Case) {
	r := c.R
	dims := smoothDims(r)
	n := lib.Prod(dims)
	axes := []int{}
	for d := range dims {
		axes = append(axes, d)
	}
	nu, lam := 0.5+r.Float64(), 0.3+r.Float64()
	if r.Intn(2) == 0 {
		lam *= math.Pow(10, -3*r.Float64())
	}
	if r.Intn(2) == 0 {
		lam = -lam
	}
	u := smooth(r, dims, 0.6, axes)
	dt := 0.02
	k := 50 + r.Intn(100)
	got := extrapolated(func() *pf.Model {
		m := pf.NewModel()
		m.AddField(pf.NewField("height", n, lib.ToC(u)))
		m.AddScalar(pf.NewScalar("NU", complex(nu, 0)))
		sq := pf.NewSquareGradient("height", dims)
		sq.Factor = lam
		m.RegisterExplicitTerm("GRAD_SQ", &sq, nil)
		m.AddEquation("dheight/dt = NU*LAP height + GRAD_SQ")
		return &m
	}, dims, dt, k)
	T := dt * float64(k)
	phi := make([]float64, n)
	for i := range phi {
		phi[i] = math.Exp(lam / nu * u[i])
	}
	phi = heat(dims, phi, nu, T)
	c.Notef("%v nu %v lambda %v time %v", dims, nu, lam, T)
	for i := range got {
		want := nu / lam * math.Log(phi[i])
		if !(math.Abs(got[i]-want) <= 1e-5*(1+lib.MaxAbsR(u))) {
			c.Fatalf("kpz", "height at %v after %v is %v, expected %v", lib.PosOf(dims, i), T, got[i], want)
		}
	}
	c.Count("node_values", n)
	c.Key("%dD sign%v", len(dims), lam > 0)
}

// Burgers: a velocity that carries itself
func burgers(c *lib.Case) {
	r := c.R
	dims := smoothDims(r)
	n := lib.Prod(dims)
	long := []int{}
	for d := range dims {
		if dims[d] >= 12 {
			long = append(long, d)
		}
	}
	ax := long[r.Intn(len(long))]
	nu := 0.5 + r.Float64()
	psi := smooth(r, dims, 0.5, []int{ax})
	// u = -2 nu d/dx log(phi), phi = exp(psi)
	vel := func(phi []float64) []float64 {
		l := make([]float64, n)
		for i := range l {
			l[i] = math.Log(phi[i])
		}
		d := lib.Deriv(dims, l, ax)
		for i := range d {
			d[i] *= -2 * nu
		}
		return d
	}
	phi := make([]float64, n)
	for i := range phi {
		phi[i] = math.Exp(psi[i])
	}
	u := vel(phi)
	dt := 0.02
	k := 50 + r.Intn(100)
	got := extrapolated(func() *pf.Model {
		m := pf.NewModel()
		m.AddField(pf.NewField("vel", n, lib.ToC(u)))
		m.AddScalar(pf.NewScalar("NU", complex(nu, 0)))
		m.AddScalar(pf.NewScalar("still", complex(0, 0)))
		ad := pf.Advection{Field: "vel"}
		for d := range dims {
			if d == ax {
				ad.VelocityFields = append(ad.VelocityFields, "vel")
			} else {
				ad.VelocityFields = append(ad.VelocityFields, "still")
			}
		}
		ad.PrepareModel(n, &m, pfutil.NewFFTW(dims))
		m.RegisterExplicitTerm("ADVECTION", &ad, nil)
		m.AddEquation("dvel/dt = NU*LAP*vel + ADVECTION")
		return &m
	}, dims, dt, k)
	T := dt * float64(k)
	want := vel(heat(dims, phi, nu, T))
	c.Notef("%v axis %d nu %v time %v", dims, ax, nu, T)
	if d, i := lib.DiffR(got, want); !(d <= 2e-5*(1e-1+lib.MaxAbsR(u))) {
		c.Fatalf("burgers", "velocity at %v after %v is %v, expected %v", lib.PosOf(dims, i), T, got[i], want[i])
	}
	c.Count("node_values", n)
	c.Key("%dD axis%d", len(dims), ax)
}

// a wave carried by a uniform flow while it diffuses, with a reaction
func carried(c *lib.Case) {
	r := c.R
	dims := smoothDims(r)
	n := lib.Prod(dims)
	axes, v := []int{}, []float64{}
	for d := range dims {
		axes = append(axes, d)
		v = append(v, 0.3*r.NormFloat64())
	}
	D, k := 0.2+0.5*r.Float64(), 0.1*r.NormFloat64()
	u := smooth(r, dims, 1, axes)
	dt := 0.01
	ns := 50 + r.Intn(150)
	got := extrapolated(func() *pf.Model {
		m := pf.NewModel()
		m.AddField(pf.NewField("conc", n, lib.ToC(u)))
		m.AddScalar(pf.NewScalar("DDD", complex(D, 0)))
		m.AddScalar(pf.NewScalar("kr", complex(k, 0)))
		ad := pf.Advection{Field: "conc"}
		for d := range dims {
			nm := []string{"velx", "vely", "velz"}[d]
			m.AddScalar(pf.NewScalar(nm, complex(v[d], 0)))
			ad.VelocityFields = append(ad.VelocityFields, nm)
		}
		ad.PrepareModel(n, &m, pfutil.NewFFTW(dims))
		m.RegisterExplicitTerm("ADVECTION", &ad, nil)
		m.AddEquation("dconc/dt = DDD*LAP conc + ADVECTION + kr*conc")
		return &m
	}, dims, dt, ns)
	T := dt * float64(ns)
	h := lib.Fwd(dims, u)
	for i := range h {
		f := lib.FreqOf(dims, i)
		ph := 0.0
		for d := range f {
			ph -= 2 * math.Pi * f[d] * v[d] * T
		}
		g := math.Exp((k - D*lib.K2(f)) * T)
		h[i] *= complex(g*math.Cos(ph), g*math.Sin(ph))
	}
	want := lib.Re(lib.Inv(dims, h))
	c.Notef("%v D %v v %v k %v time %v", dims, D, v, k, T)
	if d, i := lib.DiffR(got, want); !(d <= 1e-5*(1e-1+lib.MaxAbsR(u))) {
		c.Fatalf("carried", "concentration at %v after %v is %v, expected %v", lib.PosOf(dims, i), T, got[i], want[i])
	}
	c.Count("node_values", n)
	c.Key("%dD", len(dims))
}

func main() {
	lib.Main(lib.Prop{ID: "C27", Level: "exploration", CPULimit: 400,
		Rule: "Complete models built as in the documentation (Allen-Cahn, Cahn-Hilliard and coupled flows, phase field crystals, interface growth, Burgers, advection-diffusion-reaction) with random coefficients on 2D/3D domains: an independently computed energy must fall at the rate of its dissipation at every step and never grow on long runs, means of conserved fields stay, and models with a known solution end on it. Non-trivial: energies or node values compared; classes are kinds of flow, steppers and dimensions.",
		Groups: []lib.Group{
			{Name: "flow", Quick: 600, Thorough: 12000, Run: gradientFlow},
			{Name: "relaxation", Quick: 24, Thorough: 800, Run: relaxation},
			{Name: "crystal", Quick: 200, Thorough: 4000, Run: crystal},
			{Name: "kpz", Quick: 14, Thorough: 500, Run: kpz},
			{Name: "burgers", Quick: 14, Thorough: 500, Run: burgers},
			{Name: "carried", Quick: 14, Thorough: 500, Run: carried},
		}})
}
