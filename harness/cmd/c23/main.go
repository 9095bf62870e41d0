// C23: filters, transforms, penalties, viscosity and the volume constraint.
package main

import (
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

// vand is Vandeven's filter of order p: 1 - (2p-1)!/((p-1)!)^2 int_0^x (t(1-t))^(p-1) dt
func vand(p int, x float64) float64 {
	if x >= 1 {
		return 0
	}
	pref := 1.0
	for k := 1; k < p; k++ {
		pref *= float64(p+k) / float64(k) / 4
	}
	pref *= float64(p) // (2p-1)!/((p-1)!)^2 = p * prod_{k=1}^{p-1} (p+k)/k, shared with f: 4^(p-1)
	const n = 4000
	h := x / n
	s := 0.0
	f := func(t float64) float64 { return math.Pow(4*t*(1-t), float64(p-1)) }
	for i := 0; i < n; i += 2 {
		a := float64(i) * h
		s += f(a) + 4*f(a+h) + f(a+2*h)
	}
	return 1 - pref*s*h/3
}

func filters(c *lib.Case) {
	r := c.R
	p := 1 + r.Intn(12)
	if r.Intn(4) == 0 {
		p = 13 + r.Intn(288)
	}
	tol := 2e-5 + 4e-7*float64(p) // of the trapezoidal rule and of the interpolation between 1000 points
	v := pf.NewVandeven(p)
	if !near(v.Eval(0), 1, 1e-12) || math.Abs(v.Eval(1)) > 1e-3 || v.Eval(1.5) != v.Eval(1) {
		c.Fatalf("ends", "order %d: %v at 0, %v at 1, %v beyond", p, v.Eval(0), v.Eval(1), v.Eval(1.5))
	}
	prev := 1.0
	for i := 0; i <= 400; i++ {
		x := float64(i) / 400
		y := v.Eval(x)
		if !(y <= prev+1e-12) {
			c.Fatalf("monotone", "order %d: filter grows at %v", p, x)
		}
		prev = y
	}
	for k := 0; k < 12; k++ {
		x := 1.2 * r.Float64()
		switch k % 4 { // also close to the ends and to multiples of 1/999
		case 1:
			x = 1 - math.Pow(10, -1-3*r.Float64())
		case 2:
			x = math.Pow(10, -1-3*r.Float64())
		case 3:
			x = (float64(r.Intn(1000)) + 1e-6*r.NormFloat64()) / 999
			if x < 0 {
				x = 0
			}
		}
		if got, want := v.Eval(x), vand(p, x); !near(got, want, tol) {
			c.Fatalf("vandeven", "order %d at %v: %v, expected %v", p, x, got, want)
		}
		c.Count("values", 1)
	}
	// applied to amplitudes
	dims := lib.Dims2or3(r, 1, 9, 200)
	n := lib.Prod(dims)
	ft := pfutil.NewFFTW(dims)
	data := make([]complex128, n)
	for i := range data {
		data[i] = complex(r.NormFloat64(), r.NormFloat64())
	}
	in := append([]complex128{}, data...)
	pf.ApplyModalFilter(&v, ft.Freq, data)
	for i := range data {
		want := in[i] * complex(vand(p, lib.FilterArg(dims, i)), 0)
		d := data[i] - want
		if !(math.Hypot(real(d), imag(d)) <= 2*tol*(1+math.Hypot(real(in[i]), imag(in[i])))) {
			c.Fatalf("apply", "order %d: amplitude of %v is %v, expected %v", p, lib.FreqOf(dims, i), data[i], want)
		}
	}
	// transforms to intervals
	a, b := 3*r.NormFloat64(), 0.0
	b = a + 0.1 + 5*r.Float64()
	bt := pf.BoundTransform{Min: a, Max: b}
	last := math.Inf(-1)
	for i := -40; i <= 40; i++ {
		x := math.Sinh(float64(i) / 8)
		y := bt.Forward(x)
		if !(y > a && y < b && y > last) {
			c.Fatalf("bound", "interval (%v,%v): %v is mapped to %v, after %v", a, b, x, y, last)
		}
		last = y
		if back := bt.Backward(y); !near(back, x, 1e-9*(1+x*x)) {
			c.Fatalf("bound", "interval (%v,%v): %v is mapped to %v and back to %v", a, b, x, y, back)
		}
	}
	if !near(bt.Forward(0), (a+b)/2, 1e-12*(1+math.Abs(a)+math.Abs(b))) || bt.Forward(1e12) < b-1e-6*(b-a) || bt.Forward(-1e12) > a+1e-6*(b-a) {
		c.Fatalf("bound", "interval (%v,%v) is not filled", a, b)
	}
	x := 3 * r.NormFloat64()
	if !near(bt.Forward(x), a+(b-a)*(math.Atan(x)/math.Pi+0.5), 1e-12*(1+math.Abs(a)+math.Abs(b))) {
		c.Fatalf("bound", "interval (%v,%v): %v is mapped to %v", a, b, x, bt.Forward(x))
	}
	// penalty for negative values
	e := 1 + r.Intn(7)
	pre := r.NormFloat64() * 10
	nv := pf.NegativeValuePenalty{Prefactor: pre, Exponent: e, Field: "u"}
	energy := func(x float64) float64 {
		return pre * (math.Pow(math.Abs(x), float64(e)) - math.Pow(x, float64(e)))
	}
	for k := 0; k < 10; k++ {
		x := 2 * r.NormFloat64()
		if math.Abs(x) < 1e-2 {
			continue
		}
		h := 1e-5
		want := (energy(x+h) - energy(x-h)) / (2 * h)
		if got := nv.Penalty(x); !near(got, want, 1e-5*math.Abs(pre)*math.Pow(1+math.Abs(x), float64(e))) {
			c.Fatalf("penalty", "%+v at %v: %v, derivative is %v", nv, x, got, want)
		}
		if got := nv.Evaluate(1, map[string]pf.Brick{"u": pf.Field{Data: []complex128{5, complex(x, 0)}}, "w": pf.Field{Data: []complex128{1, -2}}}); got != complex(nv.Penalty(x), 0) {
			c.Fatalf("penalty", "%+v at %v: %v instead of %v", nv, x, got, nv.Penalty(x))
		}
	}
	d := pf.NewDefaultNegativeValuePenalty("rho")
	if d.Prefactor != 1500 || d.Exponent != 3 || d.Field != "rho" {
		c.Fatalf("default", "%+v", d)
	}
	c.Key("order%d exponent%d %v", p, e, dims)
}

func viscosity(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 12, 300)
	n := lib.Prod(dims)
	ft := pfutil.NewFFTW(dims)
	m := 0.05 + 0.7*r.Float64()
	sv := pf.SpectralViscosity{Eps: 2 * r.Float64(), DissipationThreshold: m, Power: r.Intn(5)}
	out := make([]complex128, n)
	for i := range out {
		out[i] = complex(3, 4)
	}
	sv.Construct(map[string]pf.Brick{})(ft.Freq, r.Float64(), out)
	reported := false
	for i := range out {
		k := math.Sqrt(lib.K2(lib.FreqOf(dims, i))) / (2 * math.Pi)
		amp := -sv.Eps * math.Pow(k, float64(sv.Power))
		tol := 1e-12 * (1 + math.Abs(amp))
		if imag(out[i]) != 0 {
			c.Fatalf("real", "factor of wave number %v is %v", k, out[i])
		}
		got := real(out[i])
		x := 1.5*k/m - 0.5
		switch {
		case math.Abs(k-m/3) < 1e-9 || math.Abs(k-m) < 1e-9:
		case k < m/3:
			if got != 0 {
				c.Fatalf("below", "threshold %v: factor of wave number %v is %v", m, k, got)
			}
			c.Count("below", 1)
		case k > m:
			if !near(got, amp, tol) {
				c.Fatalf("above", "%+v: factor of wave number %v is %v, expected %v", sv, k, got, amp)
			}
			c.Count("above", 1)
		default:
			c.Count("between", 1)
			if near(got, amp*(3*x*x-2*x*x*x), tol) {
				continue
			}
			if near(got, amp*(2*x*x-3*x*x*x), tol) {
				if !reported {
					c.Failf("interpolant", "%+v: factor of wave number %v is %v: negative viscosity", sv, k, got)
				}
				reported = true
				continue
			}
			c.Fatalf("between", "%+v: factor of wave number %v is %v, expected %v", sv, k, got, amp*(3*x*x-2*x*x*x))
		}
	}
	c.Key("%v power%d", dims, sv.Power)
}

// a viscosity term in a model damps what is above the threshold and leaves alone what is below
func damping(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 10, 250)
	n := lib.Prod(dims)
	m := 0.1 + 0.5*r.Float64()
	sv := pf.SpectralViscosity{Eps: 2 * r.Float64(), DissipationThreshold: m, Power: 1 + r.Intn(4)}
	mod := pf.NewModel()
	u := lib.RandField(r, dims, 1)
	mod.AddField(pf.NewField("u", n, lib.ToC(u)))
	mod.RegisterImplicitTerm("VISC", &sv, nil)
	mod.AddEquation("du/dt = VISC")
	dt := 0.05 * r.Float64()
	s := pf.NewSolver(&mod, dims, dt)
	h0 := lib.Fwd(dims, u)
	ns := 1 + r.Intn(4)
	s.Solve(1, ns)
	h1 := lib.Fwd(dims, lib.Fields(&mod)[0])
	for i := range h0 {
		k := math.Sqrt(lib.K2(lib.FreqOf(dims, i))) / (2 * math.Pi)
		f := 0.0
		if k > m {
			f = 1
		} else if k > m/3 {
			continue
		}
		want := h0[i] * complex(math.Pow(1/(1+dt*sv.Eps*f*math.Pow(k, float64(sv.Power))), float64(ns)), 0)
		d := h1[i] - want
		if math.Abs(k-m) > 1e-9 && math.Abs(k-m/3) > 1e-9 && !(math.Hypot(real(d), imag(d)) <= 1e-10*(1+lib.MaxAbs(h0))) {
			c.Fatalf("damping", "%+v: amplitude of wave number %v is %v, expected %v", sv, k, h1[i], want)
		}
		c.Count("amplitudes", 1)
	}
	c.Key("%v", dims)
}

// the volume constraint
func volume(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 7, 150)
	n := lib.Prod(dims)
	u := lib.RandField(r, dims, 1)
	drift := lib.RandField(r, dims, 1)
	bump := lib.RandField(r, dims, 0.5)
	ind := make([]float64, n)
	sign := 1.0
	if r.Intn(3) == 0 {
		sign = -1
	}
	for i := range ind {
		drift[i] += 1 + r.Float64()*0
		ind[i] = sign * (1 + 0.5*bump[i]/(1e-9+lib.MaxAbsR(bump)))
	}
	varying := r.Intn(2) == 0 // the indicator follows the field
	dt := 1e-3 + 0.05*r.Float64()
	mod := pf.NewModel()
	mod.AddField(pf.NewField("u", n, lib.ToC(u)))
	mod.RegisterFunction("DRIFT", func(i int, b map[string]pf.Brick) complex128 { return complex(drift[i], 0) })
	indicator := func(i int, x float64) float64 {
		if varying {
			return sign * (1 + 0.3*math.Tanh(x))
		}
		return ind[i]
	}
	mod.RegisterFunction("IND", func(i int, b map[string]pf.Brick) complex128 {
		return complex(indicator(i, real(b["u"].Get(i))), 0)
	})
	vc := pf.NewVolumeConservingLP("u", "IND", dt, n)
	mod.RegisterExplicitTerm("VOL", &vc, nil)
	mod.AddEquation("du/dt = DRIFT + VOL")
	s := pf.NewSolver(&mod, dims, dt)
	y := append([]float64{}, u...)
	mult, prev := 0.0, math.NaN()
	c.Notef("%v dt %v varying %v", dims, dt, varying)
	for step := 0; step < 6; step++ {
		I := 0.0
		for i := range y {
			h := indicator(i, y[i])
			I += h
			ind[i] = h
		}
		tot0 := lib.Mean(y) * float64(n)
		for i := range y {
			y[i] += dt * (drift[i] + mult*ind[i])
		}
		s.Solve(1, 1)
		cur := lib.Fields(&mod)[0]
		if d, i := lib.DiffR(cur, y); !(d <= 1e-9*(1+lib.MaxAbsR(y)+math.Abs(mult))) {
			c.Fatalf("step", "step %d: node %d is %v, expected %v", step, i, cur[i], y[i])
		}
		copy(y, cur)
		tot := lib.Mean(y) * float64(n)
		if !math.IsNaN(prev) {
			mult -= (tot - prev) / (dt * I)
		}
		prev = tot
		if !near(vc.Multiplier, mult, 1e-7*(1+math.Abs(mult))) {
			c.Fatalf("multiplier", "step %d: multiplier %v, expected %v", step, vc.Multiplier, mult)
		}
		mult = vc.Multiplier
		// with a fixed indicator and drift the integral stands still from the third step on
		if !varying && step >= 2 && !near(tot, tot0, 1e-7*(1+math.Abs(tot))) {
			c.Fatalf("conserved", "step %d: the integral changes from %v to %v", step, tot0, tot)
		}
		c.Count("steps", 1)
	}
	c.Key("%v varying%v", dims, varying)
}

func main() {
	lib.Main(lib.Prop{ID: "C23", Level: "exploration", CPULimit: 200,
		Rule: "Random filter orders, intervals, exponents, viscosities, constraints, fields and 2D/3D domains; values are compared with the defining integrals and expressions evaluated independently, and time steps with the update they imply. Non-trivial: values compared; classes are parameters and domains.",
		Groups: []lib.Group{
			{Name: "filters", Quick: 800, Thorough: 15000, Run: filters},
			{Name: "viscosity", Quick: 800, Thorough: 20000, Run: viscosity},
			{Name: "damping", Quick: 400, Thorough: 8000, Run: damping},
			{Name: "volume", Quick: 600, Thorough: 12000, Run: volume},
		}})
}
