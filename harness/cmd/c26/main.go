// C26: charge transport: Poisson's equation, Ohm's law and conservation of charge.
package main

import (
	"math"
	"math/rand"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

// order of the tensor elements (documented): 2D xx, yy, xy; 3D xx, yy, zz, yz, xz, xy
func pack(s [][]float64) []float64 {
	if len(s) == 2 {
		return []float64{s[0][0], s[1][1], s[0][1]}
	}
	return []float64{s[0][0], s[1][1], s[2][2], s[1][2], s[0][2], s[0][1]}
}

// randTensor is symmetric and positive definite
func randTensor(r *rand.Rand, dim int) [][]float64 {
	// now and then with small whole numbers, such that elements are equal or zero
	simple := r.Intn(3) == 0
	a := make([][]float64, dim)
	for i := range a {
		a[i] = make([]float64, dim)
		for j := range a[i] {
			a[i][j] = r.NormFloat64()
			if simple {
				a[i][j] = float64(r.Intn(3) - 1)
			}
		}
	}
	s := make([][]float64, dim)
	for i := range s {
		s[i] = make([]float64, dim)
		for j := range s[i] {
			for k := range a {
				s[i][j] += a[i][k] * a[j][k]
			}
		}
		if !simple {
			s[i][i] += 0.1
		}
	}
	return s
}

func nyquist(f float64) bool { return math.Abs(math.Abs(f)-0.5) < 1e-9 }

// efield is the field of the charges: its divergence is the charge density (zero mean)
func efield(dims []int, rho []float64, ext []float64) [][]float64 {
	h := lib.Fwd(dims, rho)
	res := make([][]float64, len(dims))
	for d := range dims {
		g := make([]complex128, len(h))
		for i := range h {
			f := lib.FreqOf(dims, i)
			k2 := lib.K2(f)
			if k2 > 0 && !nyquist(f[d]) {
				g[i] = h[i] * complex(0, -2*math.Pi*f[d]/k2)
			}
		}
		res[d] = lib.Re(lib.Inv(dims, g))
		for i := range res[d] {
			res[d][i] += ext[d]
		}
	}
	return res
}

// divergence of a vector field
func divergence(dims []int, j [][]float64) []float64 {
	out := make([]float64, lib.Prod(dims))
	for d := range dims {
		h := lib.Fwd(dims, j[d])
		for i := range h {
			f := lib.FreqOf(dims, i)
			if nyquist(f[d]) {
				h[i] = 0
			} else {
				h[i] *= complex(0, 2*math.Pi*f[d])
			}
		}
		for i, v := range lib.Inv(dims, h) {
			out[i] += real(v)
		}
	}
	return out
}

func ohm(sig [][][]float64, e [][]float64) [][]float64 {
	dim := len(e)
	j := make([][]float64, dim)
	for d := range j {
		j[d] = make([]float64, len(e[0]))
		for i := range j[d] {
			for k := 0; k < dim; k++ {
				j[d][i] += sig[i][d][k] * e[k][i]
			}
		}
	}
	return j
}

func uniformTensors(n int, s [][]float64) [][][]float64 {
	res := make([][][]float64, n)
	for i := range res {
		res[i] = s
	}
	return res
}

func randTensors(r *rand.Rand, dims []int) [][][]float64 {
	n := lib.Prod(dims)
	if r.Intn(4) == 0 {
		return uniformTensors(n, randTensor(r, len(dims)))
	}
	res := make([][][]float64, n)
	for i := range res {
		res[i] = randTensor(r, len(dims))
	}
	return res
}

func randExt(r *rand.Rand, dim int) []float64 {
	e := make([]float64, dim)
	for i := range e {
		e[i] = r.NormFloat64()
	}
	if r.Intn(4) == 0 {
		e[r.Intn(dim)] = 0
	}
	return e
}

// currents of given charges, and their divergence in a model
func currents(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 9, 300)
	n := lib.Prod(dims)
	rho := lib.RandField(r, dims, math.Exp(4*r.Float64()-2))
	if r.Intn(8) == 0 {
		rho = make([]float64, n)
	}
	sig := randTensors(r, dims)
	ext := randExt(r, len(dims))
	c.Notef("dims %v external field %v", dims, ext)
	ct := pf.ChargeTransport{
		Conductivity:  func(i int) []float64 { return pack(sig[i]) },
		ExternalField: ext,
		Field:         "rho",
		FT:            pfutil.NewFFTW(dims),
	}
	e := efield(dims, rho, ext)
	want := ohm(sig, e)
	scale := 1e-3
	for d := range want {
		if v := lib.MaxAbsR(want[d]); v > scale {
			scale = v
		}
	}
	judge := func(what string, got [][]float64) {
		if len(got) != len(dims) {
			c.Fatalf("current", "%d components in %d dimensions", len(got), len(dims))
		}
		for d := range got {
			if diff, i := lib.DiffR(got[d], want[d]); !(diff <= 1e-9*scale) {
				c.Fatalf("current", "%s: component %d at %v is %v, expected %v", what, d, lib.PosOf(dims, i), got[d][i], want[d][i])
			}
			c.Count("currents", n)
		}
	}
	fld := pf.NewField("rho", n, lib.ToC(rho))
	judge("real space density", ct.Current(fld, n, true))
	if d, _ := lib.DiffR(lib.Re(fld.Data), rho); d != 0 {
		c.Fatalf("input", "the density passed was changed by %v", d)
	}
	hat := pf.NewField("rho", n, lib.Fwd(dims, rho))
	judge("transformed density", ct.Current(hat, n, false))
	judge("second evaluation", ct.Current(fld, n, true))

	// inside a model, next to another term and another field
	mod := pf.NewModel()
	mod.AddField(pf.NewField("rho", n, lib.ToC(rho)))
	other := lib.RandField(r, dims, 1)
	mod.AddField(pf.NewField("temp", n, lib.ToC(other)))
	mod.RegisterExplicitTerm("CHARGE", &ct, nil)
	k := r.NormFloat64()
	mod.AddScalar(pf.NewScalar("KKK", complex(k, 0)))
	sgn := 1.0
	switch r.Intn(3) {
	case 0:
		mod.AddEquation("drho/dt = CHARGE + KKK*temp")
	case 1:
		mod.AddEquation("drho/dt = KKK*temp + CHARGE")
	default:
		mod.AddEquation("drho/dt = KKK*temp - CHARGE")
		sgn = -1
	}
	mod.AddEquation("dtemp/dt = KKK*rho")
	dt := 0.1 * r.Float64()
	s := pf.NewSolver(&mod, dims, dt)
	y, z := append([]float64{}, rho...), append([]float64{}, other...)
	for step := 0; step < 1+r.Intn(4); step++ {
		if r.Intn(2) == 0 {
			// conductors and the applied field change with time
			sig = randTensors(r, dims)
			copy(ext, randExt(r, len(dims)))
			c.Count("conductors_changed", 1)
		}
		j := ohm(sig, efield(dims, y, ext))
		div := divergence(dims, j)
		size := 1 + lib.MaxAbsR(y) + lib.MaxAbsR(z) + dt*lib.MaxAbsR(div)
		q0, q1 := 0.0, 0.0
		yn := make([]float64, n)
		for i := range y {
			q0 += y[i] + dt*k*z[i]
			yn[i] = y[i] + dt*(-sgn*div[i]+k*z[i])
			z[i] += dt * k * y[i]
		}
		s.Solve(1, 1)
		f := lib.Fields(&mod)
		if d, i := lib.DiffR(f[0], yn); !(d <= 1e-9*size*(1+scale)) {
			c.Fatalf("divergence", "step %d of %v: charge at %v is %v, expected %v", step, dt, lib.PosOf(dims, i), f[0][i], yn[i])
		}
		for i := range yn {
			q1 += f[0][i]
		}
		if !(math.Abs(q1-q0) <= 1e-11*size*float64(n)) {
			c.Fatalf("charge", "transport changes the total charge from %v to %v", q0, q1)
		}
		copy(y, f[0])
		c.Count("steps", 1)
		if !(lib.MaxAbsR(y) < 1e6) {
			break
		}
		copy(z, f[1])
	}
	c.Key("%v", dims)
}

// in a uniform conductor charges decay with the rate k.sigma.k/k^2
func decay(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 9, 300)
	n := lib.Prod(dims)
	s := randTensor(r, len(dims))
	rho := lib.RandField(r, dims, 1)
	ct := pf.ChargeTransport{Conductivity: func(i int) []float64 { return pack(s) }, ExternalField: randExt(r, len(dims)), Field: "rho", FT: pfutil.NewFFTW(dims)}
	mod := pf.NewModel()
	mod.AddField(pf.NewField("rho", n, lib.ToC(rho)))
	mod.RegisterExplicitTerm("CHARGE", &ct, nil)
	mod.AddEquation("drho/dt = CHARGE")
	tr := 0.0
	for i := range s {
		tr += s[i][i]
	}
	dt := r.Float64() / (tr + 1e-3)
	sol := pf.NewSolver(&mod, dims, dt)
	stepper := "euler"
	if r.Intn(2) == 0 {
		stepper = "rk4"
		sol.SetStepper("rk4")
	}
	ns := 1 + r.Intn(5)
	sol.Solve(1, ns)
	c.Notef("dims %v sigma %v dt %v %s %d steps", dims, s, dt, stepper, ns)
	h0, h1 := lib.Fwd(dims, rho), lib.Fwd(dims, lib.Fields(&mod)[0])
	for i := range h0 {
		f := lib.FreqOf(dims, i)
		k2 := lib.K2(f) / (4 * math.Pi * math.Pi)
		rate := 0.0
		if k2 > 0 {
			for a := range f {
				for b := range f {
					if !nyquist(f[a]) && !nyquist(f[b]) {
						rate += f[a] * s[a][b] * f[b] / k2
					}
				}
			}
		}
		x := -rate * dt
		g := 1 + x
		if stepper == "rk4" {
			g = 1 + x + x*x/2 + x*x*x/6 + x*x*x*x/24
		}
		w := h0[i] * complex(math.Pow(g, float64(ns)), 0)
		if g < 0 && ns%2 == 1 {
			w = h0[i] * complex(-math.Pow(-g, float64(ns)), 0)
		} else if g < 0 {
			w = h0[i] * complex(math.Pow(-g, float64(ns)), 0)
		}
		d := h1[i] - w
		if !(math.Hypot(real(d), imag(d)) <= 1e-9*(1+lib.MaxAbs(h0))) {
			c.Fatalf("decay", "%s: amplitude of %v is %v after %d steps of %v, expected %v (rate %v)", stepper, f, h1[i], ns, dt, w, rate)
		}
	}
	c.Count("amplitudes", n)
	c.Key("%s %v", stepper, dims)
}

// layers of different conductors reach the currents of resistors in series and in parallel
func layers(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 4, 60)
	ax := r.Intn(len(dims))
	dims[ax] = 3 + 2*r.Intn(4)
	n := lib.Prod(dims)
	sg := make([]float64, dims[ax])
	inv, max := 0.0, 0.0
	for i := range sg {
		sg[i] = 0.5 + 2*r.Float64()
		inv += 1 / sg[i]
		if sg[i] > max {
			max = sg[i]
		}
	}
	inv /= float64(len(sg))
	ext := randExt(r, len(dims))
	ct := pf.ChargeTransport{
		Conductivity: func(i int) []float64 {
			s := make([]float64, len(dims)*(len(dims)+1)/2)
			for d := range dims {
				s[d] = sg[lib.PosOf(dims, i)[ax]]
			}
			return s
		},
		ExternalField: ext, Field: "rho", FT: pfutil.NewFFTW(dims)}
	mod := pf.NewModel()
	mod.AddField(pf.NewField("rho", n, nil))
	mod.RegisterExplicitTerm("CHARGE", &ct, nil)
	mod.AddEquation("drho/dt = CHARGE")
	dt := 0.9 / max
	s := pf.NewSolver(&mod, dims, dt)
	s.Solve(1, 120)
	c.Notef("dims %v axis %d layers %v field %v", dims, ax, sg, ext)
	j := ct.Current(mod.Fields[0], n, true)
	for i := 0; i < n; i++ {
		l := lib.PosOf(dims, i)[ax]
		for d := range dims {
			want := sg[l] * ext[d]
			if d == ax {
				want = ext[d] / inv
			}
			if !(math.Abs(j[d][i]-want) <= 1e-6*(1+math.Abs(want))) {
				c.Fatalf("layers", "component %d of the stationary current at %v is %v, expected %v", d, lib.PosOf(dims, i), j[d][i], want)
			}
		}
	}
	c.Count("stationary_currents", n)
	c.Key("%v axis%d", dims, ax)
}

func main() {
	lib.Main(lib.Prop{ID: "C26", Level: "exploration", CPULimit: 200,
		Rule: "Random charge densities, conductivity tensors (a different full tensor in every node), external fields and 2D/3D domains: every component of the current is compared with Ohm's law applied to an independently solved Poisson equation, every step with the divergence of that current, the total charge with its initial value, the decay in uniform conductors with its rate per wave vector, and stationary currents through layers with resistors in series and in parallel. Non-trivial: currents compared; classes are domains.",
		Groups: []lib.Group{
			{Name: "currents", Quick: 1200, Thorough: 25000, Run: currents},
			{Name: "decay", Quick: 600, Thorough: 12000, Run: decay},
			{Name: "layers", Quick: 150, Thorough: 3000, Run: layers},
		}})
}
