// C19: the elastic driving force is minus the derivative of the elastic energy.
package main

import (
	"math"
	"math/rand"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"gonum.org/v1/gonum/mat"
	"verif/lib"
)

var vm = [3][3]int{{0, 5, 4}, {5, 1, 3}, {4, 3, 2}}

type mater struct {
	t   [3][3][3][3]float64
	lib elasticity.Rank4
	mis [3][3]float64
	md  *mat.Dense
	sig [3][3]float64
	e0  float64
}

// material draws stiffness and misfit; planar: no coupling between in-plane and out-of-plane shear
func material(r *rand.Rand, planar bool) *mater {
	m := &mater{}
	var a, v [6][6]float64
	for i := range a {
		for j := range a[i] {
			a[i][j] = r.NormFloat64()
		}
	}
	s := math.Pow(10, float64(r.Intn(4)-1))
	for i := range a {
		for j := range a {
			for k := range a {
				v[i][j] += s * a[i][k] * a[j][k] * 0.2
			}
		}
		v[i][i] += s * (0.5 + r.Float64())
	}
	oop := func(i int) bool { return i == 3 || i == 4 }
	var fl []float64
	for i := range v {
		for j := range v {
			if planar && oop(i) != oop(j) {
				v[i][j] = 0
			}
			fl = append(fl, v[i][j])
		}
	}
	m.lib = elasticity.FromFlatVoigt(fl)
	if r.Intn(4) == 0 {
		b, p := 10+50*r.Float64(), 0.45*r.Float64()
		m.lib = elasticity.Isotropic(b, p)
		mu := 3 * b * (1 - 2*p) / (2 * (1 + p))
		v = [6][6]float64{}
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				v[i][j] = b - 2*mu/3
			}
			v[i][i] = b + 4*mu/3
			v[i+3][i+3] = mu
		}
	}
	m.md = mat.NewDense(3, 3, nil)
	sc := math.Pow(10, float64(-r.Intn(4)))
	for i := 0; i < 3; i++ {
		for j := i; j < 3; j++ {
			x := r.NormFloat64() * sc
			if r.Intn(4) == 0 || (planar && i != j && j == 2) {
				x = 0
			}
			m.mis[i][j], m.mis[j][i] = x, x
			m.md.Set(i, j, x)
			m.md.Set(j, i, x)
		}
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					m.t[i][j][k][l] = v[vm[i][j]][vm[k][l]]
					m.sig[i][j] += m.t[i][j][k][l] * m.mis[k][l]
				}
			}
		}
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			m.e0 += 0.5 * m.sig[i][j] * m.mis[i][j]
		}
	}
	return m
}

func solve3(K [3][3]float64, f [3]float64) [3]float64 {
	det := func(a [3][3]float64) float64 {
		return a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0])
	}
	d := det(K)
	var u [3]float64
	for i := 0; i < 3; i++ {
		A := K
		for j := 0; j < 3; j++ {
			A[j][i] = f[j]
		}
		u[i] = det(A) / d
	}
	return u
}

// relax is the relative relaxation energy of a plane wave: sigma.n.u for unit amplitude
func (m *mater) relax(k []float64, truncated bool) float64 {
	if k[0] == 0 && k[1] == 0 && k[2] == 0 {
		return 0
	}
	var K [3][3]float64
	var f [3]float64
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			for j := 0; j < 3; j++ {
				for l := 0; l < 3; l++ {
					K[a][b] += m.t[a][j][b][l] * k[j] * k[l]
				}
			}
			f[a] += m.sig[a][b] * k[b]
		}
	}
	full := f
	if truncated {
		f[2], full[2] = 0, 0
	}
	u := solve3(K, f)
	return full[0]*u[0] + full[1]*u[1] + full[2]*u[2]
}

func h(x float64) float64  { return 3*x*x - 2*x*x*x }
func hd(x float64) float64 { return 6*x - 6*x*x }

func freq3(dims []int, i int) []float64 {
	f := lib.FreqOf(dims, i)
	for len(f) < 3 {
		f = append(f, 0)
	}
	return f
}

func (m *mater) energy(dims []int, eta []float64) float64 {
	n := len(eta)
	th := make([]float64, n)
	e := 0.0
	for i, x := range eta {
		th[i] = h(x)
		e += m.e0 * th[i] * th[i]
	}
	for i, a := range lib.Fwd(dims, th) {
		e -= 0.5 * m.relax(freq3(dims, i), false) * (real(a)*real(a) + imag(a)*imag(a)) / float64(n)
	}
	return e
}

// force is -dE/deta at every node
func (m *mater) force(dims []int, eta []float64, truncated bool) []float64 {
	th := make([]float64, len(eta))
	for i, x := range eta {
		th[i] = h(x)
	}
	ft := lib.Fwd(dims, th)
	for i := range ft {
		ft[i] *= complex(m.relax(freq3(dims, i), truncated), 0)
	}
	out := lib.Re(lib.Inv(dims, ft))
	for i, x := range eta {
		out[i] = hd(x) * (out[i] - 2*m.e0*th[i])
	}
	return out
}

func mkEta(r *rand.Rand, dims []int, frozen int) []float64 {
	eta := lib.RandField(r, dims, 0.5)
	for i := range eta {
		eta[i] += 0.5
	}
	if r.Intn(2) == 0 {
		for i := range eta {
			eta[i] = math.Max(0, math.Min(1, eta[i]))
		}
	}
	if frozen >= 0 {
		for i := range eta {
			p := lib.PosOf(dims, i)
			p[frozen] = 0
			eta[i] = eta[lib.Idx(dims, p)]
		}
	}
	return eta
}

func oddDims(r *rand.Rand, dim int) ([]int, int) {
	dims := make([]int, dim)
	for i := range dims {
		dims[i] = 1 + 2*r.Intn(4)
	}
	frozen := -1
	if r.Intn(4) == 0 {
		// one axis with an even number of nodes, along which nothing varies
		frozen = r.Intn(dim)
		dims[frozen] = 2 + 2*r.Intn(3)
	}
	return dims, frozen
}

func eval(dims []int, m *mater, eta []float64, term *pf.HomogeneousModulusLinElast) []complex128 {
	n := len(eta)
	copy(term.Field, eta)
	f := pf.NewField("eta", n, lib.ToC(eta))
	fn := term.Construct(map[string]pf.Brick{"eta": f})
	out := make([]complex128, n)
	for i := range out {
		out[i] = complex(7, 7) // overwritten by the term
	}
	fn(lib.FreqFunc(dims), 0, out)
	return lib.Inv(dims, out)
}

func gradient(c *lib.Case) {
	r := c.R
	dim := 2 + r.Intn(2)
	dims, frozen := oddDims(r, dim)
	m := material(r, dim == 2)
	eta := mkEta(r, dims, frozen)
	c.Notef("%v eta %v..", dims, eta[0])
	term := pf.NewHomogeneousModolus("eta", dims, m.lib, m.md)
	got := eval(dims, m, eta, term)
	want := m.force(dims, eta, false)
	sc := math.Abs(m.e0)*(1+lib.MaxAbsR(want)/(1e-300+math.Abs(m.e0))) + 1e-300
	if d, i := lib.Diff(got, lib.ToC(want)); !(d <= 1e-9*sc) {
		c.Fatalf("force", "driving force at node %d of %v is %v, minus the derivative of the energy is %v", i, dims, got[i], want[i])
	}
	c.Count("nodes", len(eta))
	// the oracle itself against a difference quotient of the energy
	i := r.Intn(len(eta))
	d := 1e-5
	e := append([]float64{}, eta...)
	e[i] += d
	hi := m.energy(dims, e)
	e[i] -= 2 * d
	lo := m.energy(dims, e)
	if q := -(hi - lo) / (2 * d); math.Abs(q-want[i]) > 1e-4*(sc+math.Abs(hi)) {
		c.Inconclusive("the oracle disagrees with itself: %v %v", q, want[i])
	}
	// energies agree with the library for regions of zero and one
	c.Key("%v", dims)
}

// 2D with coupling to out-of-plane shear
func outofplane(c *lib.Case) {
	r := c.R
	dims, frozen := oddDims(r, 2)
	m := material(r, false)
	eta := mkEta(r, dims, frozen)
	term := pf.NewHomogeneousModolus("eta", dims, m.lib, m.md)
	got := eval(dims, m, eta, term)
	want := m.force(dims, eta, false)
	tr := m.force(dims, eta, true)
	sc := math.Abs(m.e0) + lib.MaxAbsR(want)
	if d, i := lib.Diff(got, lib.ToC(want)); !(d <= 1e-9*sc) {
		if d2, _ := lib.Diff(got, lib.ToC(tr)); d2 <= 1e-9*sc {
			c.Failf("ignored", "driving force at node %d of %v is %v, minus the derivative of the energy is %v: out-of-plane displacements are ignored", i, dims, got[i], want[i])
		} else {
			c.Fatalf("force", "driving force at node %d of %v is %v, minus the derivative of the energy is %v", i, dims, got[i], want[i])
		}
	}
	c.Key("%v", dims)
}

// in a model the term follows the field: each Euler step uses the field it starts from
func model(c *lib.Case) {
	r := c.R
	dim := 2 + r.Intn(2)
	dims, frozen := oddDims(r, dim)
	m := material(r, dim == 2)
	eta := mkEta(r, dims, frozen)
	n := len(eta)
	two := r.Intn(2) == 0
	eta2 := mkEta(r, dims, frozen)
	mod := pf.NewModel()
	term := pf.NewHomogeneousModolus("eta", dims, m.lib, m.md)
	copy(term.Field, eta)
	mod.AddField(pf.NewField("eta", n, lib.ToC(eta)))
	mod.RegisterExplicitTerm("ELAST", term, nil)
	conserved := r.Intn(3) == 0 // conserved relaxation: the field changes while its average stays
	if conserved {
		mod.AddEquation("deta/dt = -LAP*ELAST")
	} else {
		mod.AddEquation("deta/dt = ELAST")
	}
	m2 := material(r, dim == 2)
	if two {
		term2 := pf.NewHomogeneousModolus("xi", dims, m2.lib, m2.md)
		copy(term2.Field, eta2)
		mod.AddField(pf.NewField("xi", n, lib.ToC(eta2)))
		mod.RegisterExplicitTerm("ELAST2", term2, nil)
		mod.AddEquation("dxi/dt = ELAST2")
	}
	rate := func() []float64 {
		f := m.force(dims, eta, false)
		if conserved {
			f = lib.LapPow(dims, f, 1)
			for i := range f {
				f[i] = -f[i]
			}
		}
		return f
	}
	f1 := rate()
	dt := 0.01 / (1 + lib.MaxAbsR(f1) + lib.MaxAbsR(m2.force(dims, eta2, false)))
	if conserved {
		dt /= 30
	}
	s := pf.NewSolver(&mod, dims, dt)
	e := m.energy(dims, eta)
	for step := 0; step < 4; step++ {
		f := rate()
		f2 := m2.force(dims, eta2, false)
		s.Solve(1, 1)
		cur := lib.Fields(&mod)
		for i := range eta {
			eta[i] += dt * f[i]
			eta2[i] += dt * f2[i]
		}
		if d, i := lib.DiffR(cur[0], eta); !(d <= 1e-9*(1+lib.MaxAbsR(eta))) {
			c.Fatalf("step", "step %d: field at node %d is %v, expected %v", step, i, cur[0][i], eta[i])
		}
		if two {
			if d, i := lib.DiffR(cur[1], eta2); !(d <= 1e-9*(1+lib.MaxAbsR(eta2))) {
				c.Fatalf("step", "step %d: second field at node %d is %v, expected %v", step, i, cur[1][i], eta2[i])
			}
		}
		copy(eta, cur[0])
		e2 := m.energy(dims, eta)
		// the step has to be short enough for the force to stay about the same
		fn, turned := rate(), make([]float64, n)
		for i := range fn {
			turned[i] = fn[i] - f[i]
		}
		if short := sum2(turned) < 0.1*sum2(f); short && !conserved && e2 > e+1e-3*dt*(math.Abs(e)+1e-12)+1e-3*dt*sum2(f) {
			c.Fatalf("energy", "step %d: the energy grows from %v to %v", step, e, e2)
		}
		e = e2
		c.Count("steps", 1)
	}
	c.Notef("%v dt %v", dims, dt)
	c.Key("%v two%v conserved%v", dims, two, conserved)
}

// domains with even sides: real, and moving with the field
func even(c *lib.Case) {
	r := c.R
	dims := lib.RandDims(r, 2+r.Intn(2), 2, 7)
	m := material(r, len(dims) == 2)
	eta := mkEta(r, dims, -1)
	got := eval(dims, m, eta, pf.NewHomogeneousModolus("eta", dims, m.lib, m.md))
	sc := math.Abs(m.e0) * (1 + lib.MaxAbsR(eta))
	sc += lib.MaxAbs(got)
	for i := range got {
		if !(math.Abs(imag(got[i])) <= 1e-10*sc) {
			c.Fatalf("real", "driving force at node %d of %v is %v", i, dims, got[i])
		}
	}
	sh := make([]int, len(dims))
	for d := range sh {
		sh[d] = r.Intn(dims[d])
	}
	moved := make([]float64, len(eta))
	to := make([]int, len(eta))
	for i := range eta {
		p := lib.PosOf(dims, i)
		for d := range p {
			p[d] = (p[d] + sh[d]) % dims[d]
		}
		to[i] = lib.Idx(dims, p)
		moved[to[i]] = eta[i]
	}
	g2 := eval(dims, m, moved, pf.NewHomogeneousModolus("eta", dims, m.lib, m.md))
	for i := range got {
		if !(math.Abs(real(got[i])-real(g2[to[i]])) <= 1e-9*sc) {
			c.Fatalf("moved", "driving force at node %d of %v is %v, after moving the field by %v it is %v", i, dims, got[i], sh, g2[to[i]])
		}
	}
	c.Key("%v", dims)
}

func sum2(f []float64) float64 {
	s := 0.0
	for _, x := range f {
		s += x * x
	}
	return s
}

func main() {
	lib.Main(lib.Prop{ID: "C19", Level: "exploration", CPULimit: 200,
		Rule:   "Random stiffness, misfit, order parameter (including values outside 0..1, sharp and smooth) and 2D/3D domains; the term's value at every node is compared with minus the derivative of the elastic energy, computed in closed form and cross-checked with a difference quotient of the energy; in a model, every step of one or two elastic fields is compared with the update by this force, and the energy decreases. Non-trivial: all nodes compared; classes are domains.",
		Assume: []string{"domains with an odd number of nodes along every axis on which the field varies (the highest frequency is left out of the strains otherwise)", "the first step uses the values in term.Field, as set by the user"},
		Groups: []lib.Group{
			{Name: "gradient", Quick: 800, Thorough: 12000, Run: gradient},
			{Name: "outofplane", Quick: 100, Thorough: 1500, Run: outofplane},
			{Name: "even", Quick: 300, Thorough: 3000, Run: even},
			{Name: "model", Quick: 400, Thorough: 6000, Run: model},
		}})
}
