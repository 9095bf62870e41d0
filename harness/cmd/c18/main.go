// C18: elastic tensors, displacements, strains and energies.
package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"math/rand"

	"github.com/davidkleiven/gopf/elasticity"
	"gonum.org/v1/gonum/mat"
	"verif/lib"
)

type t4 [3][3][3][3]float64

// voigt index
var vm = [3][3]int{{0, 5, 4}, {5, 1, 3}, {4, 3, 2}}

func fromVoigt(v [6][6]float64) t4 {
	var t t4
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					t[i][j][k][l] = v[vm[i][j]][vm[k][l]]
				}
			}
		}
	}
	return t
}

// stable draws a positive definite stiffness without further symmetry
func stable(r *rand.Rand) [6][6]float64 {
	var a, v [6][6]float64
	for i := range a {
		for j := range a[i] {
			a[i][j] = r.NormFloat64()
		}
	}
	s := math.Pow(10, float64(r.Intn(5)-1))
	for i := range a {
		for j := range a {
			for k := range a {
				v[i][j] += s * a[i][k] * a[j][k] * 0.2
			}
		}
		v[i][i] += s * (0.5 + r.Float64())
	}
	return v
}

func flat(v [6][6]float64) []float64 {
	var out []float64
	for i := range v {
		out = append(out, v[i][:]...)
	}
	return out
}

func maxT(t *t4) float64 {
	m := 0.0
	each(func(i, j, k, l int) { m = math.Max(m, math.Abs(t[i][j][k][l])) })
	return m
}

func each(f func(i, j, k, l int)) {
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					f(i, j, k, l)
				}
			}
		}
	}
}

func same(c *lib.Case, what string, got elasticity.Rank4Tensor, want *t4) {
	tol := 1e-11 * (1e-300 + maxT(want))
	each(func(i, j, k, l int) {
		if !(math.Abs(got.At(i, j, k, l)-want[i][j][k][l]) <= tol) {
			c.Fatalf("tensor", "%s: element %d%d%d%d is %v, expected %v", what, i, j, k, l, got.At(i, j, k, l), want[i][j][k][l])
		}
	})
	c.Count("tensor_elements", 81)
}

func rotM(r *rand.Rand) (*mat.Dense, [3][3]float64) {
	// product of rotations about the axes, from the library, and the same computed here
	out := [3][3]float64{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
	lm := mat.NewDense(3, 3, []float64{1, 0, 0, 0, 1, 0, 0, 0, 1})
	for n := 1 + r.Intn(3); n > 0; n-- {
		R := elasticity.RotationMatrix(r.NormFloat64()*2, r.Intn(3))
		var p mat.Dense
		p.Mul(R, lm)
		lm = mat.DenseCopyOf(&p)
	}
	for i := range out {
		for j := range out[i] {
			out[i][j] = lm.At(i, j)
		}
	}
	return lm, out
}

func rotate(t *t4, R [3][3]float64) t4 {
	cur := *t
	// one index at a time
	for idx := 0; idx < 4; idx++ {
		var n t4
		each(func(i, j, k, l int) {
			x := [4]int{i, j, k, l}
			s := 0.0
			for m := 0; m < 3; m++ {
				y := x
				y[idx] = m
				s += R[x[idx]][m] * cur[y[0]][y[1]][y[2]][y[3]]
			}
			n[i][j][k][l] = s
		})
		cur = n
	}
	return cur
}

func symM(r *rand.Rand, scale float64) (*mat.Dense, [3][3]float64) {
	var m [3][3]float64
	d := mat.NewDense(3, 3, nil)
	for i := 0; i < 3; i++ {
		for j := i; j < 3; j++ {
			v := r.NormFloat64() * scale
			if r.Intn(4) == 0 {
				v = 0
			}
			m[i][j], m[j][i] = v, v
			d.Set(i, j, v)
			d.Set(j, i, v)
		}
	}
	return d, m
}

func contract(t *t4, m [3][3]float64) [3][3]float64 {
	var o [3][3]float64
	each(func(i, j, k, l int) { o[i][j] += t[i][j][k][l] * m[k][l] })
	return o
}

func dens(t *t4, m [3][3]float64) float64 {
	s := 0.0
	o := contract(t, m)
	for i := range o {
		for j := range o {
			s += 0.5 * o[i][j] * m[i][j]
		}
	}
	return s
}

func tensors(c *lib.Case) {
	r := c.R
	var want t4
	var got elasticity.Rank4
	kind := r.Intn(3)
	switch kind {
	case 0:
		b, p := 1+r.Float64()*100, -0.4+0.85*r.Float64()
		mu := 3 * b * (1 - 2*p) / (2 * (1 + p))
		lam := b - 2*mu/3
		if math.Abs(elasticity.Shear(b, p)-mu) > 1e-12*mu {
			c.Fatalf("shear", "shear modulus %v, expected %v", elasticity.Shear(b, p), mu)
		}
		d := func(i, j int) float64 {
			if i == j {
				return 1
			}
			return 0
		}
		each(func(i, j, k, l int) {
			want[i][j][k][l] = lam*d(i, j)*d(k, l) + mu*(d(i, k)*d(j, l)+d(i, l)*d(j, k))
		})
		got = elasticity.Isotropic(b, p)
		c.Notef("isotropic %v %v", b, p)
	case 1:
		c11, c12, c44 := 50+r.Float64()*100, 40*r.Float64(), 5+r.Float64()*60
		var v [6][6]float64
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				v[i][j] = c12
			}
			v[i][i] = c11
			v[3+i][3+i] = c44
		}
		want = fromVoigt(v)
		got = elasticity.CubicMaterial(c11, c12, c44)
		c.Notef("cubic %v %v %v", c11, c12, c44)
	default:
		v := stable(r)
		want = fromVoigt(v)
		got = elasticity.FromFlatVoigt(flat(v))
		c.Notef("voigt")
	}
	same(c, "constructor", &got, &want)
	// contraction and energy
	m, mm := symM(r, 1)
	o := contract(&want, mm)
	oo := got.ContractLast(m)
	sc := maxT(&want)
	for i := range o {
		for j := range o {
			if !(math.Abs(oo.At(i, j)-o[i][j]) <= 1e-11*sc*9) {
				c.Fatalf("contract", "contraction (%d,%d) is %v, expected %v", i, j, oo.At(i, j), o[i][j])
			}
		}
	}
	e := dens(&want, mm)
	if g := elasticity.EnergyDensity(&got, m); !(math.Abs(g-e) <= 1e-10*(e+sc*1e-3)) {
		c.Fatalf("energy", "energy density %v, expected %v", g, e)
	}
	// a tensor that is not symmetric in any way, rotated
	gen := elasticity.NewRank4()
	var genT t4
	each(func(i, j, k, l int) {
		genT[i][j][k][l] = r.NormFloat64()
		gen.Set(i, j, k, l, genT[i][j][k][l])
	})
	same(c, "set", &gen, &genT)
	lm, R := rotM(r)
	var id mat.Dense
	id.Mul(lm, lm.T())
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			w := 0.0
			if i == j {
				w = 1
			}
			if math.Abs(id.At(i, j)-w) > 1e-12 {
				c.Fatalf("rotation", "rotation matrix is not orthogonal: %v", R)
			}
		}
	}
	if d := mat.Det(lm); math.Abs(d-1) > 1e-12 {
		c.Fatalf("rotation", "rotation matrix has determinant %v", d)
	}
	wantR := rotate(&genT, R)
	gen.Rotate(lm)
	same(c, "rotated", &gen, &wantR)
	gen.Rotate(lm.T())
	same(c, "rotated back", &gen, &genT)
	if kind == 0 {
		got.Rotate(lm)
		same(c, "rotated isotropic", &got, &want)
	}
	// rotations about one axis form a group, keep the axis and turn by the angle
	ax := r.Intn(3)
	a, b := r.NormFloat64(), r.NormFloat64()
	var ab mat.Dense
	ab.Mul(elasticity.RotationMatrix(a, ax), elasticity.RotationMatrix(b, ax))
	s := elasticity.RotationMatrix(a+b, ax)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if math.Abs(ab.At(i, j)-s.At(i, j)) > 1e-12 {
				c.Fatalf("rotation", "rotations by %v and %v about axis %d do not add up", a, b, ax)
			}
		}
	}
	if tr := s.At(0, 0) + s.At(1, 1) + s.At(2, 2); math.Abs(tr-1-2*math.Cos(a+b)) > 1e-12 || math.Abs(s.At(ax, ax)-1) > 1e-12 {
		c.Fatalf("rotation", "not a rotation by %v about axis %d", a+b, ax)
	}
	c.Key("kind%d axis%d", kind, ax)
}

func odd(r *rand.Rand, dim, max int) []int {
	d := make([]int, dim)
	for i := range d {
		d[i] = 1 + 2*r.Intn((max+1)/2)
	}
	return d
}

// freq3 pads the frequency of a node to three components
func freq3(dims []int, i int) []float64 {
	f := lib.FreqOf(dims, i)
	for len(f) < 3 {
		f = append(f, 0)
	}
	return f
}

func acoustic(t *t4, k []float64) [3][3]complex128 {
	var K [3][3]complex128
	for m := 0; m < 3; m++ {
		for n := 0; n < 3; n++ {
			s := 0.0
			for j := 0; j < 3; j++ {
				for l := 0; l < 3; l++ {
					s += t[m][j][n][l] * k[j] * k[l]
				}
			}
			K[m][n] = complex(s*4*math.Pi*math.Pi, 0)
		}
	}
	return K
}

func solve3(K [3][3]complex128, f [3]complex128) [3]complex128 {
	det := func(a [3][3]complex128) complex128 {
		return a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0])
	}
	d := det(K)
	var u [3]complex128
	for i := 0; i < 3; i++ {
		A := K
		for j := 0; j < 3; j++ {
			A[j][i] = f[j]
		}
		u[i] = det(A) / d
	}
	return u
}

// the displacements balance the force, and the strains are the derivatives of the displacements
func balance(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 7, 150)
	n := lib.Prod(dims)
	v := stable(r)
	T := fromVoigt(v)
	C := elasticity.FromFlatVoigt(flat(v))
	freq := func(i int) []float64 { return freq3(dims, i) }
	force := make([][]complex128, n)
	keep := make([][]complex128, n)
	amp := math.Pow(10, float64(r.Intn(9)-4))
	only := r.Intn(8) // forces along some of the axes only
	for i := range force {
		force[i] = make([]complex128, 3)
		for j := range force[i] {
			if only < 6 && (only == j || only == j+3 || only == (j+1)%3+3) {
				continue
			}
			force[i][j] = complex(r.NormFloat64(), r.NormFloat64()) * complex(amp, 0)
		}
		keep[i] = append([]complex128{}, force[i]...)
	}
	u := elasticity.Displacements(force, freq, &C)
	if len(u) != n {
		c.Fatalf("disp", "%d displacements for %d nodes", len(u), n)
	}
	for i := range u {
		k := freq(i)
		K := acoustic(&T, k)
		zero := k[0] == 0 && k[1] == 0 && k[2] == 0
		for m := 0; m < 3; m++ {
			if force[i][m] != keep[i][m] {
				c.Fatalf("disp", "the force was changed")
			}
			if zero {
				if u[i][m] != 0 {
					c.Fatalf("disp", "uniform displacement %v", u[i][m])
				}
				continue
			}
			s, sc := complex(0, 0), 0.0
			for q := 0; q < 3; q++ {
				s += K[m][q] * u[i][q]
				sc += cmplx.Abs(K[m][q] * u[i][q])
				if g := elasticity.DisplacementMatrixElement(m, q, k, &C); math.Abs(g-real(K[m][q])) > 1e-11*maxT(&T)*40 {
					c.Fatalf("disp", "element (%d,%d) of the matrix for wave vector %v is %v, expected %v", m, q, k, g, real(K[m][q]))
				}
			}
			if d := cmplx.Abs(s - keep[i][m]); !(d <= 1e-9*(sc+amp)) {
				c.Fatalf("disp", "wave vector %v: force %v, the displacements balance %v", k, keep[i][m], s)
			}
		}
	}
	c.Count("force_balances", n)
	// strains of an analytical displacement
	var tp [3]lib.TrigPoly
	ft := make([][]complex128, n)
	for i := range ft {
		ft[i] = make([]complex128, 3)
	}
	for m := 0; m < 3; m++ {
		tp[m] = lib.NewTrigPoly(r, dims, 4, func(n int) int { return (n - 1) / 2 }, 1)
		for i, a := range lib.Fwd(dims, tp[m].Field(make([]int, len(dims)))) {
			ft[i][m] = a
		}
	}
	der := func(m, d int) []float64 {
		if d >= len(dims) {
			return make([]float64, n)
		}
		o := make([]int, len(dims))
		o[d] = 1
		return tp[m].Field(o)
	}
	for p := 0; p < 3; p++ {
		for q := 0; q < 3; q++ {
			s := lib.Inv(dims, elasticity.Strain(ft, freq, p, q))
			a, b := der(p, q), der(q, p)
			for i := range s {
				w := 0.5 * (a[i] + b[i])
				if cmplx.Abs(s[i]-complex(w, 0)) > 1e-9*(1+math.Abs(w)) {
					c.Fatalf("strain", "strain (%d,%d) at node %d of %v is %v, expected %v", p, q, i, dims, s[i], w)
				}
			}
			c.Count("strains", n)
		}
	}
	// real displacements with any content have real strains, equal to the spectral derivative
	var raw [3][]float64
	for m := 0; m < 3; m++ {
		raw[m] = lib.RandField(r, dims, 1)
		for i, a := range lib.Fwd(dims, raw[m]) {
			ft[i][m] = a
		}
	}
	sd := func(m, d int) []float64 {
		if d >= len(dims) {
			return make([]float64, n)
		}
		return lib.Deriv(dims, raw[m], d)
	}
	for p := 0; p < 3; p++ {
		for q := 0; q < 3; q++ {
			s := lib.Inv(dims, elasticity.Strain(ft, freq, p, q))
			a, b := sd(p, q), sd(q, p)
			for i := range s {
				w := 0.5 * (a[i] + b[i])
				if cmplx.Abs(s[i]-complex(w, 0)) > 1e-9*(1+math.Abs(w)+lib.MaxAbsR(raw[p])+lib.MaxAbsR(raw[q])) {
					c.Fatalf("strain", "strain (%d,%d) of a rough field at node %d of %v is %v, expected %v", p, q, i, dims, s[i], w)
				}
			}
			c.Count("strains", n)
		}
	}
	c.Notef("%v amp %v", dims, amp)
	c.Key("%v", dims)
}

// khachaturyan is the closed expression for the elastic energy of a region with misfit in a
// homogeneous, clamped, periodic domain
func khachaturyan(T *t4, mis [3][3]float64, dims []int, theta []float64) float64 {
	n := lib.Prod(dims)
	sig := contract(T, mis)
	ft := lib.Fwd(dims, theta)
	e := 0.0
	for _, t := range theta {
		e += t * t * dens(T, mis)
	}
	for i := range ft {
		k := freq3(dims, i)
		if k[0] == 0 && k[1] == 0 && k[2] == 0 {
			continue
		}
		K := acoustic(T, k)
		var f [3]complex128
		for m := 0; m < 3; m++ {
			for j := 0; j < 3; j++ {
				f[m] += complex(sig[m][j]*k[j]*2*math.Pi, 0)
			}
		}
		u := solve3(K, f)
		s := 0.0
		for m := 0; m < 3; m++ {
			s += real(f[m] * u[m])
		}
		e -= 0.5 * s * (real(ft[i])*real(ft[i]) + imag(ft[i])*imag(ft[i])) / float64(n)
	}
	return e
}

func indicator(r *rand.Rand, dims []int) []float64 {
	n := lib.Prod(dims)
	th := make([]float64, n)
	if r.Intn(2) == 0 {
		for i := range th {
			th[i] = float64(r.Intn(2))
		}
		th[r.Intn(n)] = 1
		return th
	}
	// a box somewhere
	lo, hi := make([]int, len(dims)), make([]int, len(dims))
	for d := range dims {
		lo[d] = r.Intn(dims[d])
		hi[d] = lo[d] + r.Intn(dims[d]-lo[d])
	}
	for i := range th {
		p := lib.PosOf(dims, i)
		in := true
		for d := range dims {
			in = in && p[d] >= lo[d] && p[d] <= hi[d]
		}
		if in {
			th[i] = 1
		}
	}
	return th
}

func homogeneous(c *lib.Case) {
	r := c.R
	dim := 2 + r.Intn(2)
	even := r.Intn(3) == 0
	dims := odd(r, dim, 9)
	if even {
		dims = lib.RandDims(r, dim, 2, 7)
	}
	v := stable(r)
	T := fromVoigt(v)
	C := elasticity.FromFlatVoigt(flat(v))
	md, mis := symM(r, 0.01*math.Pow(10, float64(r.Intn(4))))
	th := indicator(r, dims)
	in := lib.ToC(th)
	got := elasticity.HomogeneousModulusEnergy(in, dims, md, C)
	if d, i := lib.Diff(in, lib.ToC(th)); d > 1e-12 {
		c.Fatalf("indicator", "the region was changed at node %d", i)
	}
	vol := 0.0
	for _, t := range th {
		vol += t
	}
	c.Notef("%v volume %v", dims, vol)
	free := dens(&T, mis)
	if even {
		// the highest frequency is left out of the strains: no closed expression, but the energy is
		// positive and does not depend on where the region is or how the axes are named
		if !(got >= -1e-12*free) {
			c.Fatalf("energy", "negative energy %v", got)
		}
		sh := make([]int, dim)
		for d := range sh {
			sh[d] = r.Intn(dims[d])
		}
		moved := make([]complex128, len(th))
		for i := range th {
			p := lib.PosOf(dims, i)
			for d := range p {
				p[d] = (p[d] + sh[d]) % dims[d]
			}
			moved[lib.Idx(dims, p)] = complex(th[i], 0)
		}
		g2 := elasticity.HomogeneousModulusEnergy(moved, dims, md, C)
		if math.Abs(g2-got) > 1e-9*(free+got) {
			c.Fatalf("energy", "the energy %v becomes %v when the region is moved by %v", got, g2, sh)
		}
		c.Key("even %v", dims)
		return
	}
	want := khachaturyan(&T, mis, dims, th) / vol
	if !(math.Abs(got-want) <= 1e-9*(free+want)) {
		c.Fatalf("energy", "energy %v, expected %v (domain %v)", got, want, dims)
	}
	c.Count("energies", 1)
	c.Key("odd %v", dims)
}

// strains and first order correction computed here
func ownDisp(T *t4, dims []int, force [][3]complex128) [][3]complex128 {
	u := make([][3]complex128, len(force))
	for i := range u {
		k := freq3(dims, i)
		if k[0] == 0 && k[1] == 0 && k[2] == 0 {
			continue
		}
		u[i] = solve3(acoustic(T, k), force[i])
	}
	return u
}

func ownStrain(dims []int, u [][3]complex128) [][3][3]float64 {
	out := make([][3][3]float64, len(u))
	buf := make([]complex128, len(u))
	for p := 0; p < 3; p++ {
		for q := p; q < 3; q++ {
			for i := range u {
				k := freq3(dims, i)
				buf[i] = complex(0, math.Pi) * (complex(k[p], 0)*u[i][q] + complex(k[q], 0)*u[i][p])
			}
			s := lib.Inv(dims, buf)
			for i := range s {
				out[i][p][q], out[i][q][p] = real(s[i]), real(s[i])
			}
		}
	}
	return out
}

// minus the divergence of dC:(mis - eps)*shape, in Fourier space
func ownPert(T *t4, dims []int, mis [3][3]float64, eps [][3][3]float64, shape []float64) [][3]complex128 {
	n := len(eps)
	out := make([][3]complex128, n)
	for m := 0; m < 3; m++ {
		for j := 0; j < 3; j++ {
			buf := make([]float64, n)
			for i := range buf {
				for k := 0; k < 3; k++ {
					for l := 0; l < 3; l++ {
						buf[i] += T[m][j][k][l] * (mis[k][l] - eps[i][k][l]) * shape[i]
					}
				}
			}
			for i, a := range lib.Fwd(dims, buf) {
				out[i][m] -= complex(0, 2*math.Pi*freq3(dims, i)[j]) * a
			}
		}
	}
	return out
}

func add(a, b *t4, f float64) t4 {
	var o t4
	each(func(i, j, k, l int) { o[i][j][k][l] = a[i][j][k][l] + f*b[i][j][k][l] })
	return o
}

// the energy of an ellipsoid
func ellipsoid(c *lib.Case) {
	r := c.R
	N := []int{3, 5, 7, 9}[r.Intn(4)]
	dims := []int{N, N, N}
	v := stable(r)
	T := fromVoigt(v)
	p := elasticity.StrainEnergyInput{HalfA: 0.4 + float64(N)/2*r.Float64(), HalfB: 0.4 + float64(N)/2*r.Float64(), HalfC: 0.4 + float64(N)/2*r.Float64(),
		MatPropMatrix: flat(v), DomainSize: N}
	var mis [3][3]float64
	for i := 0; i < 6; i++ {
		p.Misfit = append(p.Misfit, 0.01*r.NormFloat64())
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			mis[i][j] = p.Misfit[vm[i][j]]
			if i != j {
				mis[i][j] /= 2
			}
		}
	}
	th := make([]float64, N*N*N)
	for i := range th {
		q := lib.PosOf(dims, i)
		x, y, z := float64(q[0]-N/2)/p.HalfA, float64(q[1]-N/2)/p.HalfB, float64(q[2]-N/2)/p.HalfC
		d := x*x + y*y + z*z
		if d <= 1 {
			th[i] = 1
		}
		if math.Abs(d-1) < 1e-9 {
			return // on the boundary: undecided by rounding
		}
	}
	vol := 4 * math.Pi * p.HalfA * p.HalfB * p.HalfC / 3
	het := r.Intn(2) == 0
	if !het {
		got := elasticity.CalculateStrainEnergy(p)
		want := khachaturyan(&T, mis, dims, th) / vol
		if !(math.Abs(got-want) <= 1e-9*(math.Abs(want)+dens(&T, mis))) {
			c.Fatalf("ellipsoid", "energy %v, expected %v: %+v", got, want, p)
		}
		c.Key("N%d homogeneous", N)
		return
	}
	w := stable(r)
	f := 1.0
	for i := range w {
		for j := range w {
			w[i][j] = v[i][j] + 0.2*f*w[i][j]*v[0][0]/w[0][0]
		}
	}
	// inclusions which share some of the stiffnesses with the matrix
	keep := ""
	switch r.Intn(4) {
	case 0: // one element differs
		i := r.Intn(6)
		d := w[i][i] - v[i][i]
		for a := range w {
			w[a] = v[a]
		}
		w[i][i] += d
		keep = fmt.Sprintf(" differs in %d%d", i+1, i+1)
	case 1: // normal or shear part as in the matrix
		sh := r.Intn(2) * 3
		for a := 0; a < 6; a++ {
			for b := 0; b < 6; b++ {
				if sh == 0 && a < 3 && b < 3 || sh == 3 && (a >= 3 || b >= 3) {
					w[a][b] = v[a][b]
				}
			}
		}
		keep = fmt.Sprintf(" shares %d", sh)
	}
	p.MatPropInc = flat(w)
	p.ApplyPerturbation = r.Intn(2) == 0
	T2 := fromVoigt(w)
	dT := add(&T2, &T, -1)
	sig := contract(&T, mis)
	ft := lib.Fwd(dims, th)
	force := make([][3]complex128, len(th))
	for i := range force {
		k := freq3(dims, i)
		for m := 0; m < 3; m++ {
			for j := 0; j < 3; j++ {
				force[i][m] -= complex(0, 2*math.Pi*sig[m][j]*k[j]) * ft[i]
			}
		}
	}
	u := ownDisp(&T, dims, force)
	if p.ApplyPerturbation {
		for i, d := range ownDisp(&T, dims, ownPert(&dT, dims, mis, ownStrain(dims, u), th)) {
			for m := range d {
				u[i][m] += d[m]
			}
		}
	}
	inside, everywhere := 0.0, 0.0
	for i, e := range ownStrain(dims, u) {
		for a := 0; a < 3; a++ {
			for b := 0; b < 3; b++ {
				e[a][b] -= mis[a][b] * th[i]
			}
		}
		inside += dens(&T, e) + th[i]*dens(&dT, e)
		everywhere += dens(&T2, e)
	}
	got := elasticity.CalculateStrainEnergy(p)
	tol := 1e-9 * (math.Abs(inside/vol) + dens(&T, mis))
	if !(math.Abs(got-inside/vol) <= tol) {
		if math.Abs(got-everywhere/vol) <= tol {
			c.Failf("stiffness-of-inclusion-everywhere", "energy %v: the stiffness of the inclusion was used in the whole domain; expected %v", got, inside/vol)
		} else {
			c.Fatalf("ellipsoid", "energy %v, expected %v: %+v", got, inside/vol, p)
		}
	}
	c.Key("N%d inclusion pert%v%s", N, p.ApplyPerturbation, keep)
}

type ownFT struct{ dims []int }

func (f ownFT) Freq(i int) []float64 { return lib.FreqOf(f.dims, i) }
func (f ownFT) FFT(d []complex128) []complex128 {
	copy(d, lib.DFT(f.dims, d, -1))
	return d
}
func (f ownFT) IFFT(d []complex128) []complex128 {
	copy(d, lib.DFT(f.dims, d, 1))
	return d
}

// force from a perturbation of the stiffness; also the force from a misfit is in balance with the stress
func perturbed(c *lib.Case) {
	r := c.R
	dims := odd(r, 3, 7)
	n := lib.Prod(dims)
	var g t4
	gen := elasticity.NewRank4()
	v := fromVoigt(stable(r))
	each(func(i, j, k, l int) {
		g[i][j][k][l] = v[i][j][k][l]
		gen.Set(i, j, k, l, g[i][j][k][l])
	})
	md, mis := symM(r, 0.1)
	u := make([][3]complex128, n)
	ul := make([][]complex128, n)
	shape := make([]float64, n)
	for i := range shape {
		shape[i] = r.NormFloat64()
		ul[i] = make([]complex128, 3)
	}
	for m := 0; m < 3; m++ {
		for i, a := range lib.Fwd(dims, lib.RandField(r, dims, 1)) {
			u[i][m] = a
			ul[i][m] = a
		}
	}
	want := ownPert(&g, dims, mis, ownStrain(dims, u), shape)
	got := elasticity.PerturbedForce(ownFT{dims}, md, ul, func(i int) float64 { return shape[i] }, &gen)
	sc := 1e-300
	for i := range want {
		for m := range want[i] {
			sc = math.Max(sc, cmplx.Abs(want[i][m]))
		}
	}
	for i := range want {
		for m := range want[i] {
			if !(cmplx.Abs(got[i][m]-want[i][m]) <= 1e-9*sc) {
				c.Fatalf("force", "force %d of node %d is %v, expected %v", m, i, got[i][m], want[i][m])
			}
		}
	}
	c.Count("forces", 3*n)
	c.Notef("%v", dims)
	// force of a misfit
	ef := elasticity.NewEffectiveForceFromMisfit(gen, md)
	sig := contract(&g, mis)
	ft := lib.Fwd(dims, shape)
	for m := 0; m < 3; m++ {
		fm := ef.Get(m, ownFT{dims}.Freq, ft)
		for i := range fm {
			k := freq3(dims, i)
			var w complex128
			for j := 0; j < 3; j++ {
				w -= complex(0, 2*math.Pi*sig[m][j]*k[j]) * ft[i]
			}
			if !(cmplx.Abs(fm[i]-w) <= 1e-10*(cmplx.Abs(w)+maxT(&g)*0.1*cmplx.Abs(ft[i]))) {
				c.Fatalf("force", "misfit force %d of node %d is %v, expected %v", m, i, fm[i], w)
			}
		}
	}
	c.Key("%v", dims)
}

// voxels of an ellipsoid
func voxels(c *lib.Case) {
	r := c.R
	N := 1 + r.Intn(12)
	var h [3]float64
	for i := range h {
		h[i] = 0.3 + float64(N)*0.8*r.Float64()
		if r.Intn(2) == 0 {
			h[i] = float64(1 + r.Intn(1+N/2))
		}
	}
	c.Notef("N %d half axes %v", N, h)
	v := elasticity.Ellipsoid(N, h[0], h[1], h[2])
	in, ends := 0, 0
	for i := 0; i < N*N*N; i++ {
		q := lib.PosOf([]int{N, N, N}, i)
		d, off, end := 0.0, 0, false
		for a := range h {
			x := float64(q[a] - N/2)
			d += x * x / (h[a] * h[a])
			if x != 0 {
				off++
				end = math.Abs(x) == h[a]
			}
		}
		end = end && off == 1 // the ends of the half axes belong to the ellipsoid
		if math.Abs(d-1) < 1e-12 && !end {
			continue
		}
		var want complex128
		if d < 1 || end {
			want = 1
			in++
		}
		if end {
			ends++
		}
		if got := v.At(q[0], q[1], q[2]); got != want {
			c.Fatalf("voxels", "voxel %v of the ellipsoid with half axes %v in %d^3 is %v, expected %v", q, h, N, got, want)
		}
		c.Count("voxels", 1)
	}
	c.Key("N%d ends%v", N, ends > 0)
}

func main() {
	lib.Main(lib.Prop{ID: "C18", Level: "exploration", CPULimit: 200,
		Rule:   "Random stiffnesses (isotropic, cubic, fully anisotropic, rotated), misfits, body forces, regions and 2D/3D domains; every tensor element, contraction, matrix element, displacement, strain, force and energy is compared with an independent evaluation: force balance of every wave vector, analytical strains, Khachaturyan's closed expression for the energy of a region, and own first order perturbation. Non-trivial: values compared; classes are (kind, axis), domains and (size, inclusion).",
		Assume: []string{"on domains with an even number of nodes the highest frequency is left out of the strains; there only positivity and invariance of the energy are judged"},
		Groups: []lib.Group{
			{Name: "tensors", Quick: 2000, Thorough: 60000, Run: tensors},
			{Name: "balance", Quick: 800, Thorough: 20000, Run: balance},
			{Name: "homogeneous", Quick: 800, Thorough: 20000, Run: homogeneous},
			{Name: "ellipsoid", Quick: 400, Thorough: 10000, Run: ellipsoid},
			{Name: "voxels", Quick: 300, Thorough: 6000, Run: voxels},
			{Name: "perturbed", Quick: 400, Thorough: 10000, Run: perturbed},
		}})
}
