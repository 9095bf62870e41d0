// C21: crystal geometry, mode expansion and crystal initialisation.
package main

import (
	"math"
	"math/rand"
	"sort"

	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
	"verif/lib"
)

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

func randCell(r *rand.Rand, dim int) pfc.Cell {
	for {
		m := mat.NewDense(dim, dim, nil)
		for i := 0; i < dim; i++ {
			for j := 0; j < dim; j++ {
				m.Set(i, j, r.NormFloat64()*3)
			}
		}
		if mat.Cond(m, 2) < 50 {
			return pfc.Cell{CellVec: m}
		}
	}
}

func det(m *mat.Dense) float64 {
	if n, _ := m.Dims(); n == 2 {
		return m.At(0, 0)*m.At(1, 1) - m.At(0, 1)*m.At(1, 0)
	}
	d := 0.0
	for i := 0; i < 3; i++ {
		j, k := (i+1)%3, (i+2)%3
		d += m.At(0, i) * (m.At(1, j)*m.At(2, k) - m.At(1, k)*m.At(2, j))
	}
	return d
}

func lattice(c *lib.Case) {
	r := c.R
	dim := 2 + r.Intn(2)
	cell := randCell(r, dim)
	cp := mat.DenseCopyOf(cell.CellVec)
	if got, want := cell.Volume(), det(cp); !near(got, want, 1e-10*(1+math.Abs(want))) {
		c.Fatalf("volume", "volume of %v is %v, expected %v", mat.Formatted(cp), got, want)
	}
	rec := cell.Reciprocal()
	// a_i . b_j = 2 pi delta_ij
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			s := 0.0
			for k := 0; k < dim; k++ {
				s += cp.At(k, i) * rec.CellVec.At(k, j)
			}
			want := 0.0
			if i == j {
				want = 2 * math.Pi
			}
			if !near(s, want, 1e-9) {
				c.Fatalf("duality", "cell %v: a%d.b%d = %v", mat.Formatted(cp), i, j, s)
			}
		}
	}
	// hkl vectors: phase of an integer combination of cell vectors is a multiple of 2 pi
	mi := pfc.Miller{H: r.Intn(9) - 4, K: r.Intn(9) - 4}
	if dim == 3 {
		mi.L = r.Intn(9) - 4
	}
	g := rec.HKLVector(mi)
	hkl := []int{mi.H, mi.K, mi.L}
	for i := 0; i < dim; i++ {
		s := 0.0
		for k := 0; k < dim; k++ {
			s += g[k] * cp.At(k, i)
		}
		if !near(s, 2*math.Pi*float64(hkl[i]), 1e-8) {
			c.Fatalf("hkl", "cell %v: wave vector %v of %v has phase %v along cell vector %d", mat.Formatted(cp), g, mi, s, i)
		}
		if mi.At(i) != hkl[i] {
			c.Fatalf("hkl", "index %d of %v is %d", i, mi, mi.At(i))
		}
	}
	// change of the reciprocal lattice: first order, error second order
	dir := mat.NewDense(dim, dim, nil)
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			dir.Set(i, j, r.NormFloat64())
		}
	}
	const h = 1e-4
	diff := mat.NewDense(dim, dim, nil)
	for _, sg := range []float64{1, -1} {
		moved := mat.DenseCopyOf(cp)
		for i := 0; i < dim; i++ {
			for j := 0; j < dim; j++ {
				moved.Set(i, j, cp.At(i, j)+sg*h*dir.At(i, j))
			}
		}
		mc := pfc.Cell{CellVec: moved}
		mr := mc.Reciprocal()
		for i := 0; i < dim; i++ {
			for j := 0; j < dim; j++ {
				diff.Set(i, j, diff.At(i, j)+sg*mr.CellVec.At(i, j)/(2*h))
			}
		}
	}
	ch := rec.CellChange(dir)
	sc := 1 + mat.Norm(rec.CellVec, 2)
	sc = sc * sc * (1 + mat.Norm(dir, 2))
	dk := rec.ChangeHKLVector(mi, dir)
	for i := 0; i < dim; i++ {
		w := 0.0
		for j := 0; j < dim; j++ {
			if !near(ch.At(i, j), diff.At(i, j), 1e-5*sc*sc) {
				c.Fatalf("change", "cell %v changed by %v: reciprocal element %d,%d changes by %v, expected %v", mat.Formatted(cp), mat.Formatted(dir), i, j, ch.At(i, j), diff.At(i, j))
			}
			w += diff.At(i, j) * float64(hkl[j])
		}
		if !near(dk[i], w, 2e-4*sc*sc) {
			c.Fatalf("changehkl", "cell %v changed by %v: component %d of the wave vector %v changes by %v, expected %v", mat.Formatted(cp), mat.Formatted(dir), i, mi, dk[i], w)
		}
	}
	if !mat.Equal(cp, cell.CellVec) {
		c.Fatalf("input", "the cell was changed")
	}
	// ready made cells: volume and shape of the lattice
	a := 0.5 + 10*r.Float64()
	for name, t := range map[string]struct {
		cell pfc.Cell
		vol  float64
		dist float64 // distance of nearest neighbours
		num  int     // their number
	}{
		"fcc": {pfc.FCC(a), a * a * a / 4, a / math.Sqrt2, 12}, "bcc": {pfc.BCC(a), a * a * a / 2, a * math.Sqrt(3) / 2, 8},
		"sc3d": {pfc.SC3D(a), a * a * a, a, 6}, "sc2d": {pfc.SC2D(a), a * a, a, 4},
	} {
		if !near(math.Abs(t.cell.Volume()), t.vol, 1e-9*t.vol) {
			c.Fatalf("cells", "volume of %s with a=%v is %v, expected %v", name, a, t.cell.Volume(), t.vol)
		}
		d, _ := t.cell.CellVec.Dims()
		best, cnt := math.Inf(1), 0
		for i := 0; i < 343; i++ {
			n := []int{i%7 - 3, i/7%7 - 3, i/49 - 3}
			if d == 2 && n[2] != 0 || n[0] == 0 && n[1] == 0 && n[2] == 0 {
				continue
			}
			l := 0.0
			for k := 0; k < d; k++ {
				s := 0.0
				for j := 0; j < d; j++ {
					s += t.cell.CellVec.At(k, j) * float64(n[j])
				}
				l += s * s
			}
			l = math.Sqrt(l)
			if l < best-1e-9*a {
				best, cnt = l, 0
			}
			if math.Abs(l-best) <= 1e-9*a {
				cnt++
			}
		}
		if !near(best, t.dist, 1e-9*a) || cnt != t.num {
			c.Fatalf("cells", "%s with a=%v has %d neighbours at %v, expected %d at %v", name, a, cnt, best, t.num, t.dist)
		}
	}
	c.Count("matrix elements", dim*dim*3)
	c.Key("dim%d %v", dim, mi)
}

func perms(h, k, l int) map[[3]int]bool {
	res := map[[3]int]bool{}
	v := [3]int{h, k, l}
	for _, p := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		for s := 0; s < 8; s++ {
			m := [3]int{v[p[0]], v[p[1]], v[p[2]]}
			for b := 0; b < 3; b++ {
				if s>>b&1 == 1 {
					m[b] = -m[b]
				}
			}
			res[m] = true
		}
	}
	return res
}

func miller(c *lib.Case) {
	r := c.R
	rng := 2 + r.Intn(6)
	v := [3]int{r.Intn(2*rng+1) - rng, r.Intn(2*rng+1) - rng, r.Intn(2*rng+1) - rng}
	if r.Intn(4) == 0 {
		v[2] = 0
	}
	if r.Intn(4) == 0 {
		v[r.Intn(3)] = v[r.Intn(3)]
	}
	if r.Intn(6) == 0 {
		v[r.Intn(3)] = -v[r.Intn(3)]
	}
	m := pfc.Miller{H: v[0], K: v[1], L: v[2]}
	c.Notef("%v", m)
	all := perms(v[0], v[1], v[2])
	seen := map[[3]int]bool{}
	for _, e := range pfc.EquivalentMiller(m) {
		k := [3]int{e.H, e.K, e.L}
		if !all[k] || seen[k] {
			c.Fatalf("equivalent", "%v: %v is listed twice or not equivalent", m, e)
		}
		seen[k] = true
	}
	if len(seen) != len(all) {
		c.Fatalf("equivalent", "%v: %d of %d equivalent planes are listed", m, len(seen), len(all))
	}
	two := 0
	signs := map[[3]int]bool{}
	for k := range all {
		if k[2] == 0 {
			two++
		}
		if iabs(k[0]) == iabs(v[0]) && iabs(k[1]) == iabs(v[1]) && iabs(k[2]) == iabs(v[2]) {
			signs[k] = true
		}
	}
	if got := pfc.NumEquivalent3D(m); got != len(all) {
		c.Fatalf("num3d", "%v has %d equivalent planes, %d reported", m, len(all), got)
	}
	if got := pfc.NumEquivalent2D(m); got != two {
		c.Fatalf("num2d", "%v has %d equivalent planes in 2D, %d reported", m, two, got)
	}
	if pfc.NumEquivalent(m, 3) != len(all) || pfc.NumEquivalent(m, 2) != two {
		c.Fatalf("num", "%v: %d and %d", m, pfc.NumEquivalent(m, 3), pfc.NumEquivalent(m, 2))
	}
	np := pfc.EquivalentMillerNoPermutations(m)
	got := map[[3]int]bool{}
	for _, e := range np {
		got[[3]int{e.H, e.K, e.L}] = true
	}
	if len(np) != len(signs) || len(got) != len(signs) {
		c.Fatalf("signs", "%v: %d entries, %d different, expected %d", m, len(np), len(got), len(signs))
	}
	for k := range got {
		if !signs[k] {
			c.Fatalf("signs", "%v: %v differs in more than signs", m, k)
		}
	}
	o := pfc.Miller{H: v[0], K: v[1], L: v[2]}
	if !m.Equal(o) {
		c.Fatalf("equal", "%v is not equal to itself", m)
	}
	switch r.Intn(3) {
	case 0:
		o.H++
	case 1:
		o.K--
	default:
		o.L += 2
	}
	if m.Equal(o) {
		c.Fatalf("equal", "%v equals %v", m, o)
	}
	// densities of planes do not depend on the order of the indices
	a := []int{iabs(v[0]), iabs(v[1]), iabs(v[2])}
	sort.Ints(a)
	if a[0] <= 1 && a[2] > 0 {
		d0 := pfc.CubicUnitCellDensity(pfc.Miller{H: a[0], K: a[1], L: a[2]})
		for _, p := range [][3]int{{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
			if d := pfc.CubicUnitCellDensity(pfc.Miller{H: a[p[0]], K: a[p[1]], L: a[p[2]]}); !near(d, d0, 1e-12*d0) {
				c.Fatalf("density", "density of planes %v depends on the order of the indices: %v and %v", a, d0, d)
			}
		}
		if a[2] == 1 {
			if want := 1 / math.Sqrt(float64(a[0]+a[1]+a[2])); !near(d0, want, 1e-12) {
				c.Fatalf("density", "density of planes %v is %v, expected %v", a, d0, want)
			}
		}
	}
	c.Count("planes", len(all))
	c.Key("%v", a)
}

func iabs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// modeDens is the sum of the cosines of all equivalent planes
func modeDens(m pfc.Miller, x []float64) float64 {
	s := 0.0
	for k := range perms(m.H, m.K, m.L) {
		if len(x) == 2 && k[2] != 0 {
			continue
		}
		arg := 0.0
		for i := range x {
			arg += float64(k[i]) * x[i]
		}
		s += math.Cos(2 * math.Pi * arg)
	}
	return s
}

type modes struct {
	dim    int
	ms     pfc.ModeSolver
	dens   [][]float64 // densities of each mode on a uniform grid of the unit cell
	points int
}

func mkModes(r *rand.Rand, nm int) *modes {
	m := &modes{dim: 2}
	if r.Intn(6) == 0 {
		m.dim = 3
	}
	cand := [][3]int{{1, 0, 0}, {1, 1, 0}, {2, 0, 0}, {2, 1, 0}, {2, 2, 0}}
	if m.dim == 3 {
		cand = [][3]int{{1, 0, 0}, {1, 1, 0}, {1, 1, 1}, {2, 0, 0}}
	}
	r.Shuffle(len(cand), func(i, j int) { cand[i], cand[j] = cand[j], cand[i] })
	for _, k := range cand[:nm] {
		if m.dim == 3 || r.Intn(2) == 0 {
			m.ms.Miller = append(m.ms.Miller, pfc.Miller{H: k[0], K: k[1], L: k[2]})
		} else {
			m.ms.Miller = append(m.ms.Miller, pfc.Miller{H: k[1], K: k[0], L: k[2]})
		}
	}
	a := 1 + 5*r.Float64()
	cell := pfc.SC2D(a)
	if m.dim == 3 {
		cell = pfc.SC3D(a)
	}
	m.ms.ReciprocalCell = cell.Reciprocal()
	m.ms.IdealMix = pfc.IdealMix{C3: 0.3 + 1.5*r.Float64(), C4: 0.4 + 1.5*r.Float64()}
	if r.Intn(3) == 0 {
		m.ms.IdealMix.C3 *= -1
	}
	g := 9
	m.points = int(math.Round(math.Pow(float64(g), float64(m.dim))))
	for _, mi := range m.ms.Miller {
		d := make([]float64, m.points)
		for i := range d {
			x := []float64{float64(i%g) / float64(g), float64(i/g%g) / float64(g), float64(i/g/g) / float64(g)}
			d[i] = modeDens(mi, x[:m.dim])
		}
		m.dens = append(m.dens, d)
	}
	return m
}

// energy of the mixing polynomial without its quadratic term, which the excess energy cancels
func (m *modes) energy(amp []float64) float64 {
	e := 0.0
	for i := 0; i < m.points; i++ {
		n := 0.0
		for j := range amp {
			n += amp[j] * m.dens[j][i]
		}
		e += -m.ms.IdealMix.C3*n*n*n/6 + m.ms.IdealMix.C4*n*n*n*n/12
	}
	return e / float64(m.points)
}

func density(c *lib.Case) {
	r := c.R
	m := mkModes(r, 1+r.Intn(3))
	for k := 0; k < 20; k++ {
		x := []float64{3*r.Float64() - 1, 3*r.Float64() - 1, 3*r.Float64() - 1}[:m.dim]
		mode := r.Intn(len(m.ms.Miller))
		if got, want := m.ms.ModeDensity(mode, x), modeDens(m.ms.Miller[mode], x); !near(got, want, 1e-9) {
			c.Fatalf("density", "density of %v at %v is %v, expected %v", m.ms.Miller[mode], x, got, want)
		}
	}
	pw := make([]int, len(m.ms.Miller))
	tot := 0
	for i := range pw {
		pw[i] = r.Intn(4)
		if tot+pw[i] > 4 {
			pw[i] = 4 - tot
		}
		tot += pw[i]
	}
	order := 32
	if m.dim == 3 {
		order = 28 // 26 points are wrong in this version of gonum
	}
	want := 0.0
	for i := 0; i < m.points; i++ {
		p := 1.0
		for j := range pw {
			p *= math.Pow(m.dens[j][i], float64(pw[j]))
		}
		want += p / float64(m.points)
	}
	if m.dim == 2 || r.Intn(4) == 0 {
		if got := m.ms.UnitcellIntegral(pw, order); !near(got, want, 1e-6*(1+math.Abs(want))) {
			c.Fatalf("integral", "modes %v to the powers %v integrate to %v, expected %v", m.ms.Miller, pw, got, want)
		}
	}
	// quadrature: exact for polynomials up to degree 2n-1 in every variable
	n := 1 + r.Intn(12)
	var cf [3][]float64
	val := func(d int, x float64) float64 {
		s := 0.0
		for i := len(cf[d]) - 1; i >= 0; i-- {
			s = s*x + cf[d][i]
		}
		return s
	}
	I := [3]float64{}
	for d := range cf {
		for i := r.Intn(2 * n); i >= 0; i-- {
			cf[d] = append(cf[d], r.NormFloat64())
		}
		for i, v := range cf[d] {
			I[d] += v / float64(i+1)
		}
	}
	if got := pfc.QuadSquare(func(x, y float64) float64 { return val(0, x) * val(1, y) }, n); !near(got, I[0]*I[1], 1e-9) {
		c.Fatalf("square", "%d points: polynomials %v and %v integrate to %v, expected %v", n, cf[0], cf[1], got, I[0]*I[1])
	}
	if got := pfc.QuadCube(func(x, y, z float64) float64 { return val(0, x) * val(1, y) * val(2, z) }, n); !near(got, I[0]*I[1]*I[2], 1e-9) {
		c.Fatalf("cube", "%d points: polynomials %v integrate to %v, expected %v", n, cf, got, I[0]*I[1]*I[2])
	}
	c.Count("integrals", 3)
	c.Key("%v %v", m.ms.Miller, pw)
}

type recorder struct {
	inner  pfc.InitialGuessExplorer
	starts [][]float64
	fin    int
	best   float64
}

func (e *recorder) Next() []float64 {
	x := e.inner.Next()
	if x != nil {
		e.starts = append(e.starts, append([]float64{}, x...))
	}
	return x
}

func (e *recorder) OnMinimizationFinished(res *optimize.Result) {
	e.fin++
	e.best = math.Min(e.best, res.F)
	e.inner.OnMinimizationFinished(res)
}

type list struct{ pts [][]float64 }

func (l *list) Next() []float64 {
	if len(l.pts) == 0 {
		return nil
	}
	x := l.pts[0]
	l.pts = l.pts[1:]
	return x
}
func (l *list) OnMinimizationFinished(res *optimize.Result) {}

func solve(c *lib.Case) {
	r := c.R
	m := mkModes(r, 1+r.Intn(3))
	for m.dim == 3 && len(m.ms.Miller) > 1 {
		m = mkModes(r, 1+r.Intn(3))
	}
	nm := len(m.ms.Miller)
	x0 := make([]float64, nm)
	for i := range x0 {
		x0[i] = 0.05 + 0.5*r.Float64()
	}
	kind := r.Intn(4)
	rec := &recorder{}
	expect := 1
	switch kind {
	case 0:
		rec.inner = &pfc.HyperOctantExplorer{X0: append([]float64{}, x0...)}
		expect = 1 << nm
	case 1:
		rec.inner = &pfc.SinglePointExplorer{X0: append([]float64{}, x0...)}
	default:
		expect = r.Intn(5)
		l := &list{}
		for i := 0; i < expect; i++ {
			p := make([]float64, nm)
			for j := range p {
				p[j] = r.NormFloat64() * 0.3
			}
			l.pts = append(l.pts, p)
		}
		rec.inner = l
	}
	var res pfc.ModeResult
	if r.Intn(5) == 0 {
		res = m.ms.Solve(nil)
		for s := 0; s < 1<<nm; s++ {
			p := make([]float64, nm)
			for j := range p {
				p[j] = 0.1 * float64(2*(s>>j&1)-1)
			}
			rec.starts = append(rec.starts, p)
		}
		expect, kind = 1<<nm, 9
		rec.fin = expect
	} else {
		res = m.ms.Solve(rec)
	}
	c.Notef("modes %v mix %+v explorer %d starts %v", m.ms.Miller, m.ms.IdealMix, kind, rec.starts)
	if len(rec.starts) != expect || rec.fin != expect {
		c.Fatalf("explorer", "%d initial guesses and %d minimisations, expected %d", len(rec.starts), rec.fin, expect)
	}
	if kind == 0 {
		seen := map[[3]bool]bool{}
		for _, s := range rec.starts {
			var k [3]bool
			for j := range s {
				if math.Abs(s[j]) != x0[j] {
					c.Fatalf("octant", "start %v is not a reflection of %v", s, x0)
				}
				k[j] = s[j] > 0
			}
			seen[k] = true
		}
		if len(seen) != expect {
			c.Fatalf("octant", "%d of %d sign combinations explored", len(seen), expect)
		}
	}
	if kind == 1 {
		for j := range x0 {
			if rec.starts[0][j] != x0[j] {
				c.Fatalf("single", "start %v, expected %v", rec.starts[0], x0)
			}
		}
	}
	e := m.energy(res.Amplitudes)
	sc := math.Abs(e)
	if !near(res.Energy, e, 1e-6*(1+sc)+2e-3*sc) {
		c.Fatalf("energy", "amplitudes %v have energy %v, %v reported", res.Amplitudes, e, res.Energy)
	}
	if res.Energy > 0 {
		c.Fatalf("sign", "energy %v is above the energy of the uniform phase", res.Energy)
	}
	for _, s := range rec.starts {
		if es := m.energy(s); res.Energy > es+1e-6*(1+math.Abs(es)) {
			c.Fatalf("minimum", "energy %v at the solution is above %v at the initial guess %v", res.Energy, es, s)
		}
	}
	if kind != 9 && expect > 0 && res.Energy > rec.best+1e-9*(1+math.Abs(rec.best)) {
		c.Fatalf("best", "energy %v, but a minimisation found %v", res.Energy, rec.best)
	}
	// stationary: no direction lowers the energy to first order
	if res.Energy < -1e-9 {
		for j := range res.Amplitudes {
			h := 1e-4 * (1 + math.Abs(res.Amplitudes[j]))
			up := append([]float64{}, res.Amplitudes...)
			dn := append([]float64{}, res.Amplitudes...)
			up[j] += h
			dn[j] -= h
			g := (m.energy(up) - m.energy(dn)) / (2 * h)
			if math.Abs(g) > 1e-3*(1+sc) {
				c.Fatalf("stationary", "derivative of the energy with respect to amplitude %d is %v at the solution %v", j, g, res.Amplitudes)
			}
		}
		c.Count("minima", 1)
	}
	c.Count("starts", expect)
	c.Key("%v kind%d", m.ms.Miller, kind)
}

func elastic(c *lib.Case) {
	r := c.R
	dim := 2 + r.Intn(2)
	cell := randCell(r, dim)
	rec := cell.Reciprocal()
	Q := mat.NewDense(dim, dim, nil)
	Q.Mul(rec.CellVec.T(), rec.CellVec)
	nm := 1 + r.Intn(4)
	ms := pfc.ModeSolver{ReciprocalCell: rec}
	for i := 0; i < nm; i++ {
		m := pfc.Miller{H: r.Intn(5) - 2, K: r.Intn(5) - 2}
		if dim == 3 {
			m.L = r.Intn(5) - 2
		}
		if m.H == 0 && m.K == 0 {
			m.H = 1
		}
		ms.Miller = append(ms.Miller, m)
	}
	// stiffness of one mode with unit amplitude: C_stuv = m_t Q_su m_v
	C := func(m pfc.Miller, s, t, u, v int) float64 {
		return float64(m.At(t)) * Q.At(s, u) * float64(m.At(v))
	}
	weight := map[string]func(m pfc.Miller) float64{
		"bulk": func(m pfc.Miller) float64 {
			w := 0.0
			for i := 0; i < dim; i++ {
				for j := 0; j < dim; j++ {
					w += C(m, i, i, j, j)
				}
			}
			return w / 9
		},
		"area": func(m pfc.Miller) float64 {
			return (C(m, 0, 0, 0, 0) + C(m, 1, 1, 1, 1) + 2*C(m, 0, 0, 1, 1)) / 4
		},
		"shear": func(m pfc.Miller) float64 {
			w := 0.0
			for i := 0; i < dim; i++ {
				w += C(m, i, i, i, i)
				for j := i + 1; j < dim; j++ {
					w += -C(m, i, i, j, j) + 3*C(m, i, j, i, j)
				}
			}
			return w / 15
		},
		"xyshear": func(m pfc.Miller) float64 {
			return (C(m, 0, 0, 0, 0) + C(m, 1, 1, 1, 1) - 2*C(m, 0, 0, 1, 1) + 4*C(m, 1, 0, 1, 0)) / 8
		},
	}
	qs := mat.Norm(Q, 2)
	for _, m := range ms.Miller {
		for k, f := range map[string]func(pfc.Miller, *mat.Dense) float64{"bulk": pfc.BulkModWeight, "shear": pfc.ShearModWeight, "area": pfc.AreaModulusWeight, "xyshear": pfc.XYPlaneShearWeight} {
			if got, want := f(m, Q), weight[k](m); !near(got, want, 1e-10*(1+qs*20)) {
				c.Fatalf("weight", "%s weight of %v with Q=%v is %v, expected %v", k, m, mat.Formatted(Q), got, want)
			}
		}
	}
	target := map[string]float64{}
	names := []string{"area", "xyshear"}
	if dim == 3 {
		names = []string{"bulk", "shear"}
	}
	for _, k := range names {
		if len(target) == 0 || r.Intn(3) != 0 {
			target[k] = 0.2 + 5*r.Float64()
		}
	}
	cost := func(amp2 []float64) float64 {
		v := 0.0
		for k, t := range target {
			p := 0.0
			for i := range amp2 {
				p += amp2[i] * weight[k](ms.Miller[i])
			}
			v += (t - p) * (t - p)
		}
		return v
	}
	start := make([]float64, nm)
	for i := range start {
		start[i] = 1
	}
	if nm > 1 {
		start[1] = 1e-4
	}
	res := ms.MatchElasticProp(target)
	amp2 := make([]float64, nm)
	for i := range amp2 {
		amp2[i] = res.Amp[i] * res.Amp[i]
	}
	check := func(what string, amp2 []float64, fit map[string]float64) {
		if len(fit) != len(target) {
			c.Fatalf(what, "%d properties fitted, expected %d", len(fit), len(target))
		}
		for k := range target {
			p, s := 0.0, 0.0
			for i := range amp2 {
				p += amp2[i] * weight[k](ms.Miller[i])
				s += math.Abs(amp2[i] * weight[k](ms.Miller[i]))
			}
			if got, ok := fit[k]; !ok || !near(got, p, 1e-8*(1+s)) {
				c.Fatalf(what, "squared amplitudes %v give %s %v, %v reported", amp2, k, p, fit[k])
			}
		}
		c0, pen := cost(start), 0.0
		for i := range start {
			pen += 1e-6 * start[i] * start[i]
		}
		if cost(amp2) > c0+pen+1e-9*(1+c0) {
			c.Fatalf(what, "misfit %v at the solution, %v at the start", cost(amp2), c0)
		}
	}
	check("match", amp2, res.Fit)
	modeAmp := make([]float64, nm)
	for i := range modeAmp {
		modeAmp[i] = r.NormFloat64()
	}
	in := append([]float64{}, modeAmp...)
	pw := ms.PeakWidths(target, modeAmp)
	if len(pw.Widths) != nm {
		c.Fatalf("widths", "%d widths for %d modes", len(pw.Widths), nm)
	}
	finite := true
	for i, w := range pw.Widths {
		num := 0
		for k := range perms(ms.Miller[i].H, ms.Miller[i].K, ms.Miller[i].L) {
			if dim == 3 || k[2] == 0 {
				num++
			}
		}
		amp2[i] = 0.5 * float64(num) * in[i] * in[i] / (w * w)
		if math.IsInf(w, 0) {
			amp2[i] = 0
		}
		if !(w >= 0) || modeAmp[i] != in[i] {
			c.Fatalf("widths", "width %v of mode %d, amplitude %v was %v", w, i, modeAmp[i], in[i])
		}
		if w == 0 {
			finite = false
		}
	}
	if finite {
		check("peakwidths", amp2, pw.Fit)
	}
	if ok, _ := lib.MustPanic(func() { ms.MatchElasticProp(map[string]float64{"stiff": 1}) }); !ok {
		c.Fatalf("refuse", "an unknown property was accepted")
	}
	c.Count("fits", 2)
	c.Key("dim%d modes%d props%d", dim, nm, len(target))
}

// crystals commensurate with the domain
func crystal(c *lib.Case) {
	r := c.R
	a := 2 * (1 + r.Intn(6))
	dim := 2 + r.Intn(2)
	dims := make([]int, dim)
	for i := range dims {
		dims[i] = a * (1 + r.Intn(3))
		if a > 6 && dim == 3 {
			dims[i] = a * (1 + r.Intn(2))
		}
	}
	name := "sc"
	cell := pfc.SC2D(float64(a))
	sites := [][]int{make([]int, 3)}
	h := a / 2
	if dim == 3 {
		switch r.Intn(3) {
		case 0:
			cell = pfc.SC3D(float64(a))
		case 1:
			name, cell = "fcc", pfc.FCC(float64(a))
			sites = append(sites, []int{h, h, 0}, []int{h, 0, h}, []int{0, h, h})
		default:
			name, cell = "bcc", pfc.BCC(float64(a))
			sites = append(sites, []int{h, h, h})
		}
	}
	nb := 1
	basis := mat.NewDense(dim, 1, nil)
	if name == "sc" && r.Intn(2) == 0 {
		nb = 2
		basis = mat.NewDense(dim, 2, nil)
		s := make([]int, 3)
		for i := 0; i < dim; i++ {
			if r.Intn(3) != 0 {
				basis.Set(i, 1, 0.5)
				s[i] = h
			}
		}
		sites = append(sites, s)
	}
	// a kernel that tells nodes apart: value depends on the distance
	cut := 1 + r.Intn(a)
	if cut > 4 {
		cut = 1 + r.Intn(4)
	}
	ker := &probe{cut: float64(cut)}
	grid := pfutil.NewGrid(dims)
	pfc.BuildCrystal(pfc.UnitCell{Cell: cell, Basis: basis}, ker, &grid)
	c.Notef("%s a %d dims %v basis %d cutoff %d", name, a, dims, nb, cut)
	// every node shows one of the atoms whose box of half width cut contains it; others are zero.
	// Recorded finding: parts of atoms beyond the lower boundaries are displaced by one node.
	draw := func(round func(float64) float64) []map[float64]bool {
		res := make([]map[float64]bool, len(grid.Data))
		for i := range res {
			res[i] = map[float64]bool{}
		}
		box := make([]int, dim)
		for i := range box {
			box[i] = 2 * cut
		}
		cells := make([]int, dim)
		for i := range cells {
			cells[i] = dims[i] / a
		}
		for ci := 0; ci < lib.Prod(cells); ci++ {
			o := lib.PosOf(cells, ci)
			for _, s := range sites {
				for bi := 0; bi < lib.Prod(box); bi++ {
					b := lib.PosOf(box, bi)
					at := make([]int, dim)
					d2 := 0.0
					for k := range at {
						delta := float64(b[k]-cut) + 0.5
						d2 += delta * delta
						x := int(round(delta + float64(o[k]*a+s[k])))
						at[k] = ((x % dims[k]) + dims[k]) % dims[k]
					}
					res[lib.Idx(dims, at)][ker.Eval(math.Sqrt(d2))] = true
				}
			}
		}
		return res
	}
	right, known := draw(math.Floor), draw(math.Trunc)
	match := func(ok map[float64]bool, v float64) bool {
		for x := range ok {
			if near(x, v, 1e-9) {
				return true
			}
		}
		return len(ok) == 0 && v == 0
	}
	reported := false
	for i, v := range grid.Data {
		if match(right[i], v) {
			continue
		}
		if match(known[i], v) {
			if !reported {
				c.Failf("lower-boundary", "node %v has value %v, possible are %v", lib.PosOf(dims, i), v, right[i])
			}
			reported = true
			continue
		}
		c.Fatalf("node", "node %v has value %v, possible are %v", lib.PosOf(dims, i), v, right[i])
	}
	c.Count("nodes", len(grid.Data))
	c.Key("%s a%d %v basis%d", name, a, dims, nb)
}

type probe struct{ cut float64 }

func (p *probe) Eval(x float64) float64 { return 1 / (1 + x*x) }
func (p *probe) Cutoff() float64        { return p.cut }

func corners(c *lib.Case) {
	r := c.R
	dim := 2 + r.Intn(2)
	cell := randCell(r, dim)
	dims := lib.RandDims(r, dim, 1, 20)
	got := pfc.CornersScaledCrd(cell, dims)
	seen := map[int]bool{}
	_, n := got.Dims()
	for j := 0; j < n; j++ {
		id := 0
		for i := 0; i < dim; i++ {
			x := 0.0
			for k := 0; k < dim; k++ {
				x += cell.CellVec.At(i, k) * got.At(k, j)
			}
			if near(x, float64(dims[i]), 1e-7) {
				id |= 1 << i
			} else if !near(x, 0, 1e-7) {
				c.Fatalf("corner", "corner %d of %v has coordinate %v", j, dims, x)
			}
		}
		seen[id] = true
	}
	if n != 1<<dim || len(seen) != n {
		c.Fatalf("corner", "%d corners, %d different", n, len(seen))
	}
	// kernels
	w := 0.2 + 3*r.Float64()
	g := pfc.GaussianKernel{Width: w}
	x := 5 * w * r.Float64()
	if !near(g.Eval(x), math.Exp(-x*x/(2*w*w)), 1e-12) || !near(g.Eval(-x), g.Eval(x), 0) || g.Eval(g.Cutoff()) > 0.02 {
		c.Fatalf("gauss", "gaussian of width %v at %v: %v", w, x, g.Eval(x))
	}
	ck := pfc.CircleKernel{Radius: w}
	if !near(ck.Area(), math.Pi*w*w, 1e-9) {
		c.Fatalf("circle", "area of a circle of radius %v is %v", w, ck.Area())
	}
	in, out := w*r.Float64(), ck.Cutoff()+1+r.Float64()
	if ck.Eval(in) != 1 || ck.Eval(out) != 0 {
		c.Fatalf("circle", "circle of radius %v: %v at %v and %v at %v", w, ck.Eval(in), in, ck.Eval(out), out)
	}
	// tilt boundary: halves rotated by half the angle in opposite directions
	side := 2 + r.Intn(12)
	grid := pfutil.NewGrid([]int{side, side + r.Intn(5)})
	for i := range grid.Data {
		grid.Data[i] = r.NormFloat64()
	}
	angle := 2 * math.Pi * (r.Float64() - 0.5)
	p, q := grid.Copy(), grid.Copy()
	p.Rotate2D(angle / 2)
	q.Rotate2D(-angle / 2)
	pfc.TiltGB(&grid, angle)
	for i := range grid.Data {
		want := q.Data[i]
		if lib.PosOf(grid.Dims, i)[0] < grid.Dims[0]/2 {
			want = p.Data[i]
		}
		if grid.Data[i] != want {
			c.Fatalf("tilt", "node %v of %v is %v, expected %v", lib.PosOf(grid.Dims, i), grid.Dims, grid.Data[i], want)
		}
	}
	c.Key("%v", dims)
}

func main() {
	lib.Main(lib.Prop{ID: "C21", Level: "exploration", CPULimit: 200,
		Rule: "Random cells, Miller indices, mode sets, mixing energies, elastic targets and commensurate crystals; duality of the reciprocal lattice, lists of equivalent planes, mode densities, integrals, minima, fits and node values are compared with definitions evaluated independently. Non-trivial: all values compared; classes are indices, mode sets and crystals.",
		Groups: []lib.Group{
			{Name: "lattice", Quick: 1000, Thorough: 30000, Run: lattice},
			{Name: "miller", Quick: 3000, Thorough: 60000, Run: miller},
			{Name: "density", Quick: 300, Thorough: 5000, Run: density},
			{Name: "solve", Quick: 60, Thorough: 800, Run: solve},
			{Name: "elastic", Quick: 600, Thorough: 15000, Run: elastic},
			{Name: "crystal", Quick: 600, Thorough: 15000, Run: crystal},
			{Name: "corners", Quick: 500, Thorough: 15000, Run: corners},
		}})
}
