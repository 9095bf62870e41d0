// C22: geometry helpers: affine maps, shapes, drawing, blurring, tessellation, iterators, slices.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

// map3 is an affine map of three coordinates, as a function
type map3 func(x [3]float64) [3]float64

// basic returns one elementary map, both as the library's and as our own
func basic(r *rand.Rand) (pfutil.Affine, map3, string) {
	rot := func(i, j int, a float64) map3 {
		return func(x [3]float64) [3]float64 {
			y := x
			y[i] = math.Cos(a)*x[i] - math.Sin(a)*x[j]
			y[j] = math.Sin(a)*x[i] + math.Cos(a)*x[j]
			return y
		}
	}
	a := 2 * math.Pi * (r.Float64() - 0.5)
	switch r.Intn(7) {
	case 0:
		return pfutil.Identity(), func(x [3]float64) [3]float64 { return x }, "id"
	case 1:
		v := [3]float64{r.NormFloat64() * 4, r.NormFloat64() * 4, r.NormFloat64() * 4}
		return pfutil.Translation(append([]float64{}, v[:]...)), func(x [3]float64) [3]float64 {
			return [3]float64{x[0] + v[0], x[1] + v[1], x[2] + v[2]}
		}, "t3"
	case 2:
		v := [2]float64{r.NormFloat64() * 4, r.NormFloat64() * 4}
		return pfutil.Translation(append([]float64{}, v[:]...)), func(x [3]float64) [3]float64 {
			return [3]float64{x[0] + v[0], x[1] + v[1], x[2]}
		}, "t2"
	case 3:
		v := [3]float64{0.5 + r.Float64(), 0.5 + r.Float64(), 0.5 + r.Float64()}
		return pfutil.Scaling(append([]float64{}, v[:]...)), func(x [3]float64) [3]float64 {
			return [3]float64{x[0] * v[0], x[1] * v[1], x[2] * v[2]}
		}, "s"
	case 4:
		return pfutil.RotX(a), rot(1, 2, a), "rx"
	case 5:
		return pfutil.RotY(a), rot(2, 0, a), "ry"
	default:
		return pfutil.RotZ(a), rot(0, 1, a), "rz"
	}
}

func chain(r *rand.Rand, n int) (pfutil.Affine, map3, string) {
	A, f, s := basic(r)
	for i := 0; i < n; i++ {
		B, g, t := basic(r)
		A.Append(B)
		h := f
		f = func(x [3]float64) [3]float64 { return g(h(x)) }
		s += "," + t
	}
	return A, f, s
}

func affine(c *lib.Case) {
	r := c.R
	A, f, s := chain(r, r.Intn(5))
	for k := 0; k < 10; k++ {
		x := [3]float64{r.NormFloat64() * 5, r.NormFloat64() * 5, r.NormFloat64() * 5}
		n := 3
		if k%3 == 0 {
			n, x[2] = 2, 0
		}
		p := append([]float64{}, x[:n]...)
		A.Apply(p)
		want := f(x)
		for i := range p {
			if !near(p[i], want[i], 1e-9*(1+math.Abs(want[i]))) {
				c.Fatalf("apply", "maps %s: coordinate %d of %v becomes %v, expected %v", s, i, x[:n], p[i], want[i])
			}
		}
		c.Count("points", 1)
	}
	// appending leaves the second map alone
	B, g, _ := basic(r)
	C, _, _ := basic(r)
	C.Append(B)
	x := [3]float64{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}
	p := append([]float64{}, x[:]...)
	B.Apply(p)
	w := g(x)
	for i := range p {
		if !near(p[i], w[i], 1e-9*(1+math.Abs(w[i]))) {
			c.Fatalf("append", "appending a map to another one changed it")
		}
	}
	c.Key("%s", s)
}

func shapes(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 10, 500)
	dim := len(dims)
	grid := pfutil.NewGrid(append([]int{}, dims...))
	old := make([]float64, len(grid.Data))
	for i := range old {
		old[i] = r.NormFloat64()
		grid.Data[i] = old[i]
	}
	A, f, s := chain(r, r.Intn(4))
	none := r.Intn(4) == 0
	var shape pfutil.Shape
	var margin func(x []float64) float64 // > 0 inside
	name := "ball"
	if r.Intn(2) == 0 {
		R := 5 * r.Float64()
		shape = &pfutil.Ball{Radius: R}
		margin = func(x []float64) float64 {
			d := 0.0
			for _, v := range x {
				d += v * v
			}
			return R*R - d
		}
	} else {
		name = "box"
		d := make([]float64, 3)
		for i := range d {
			d[i] = 10 * r.Float64()
		}
		if dim == 2 && r.Intn(2) == 0 {
			d = d[:2]
		}
		shape = &pfutil.Box{Diagonal: d}
		margin = func(x []float64) float64 {
			m := math.Inf(1)
			for i := range x {
				m = math.Min(m, d[i]/2-math.Abs(x[i]))
			}
			return m
		}
	}
	val := r.NormFloat64()
	if none {
		pfutil.Draw(shape, &grid, nil, val)
		f = func(x [3]float64) [3]float64 { return x }
	} else {
		pfutil.Draw(shape, &grid, &A, val)
	}
	c.Notef("%v %s %+v maps %s none %v", dims, name, shape, s, none)
	bb := shape.BBox()
	for i := range grid.Data {
		p := lib.PosOf(dims, i)
		var x [3]float64
		for k := range p {
			x[k] = float64(p[k])
		}
		y := f(x)
		m := margin(y[:dim])
		if math.Abs(m) < 1e-7 {
			continue
		}
		want := old[i]
		if m > 0 {
			want = val
		}
		if grid.Data[i] != want {
			c.Fatalf("draw", "node %v, mapped to %v (margin %v), is %v, expected %v", p, y[:dim], m, grid.Data[i], want)
		}
		if in := shape.InteriorPoint(y[:dim]); in != (m > 0) {
			c.Fatalf("interior", "point %v with margin %v: inside %v", y[:dim], m, in)
		}
		if m > 0 {
			for k := 0; k < dim; k++ {
				if y[k] < float64(bb.Min[k]) || y[k] > float64(bb.Max[k]) {
					c.Fatalf("bbox", "interior point %v outside the bounding box %+v", y[:dim], bb)
				}
			}
			c.Count("inside", 1)
		} else {
			c.Count("outside", 1)
		}
	}
	if name == "box" {
		if ok, _ := lib.MustPanic(func() { (&pfutil.Box{Diagonal: []float64{1, 1}}).InteriorPoint([]float64{0, 0, 0}) }); !ok {
			c.Fatalf("refuse", "a 2D box accepted a 3D point")
		}
	}
	c.Key("%v %s %s", dims, name, s)
}

// kernel with its own value for every offset
type kernel struct {
	cut int
	v   map[string]float64
}

func (k *kernel) Value(x []int) float64 { return k.v[fmt.Sprint(x)] }
func (k *kernel) Cutoff() int           { return k.cut }

func blur(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 8, 150)
	n := lib.Prod(dims)
	data := make([]float64, n)
	for i := range data {
		data[i] = r.NormFloat64()
	}
	if r.Intn(5) == 0 {
		for i := range data {
			data[i] = 3.25
		}
	}
	// offsets with their weights
	var offs [][]int
	var ws []float64
	var kr pfutil.BlurKernel
	box := r.Intn(2) == 0
	cut := r.Intn(3)
	if box {
		w := r.Intn(5)
		bk := &pfutil.BoxKernel{Width: w}
		kr = bk
		cut = bk.Cutoff()
		if cut > w {
			cut = w
		}
	}
	ext := make([]int, len(dims))
	for i := range ext {
		ext[i] = 2*cut + 1
	}
	kk := &kernel{cut: cut, v: map[string]float64{}}
	tot := 0.0
	for i := 0; i < lib.Prod(ext); i++ {
		o := lib.PosOf(ext, i)
		for j := range o {
			o[j] -= cut
		}
		w := 1.0
		if !box {
			w = r.Float64()
		}
		kk.v[fmt.Sprint(o)] = w
		offs = append(offs, o)
		ws = append(ws, w)
		tot += w
	}
	if !box {
		kr = kk
	}
	cplx := r.Intn(2) == 0
	got := append([]float64{}, data...)
	if cplx {
		z := make([]complex128, n)
		for i := range z {
			z[i] = complex(data[i], float64(i))
		}
		sl := &pfutil.RealPartSlice{Data: z}
		if sl.Len() != n {
			c.Fatalf("len", "length %d of %d", sl.Len(), n)
		}
		pfutil.Blur(sl, dims, kr)
		for i := range z {
			got[i] = real(z[i])
			if imag(z[i]) != float64(i) {
				c.Fatalf("imag", "blurring changed an imaginary part")
			}
		}
	} else {
		pfutil.Blur(&pfutil.RealSlice{Data: got}, dims, kr)
	}
	c.Notef("%v box %v cut %d", dims, box, cut)
	for i := range got {
		p := lib.PosOf(dims, i)
		s := 0.0
		for j, o := range offs {
			q := make([]int, len(p))
			for k := range q {
				q[k] = ((p[k]+o[k])%dims[k] + dims[k]) % dims[k]
			}
			s += ws[j] * data[lib.Idx(dims, q)]
		}
		if !near(got[i], s/tot, 1e-10) {
			c.Fatalf("blur", "node %v is %v, expected %v", p, got[i], s/tot)
		}
	}
	if !near(lib.Mean(got), lib.Mean(data), 1e-10) {
		c.Fatalf("mean", "the average changed from %v to %v", lib.Mean(data), lib.Mean(got))
	}
	c.Count("nodes", n)
	c.Key("%v box%v cut%d", dims, box, cut)
}

func voronoi(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 12, 500)
	n := lib.Prod(dims)
	pts := make([]int, 1+r.Intn(8))
	for i := range pts {
		pts[i] = r.Intn(n)
	}
	in := append([]int{}, pts...)
	data := make([]int, n)
	for i := range data {
		data[i] = -7
	}
	pfutil.Voronoi(pts, data, dims)
	dist := func(i, j int) int {
		p, q := lib.PosOf(dims, i), lib.PosOf(dims, j)
		s := 0
		for k := range p {
			d := p[k] - q[k]
			if d < 0 {
				d = -d
			}
			if dims[k]-d < d {
				d = dims[k] - d
			}
			s += d * d
		}
		return s
	}
	for i := range data {
		if data[i] < 0 || data[i] >= len(pts) {
			c.Fatalf("range", "node %d is assigned to %d of %d points", i, data[i], len(pts))
		}
		for j := range pts {
			if dist(i, in[j]) < dist(i, in[data[i]]) {
				c.Fatalf("closest", "dims %v: node %v is assigned to %v, but %v is closer", dims, lib.PosOf(dims, i), lib.PosOf(dims, in[data[i]]), lib.PosOf(dims, in[j]))
			}
		}
	}
	for i := range in {
		if in[i] != pts[i] {
			c.Fatalf("input", "the points were changed")
		}
	}
	c.Count("nodes", n)
	c.Key("%v pts%d", dims, len(pts))
}

func loops(c *lib.Case) {
	r := c.R
	// products
	end := make([]int, 1+r.Intn(5))
	tot := 1
	for i := range end {
		end[i] = 1 + r.Intn(4)
		tot *= end[i]
	}
	p := pfutil.NewProduct(append([]int{}, end...))
	want := make([]int, len(end))
	cnt := 0
	for x := p.Next(); x != nil; x = p.Next() {
		for i := range want {
			if x[i] != want[i] {
				c.Fatalf("product", "limits %v: combination %d is %v, expected %v", end, cnt, x, want)
			}
		}
		for i := len(want) - 1; i >= 0; i-- {
			want[i]++
			if want[i] < end[i] {
				break
			}
			want[i] = 0
		}
		cnt++
		if cnt > tot {
			break
		}
	}
	if cnt != tot {
		c.Fatalf("product", "limits %v: %d combinations, expected %d", end, cnt, tot)
	}
	// wrapping
	dims := lib.RandDims(r, 1+r.Intn(3), 1, 12)
	for k := 0; k < 20; k++ {
		pos := make([]int, len(dims))
		w := make([]int, len(dims))
		for i := range pos {
			pos[i] = r.Intn(20*dims[i]+1) - 10*dims[i]
			w[i] = ((pos[i] % dims[i]) + dims[i]) % dims[i]
		}
		in := append([]int{}, pos...)
		pfutil.Wrap(pos, dims)
		for i := range pos {
			if pos[i] != w[i] {
				c.Fatalf("wrap", "%v in %v becomes %v, expected %v", in, dims, pos, w)
			}
		}
	}
	// slices
	n := 1 + r.Intn(20)
	a, b := make([]complex128, n), make([]complex128, n)
	for i := range a {
		a[i] = complex(r.NormFloat64(), r.NormFloat64())
		b[i] = complex(r.NormFloat64(), r.NormFloat64())
	}
	sum, mul, div, clr := append([]complex128{}, a...), append([]complex128{}, a...), append([]complex128{}, a...), append([]complex128{}, a...)
	b0 := append([]complex128{}, b...)
	pfutil.ElemwiseAdd(sum, b)
	pfutil.ElemwiseMul(mul, b)
	fac := 0.5 + r.Float64()
	ret := pfutil.DivRealScalar(div, fac)
	pfutil.Clear(clr)
	mx, mn := math.Inf(-1), math.Inf(1)
	for i := range a {
		mx, mn = math.Max(mx, real(a[i])), math.Min(mn, real(a[i]))
		d := div[i] - a[i]/complex(fac, 0)
		m := mul[i] - a[i]*b[i]
		if sum[i] != a[i]+b[i] || math.Hypot(real(m), imag(m)) > 1e-14 || math.Hypot(real(d), imag(d)) > 1e-14*(1+math.Abs(real(a[i]))) || clr[i] != 0 || b[i] != b0[i] || ret[i] != div[i] {
			c.Fatalf("slices", "element %d: %v and %v: sum %v product %v quotient by %v %v cleared %v", i, a[i], b[i], sum[i], mul[i], fac, div[i], clr[i])
		}
	}
	if pfutil.MaxReal(a) != mx || pfutil.MinReal(a) != mn {
		c.Fatalf("extrema", "%v: %v and %v", a, pfutil.MaxReal(a), pfutil.MinReal(a))
	}
	tol := r.Float64()
	same := true
	b = append([]complex128{}, a...)
	j := r.Intn(n)
	dv := complex(tol*2*(r.Float64()-0.5)*2, tol*2*(r.Float64()-0.5)*2)
	b[j] += dv
	if math.Abs(real(dv)) > tol || math.Abs(imag(dv)) > tol {
		same = false
	}
	if math.Abs(math.Abs(real(dv))-tol) > 1e-9 && math.Abs(math.Abs(imag(dv))-tol) > 1e-9 && pfutil.CmplxEqualApprox(a, b, tol) != same {
		c.Fatalf("approx", "difference %v, tolerance %v: equal %v", dv, tol, !same)
	}
	if pfutil.CmplxEqualApprox(a, a[:n-1], 1) {
		c.Fatalf("approx", "slices of different length are equal")
	}
	c.Count("combinations", cnt)
	c.Key("%v", end)
}

// rotation of grids: values come from the nodes nearest the rotated position (to one node)
func rotate(c *lib.Case) {
	r := c.R
	dims := lib.RandDims(r, 2, 2, 20)
	g := pfutil.NewGrid(append([]int{}, dims...))
	for i := range g.Data {
		g.Data[i] = float64(i)
	}
	angle := 2 * math.Pi * (r.Float64() - 0.5)
	if r.Intn(6) == 0 {
		angle = 0
	}
	cp := g.Copy()
	cp.Rotate2D(angle)
	for i := range g.Data {
		if g.Data[i] != float64(i) {
			c.Fatalf("copy", "rotating a copy changed the original")
		}
		if v := cp.Data[i]; v < 0 || v >= float64(len(g.Data)) || v != math.Floor(v) {
			c.Fatalf("value", "value %v is none of the grid's", v)
		}
		p := lib.PosOf(dims, i)
		src := lib.PosOf(dims, int(cp.Data[i]))
		x, y := float64(p[0]-dims[0]/2), float64(p[1]-dims[1]/2)
		co, si := math.Cos(angle), math.Sin(angle)
		// the source of a node is its position rotated back
		u := []float64{x*co - y*si + float64(dims[0]/2), x*si + y*co + float64(dims[1]/2)}
		for k := range u {
			d := math.Mod(float64(src[k])-u[k], float64(dims[k]))
			if d > float64(dims[k])/2 {
				d -= float64(dims[k])
			}
			if d < -float64(dims[k])/2 {
				d += float64(dims[k])
			}
			if math.Abs(d) > 1+1e-6 {
				c.Fatalf("rotate", "%v rotated by %v: node %v shows node %v, expected one next to %v", dims, angle, p, src, u)
			}
		}
		if angle == 0 && cp.Data[i] != float64(i) {
			c.Fatalf("rotate", "rotating by zero moved node %v", p)
		}
	}
	c.Count("nodes", len(g.Data))
	// grids and complex arrays
	z := cp.ToComplex()
	for i := range z {
		if z[i] != complex(cp.Data[i], 0) {
			c.Fatalf("complex", "node %d: %v becomes %v", i, cp.Data[i], z[i])
		}
		z[i] = complex(r.NormFloat64(), 1)
	}
	cp.FromComplex(z)
	for i := range z {
		if cp.Data[i] != real(z[i]) {
			c.Fatalf("complex", "node %d: %v becomes %v", i, z[i], cp.Data[i])
		}
	}
	j := r.Intn(len(g.Data))
	g.Set(lib.PosOf(dims, j), 99.5)
	for i := range g.Data {
		w := float64(i)
		if i == j {
			w = 99.5
		}
		if g.Get(lib.PosOf(dims, i)) != w || g.Index(lib.PosOf(dims, i)) != i {
			c.Fatalf("set", "after setting node %d, node %d is %v", j, i, g.Get(lib.PosOf(dims, i)))
		}
	}
	c.Key("%v", dims)
}

func main() {
	lib.Main(lib.Prop{ID: "C22", Level: "exploration", CPULimit: 200,
		Rule: "Random chains of affine maps, shapes, kernels, generating points, grids and slices in 2D and 3D; every mapped point, drawn node, blurred value, assigned cell and rotated node is compared with the definition evaluated independently. Non-trivial: all nodes compared; classes are domains and kinds.",
		Groups: []lib.Group{
			{Name: "affine", Quick: 1000, Thorough: 30000, Run: affine},
			{Name: "shapes", Quick: 1500, Thorough: 40000, Run: shapes},
			{Name: "blur", Quick: 800, Thorough: 20000, Run: blur},
			{Name: "voronoi", Quick: 800, Thorough: 20000, Run: voronoi},
			{Name: "loops", Quick: 1000, Thorough: 30000, Run: loops},
			{Name: "rotate", Quick: 800, Thorough: 20000, Run: rotate},
		}})
}
