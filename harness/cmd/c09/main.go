// C09: Fourier transforms, frequencies and node numbering.
package main

import (
	"math"
	"math/cmplx"
	"os"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

func dimsOf(c *lib.Case) []int {
	r := c.R
	dim := 2 + r.Intn(2)
	max := 20
	if dim == 2 && r.Intn(12) == 0 {
		max = 90
	}
	if dim == 3 {
		max = 9
	}
	return lib.RandDims(r, dim, 1, max)
}

func transform(c *lib.Case) {
	r := c.R
	dims := dimsOf(c)
	n := lib.Prod(dims)
	c.Notef("dims %v", dims)
	keep := append([]int{}, dims...)
	ft := pfutil.NewFFTW(dims)
	for round := 0; round < 2; round++ {
		x := make([]complex128, n)
		for i := range x {
			x[i] = complex(r.NormFloat64(), r.NormFloat64())
		}
		if round == 1 {
			x = lib.ToC(lib.RandField(r, dims, 1))
		}
		y := append([]complex128{}, x...)
		ret := ft.FFT(y)
		want := lib.DFT(dims, x, -1)
		scale := lib.MaxAbs(want) + 1
		if d, at := lib.Diff(y, want); d > 1e-10*scale {
			c.Fatalf("forward", "amplitude %d is %v, the definition gives %v", at, y[at], want[at])
		}
		if d, _ := lib.Diff(ret, y); d != 0 {
			c.Fatalf("return", "the returned slice differs from the transformed data")
		}
		b := append([]complex128{}, x...)
		ft.IFFT(b)
		want = lib.DFT(dims, x, 1)
		if d, at := lib.Diff(b, want); d > 1e-10*scale {
			c.Fatalf("backward", "backward transform %d is %v, the definition gives %v", at, b[at], want[at])
		}
		ft.IFFT(y)
		pfutil.DivRealScalar(y, float64(n))
		if d, at := lib.Diff(y, x); d > 1e-11*(1+lib.MaxAbs(x)) {
			c.Fatalf("roundtrip", "node %d comes back as %v, was %v", at, y[at], x[at])
		}
		c.Count("amplitudes_compared", 3*n)
	}
	for i := range dims {
		if dims[i] != keep[i] {
			c.Fatalf("dims", "domain size modified to %v", dims)
		}
	}
	c.Key("%v", dims)
}

// every node has its frequency, and a plane wave of that frequency ends up in that node only
func freq(c *lib.Case) {
	dims := dimsOf(c)
	n := lib.Prod(dims)
	c.Notef("dims %v", dims)
	ft := pfutil.NewFFTW(dims)
	for i := 0; i < n; i++ {
		f := ft.Freq(i)
		w := lib.FreqOf(dims, i)
		if len(f) != len(w) {
			c.Fatalf("freq", "frequency of node %d has %d components", i, len(f))
		}
		for d := range f {
			df := f[d] - w[d]
			// the sign of the Nyquist frequency is a convention
			if !(math.Abs(df) < 1e-12) && !(lib.IsNyquist(dims, i, d) && math.Abs(math.Abs(f[d])-0.5) < 1e-12) {
				c.Fatalf("freq", "node %d has frequency %v, expected %v", i, f, w)
			}
		}
		j := ft.ConjugateNode(i)
		if j < 0 || j >= n {
			c.Fatalf("conj", "conjugate of node %d is %d of %d nodes", i, j, n)
		}
		p, q := lib.PosOf(dims, i), lib.PosOf(dims, j)
		for d := range dims {
			if (p[d]+q[d])%dims[d] != 0 {
				c.Fatalf("conj", "conjugate of node %d (%v) is %d (%v)", i, p, j, q)
			}
		}
		if ft.ConjugateNode(j) != i {
			c.Fatalf("conj", "conjugation of node %d is not an involution", i)
		}
	}
	// a plane wave
	i := c.R.Intn(n)
	f := ft.Freq(i)
	x := make([]complex128, n)
	for k := range x {
		pos := pfutil.Pos(dims, k)
		arg := 0.0
		for d := range dims {
			arg += f[d] * float64(pos[d])
		}
		x[k] = cmplx.Exp(complex(0, 2*math.Pi*arg))
	}
	ft.FFT(x)
	for k := range x {
		w := complex(0, 0)
		if k == i {
			w = complex(float64(n), 0)
		}
		if cmplx.Abs(x[k]-w) > 1e-9*float64(n) {
			c.Fatalf("planewave", "wave with the frequency %v of node %d has amplitude %v in node %d", f, i, x[k], k)
		}
	}
	c.Count("frequencies", n)
	c.Key("%v", dims)
}

// node numbers and positions
func nodes(c *lib.Case) {
	r := c.R
	dims := dimsOf(c)
	n := lib.Prod(dims)
	c.Notef("dims %v", dims)
	for i := 0; i < n; i++ {
		p := pfutil.Pos(dims, i)
		w := lib.PosOf(dims, i)
		for d := range dims {
			if p[d] != w[d] {
				c.Fatalf("pos", "node %d is at %v, expected %v", i, p, w)
			}
		}
		if pfutil.NodeIdx(dims, p) != i {
			c.Fatalf("idx", "position %v of node %d has the number %d", p, i, pfutil.NodeIdx(dims, p))
		}
	}
	// wrapping
	for k := 0; k < 30; k++ {
		in := make([]int, len(dims))
		want := make([]int, len(dims))
		for d := range dims {
			want[d] = r.Intn(dims[d])
			in[d] = want[d] + dims[d]*(r.Intn(7)-3)
		}
		pfutil.Wrap(in, dims)
		for d := range dims {
			if in[d] != want[d] {
				c.Fatalf("wrap", "position wraps to %v, expected %v", in, want)
			}
		}
		c.Count("wraps", 1)
	}
	c.Count("nodes", n)
	c.Key("%v", dims)
}

// the iterators over independent amplitudes of real fields
func unique(c *lib.Case) {
	dims := dimsOf(c)
	n := lib.Prod(dims)
	c.Notef("dims %v", dims)
	ft := pfutil.NewFFTW(dims)
	conj := func(i int) int {
		p := lib.PosOf(dims, i)
		for d := range p {
			p[d] = (dims[d] - p[d]) % dims[d]
		}
		return lib.Idx(dims, p)
	}
	seen := make([]bool, n)
	it := pf.UniqueFreqIterator{Freq: ft.Freq, End: n}
	last := -1
	for i := it.Next(); i != -1; i = it.Next() {
		if i <= last || i >= n {
			c.Fatalf("unique", "dims %v: node %d after node %d", dims, i, last)
		}
		last = i
		seen[i] = true
	}
	if it.Next() != -1 && last == n-1 {
		c.Fatalf("unique", "the exhausted iterator continues")
	}
	for i := range seen {
		j := conj(i)
		if i == j && !seen[i] || i != j && seen[i] == seen[j] {
			c.Fatalf("unique", "dims %v: of the conjugate nodes %v and %v the iterator returned: %v, %v", dims, lib.PosOf(dims, i), lib.PosOf(dims, j), seen[i], seen[j])
		}
	}
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the iterator prints
		defer null.Close()
	}
	defer func() { os.Stdout = out }()
	re := make([]bool, n)
	ra := pf.RealAmplitudeIterator{Freq: ft.Freq, End: n}
	last = -1
	for i := ra.Next(); i != -1; i = ra.Next() {
		if i <= last || i >= n {
			c.Fatalf("realamp", "dims %v: node %d after node %d", dims, i, last)
		}
		last = i
		re[i] = true
	}
	for i := range re {
		if re[i] != (conj(i) == i) {
			c.Fatalf("realamp", "dims %v: node %v with the conjugate %v was returned: %v", dims, lib.PosOf(dims, i), lib.PosOf(dims, conj(i)), re[i])
		}
	}
	c.Count("iterated", 2*n)
	c.Key("%v", dims)
}

func main() {
	lib.Main(lib.Prop{ID: "C09", Level: "exploration",
		Rule: "Random 2D and 3D domains with sides 1-20 (odd, even, prime, non-cubic): forward and backward transforms of random complex data against the defining sum, round trip, frequency and conjugate of every node, plane waves, node number <-> position for every node, periodic wrapping, iterators over independent and over real amplitudes. Non-trivial: the domain was checked completely; classes are the domain sizes.",
		Groups: []lib.Group{
			{Name: "transform", Quick: 600, Thorough: 12000, Run: transform},
			{Name: "freq", Quick: 600, Thorough: 12000, Run: freq},
			{Name: "nodes", Quick: 600, Thorough: 12000, Run: nodes},
			{Name: "unique", Quick: 600, Thorough: 12000, Run: unique},
		}})
}
