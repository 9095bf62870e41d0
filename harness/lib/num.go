package lib

import (
	"fmt"
	"math"
	"math/cmplx"
	"math/rand"
	"os"
	"path/filepath"
)

// The helpers in this file are written from the definitions and share no code with gopf.

// Idx returns the node number of a position. 2D: x*ny + y. 3D: z*nx*ny + x*ny + y.
func Idx(dims []int, pos []int) int {
	if len(dims) == 2 {
		return pos[0]*dims[1] + pos[1]
	}
	return (pos[2]*dims[0]+pos[0])*dims[1] + pos[1]
}

// PosOf is the inverse of Idx.
func PosOf(dims []int, i int) []int {
	if len(dims) == 2 {
		return []int{i / dims[1], i % dims[1]}
	}
	y := i % dims[1]
	i /= dims[1]
	return []int{i % dims[0], y, i / dims[0]}
}

// Prod returns the number of nodes.
func Prod(dims []int) int {
	p := 1
	for _, d := range dims {
		p *= d
	}
	return p
}

// Freq1 returns the signed frequency of index k for n samples (Nyquist: +1/2).
func Freq1(k, n int) float64 {
	if 2*k > n {
		return float64(k-n) / float64(n)
	}
	return float64(k) / float64(n)
}

// FreqOf returns the frequency vector of a node.
func FreqOf(dims []int, i int) []float64 {
	p := PosOf(dims, i)
	f := make([]float64, len(dims))
	for k := range dims {
		f[k] = Freq1(p[k], dims[k])
	}
	return f
}

// IsNyquist is true if component k of node i is at the Nyquist frequency.
func IsNyquist(dims []int, i, k int) bool {
	p := PosOf(dims, i)
	return dims[k]%2 == 0 && 2*p[k] == dims[k] && dims[k] > 1
}

// DFT returns the unnormalised discrete Fourier transform (sign=-1 forward, +1 backward).
func DFT(dims []int, in []complex128, sign float64) []complex128 {
	out := append([]complex128{}, in...)
	for d := range dims {
		n := dims[d]
		if n == 1 {
			continue
		}
		tw := make([]complex128, n)
		for k := range tw {
			s, c := math.Sincos(2 * math.Pi * float64(k) / float64(n))
			tw[k] = complex(c, sign*s)
		}
		tmp := make([]complex128, n)
		for i := range out {
			p := PosOf(dims, i)
			if p[d] != 0 {
				continue
			}
			for k := 0; k < n; k++ {
				p[d] = k
				tmp[k] = out[Idx(dims, p)]
			}
			for k := 0; k < n; k++ {
				s := complex(0, 0)
				for j := 0; j < n; j++ {
					s += tmp[j] * tw[(j*k)%n]
				}
				p[d] = k
				out[Idx(dims, p)] = s
			}
		}
	}
	return out
}

// Fwd transforms a real field.
func Fwd(dims []int, in []float64) []complex128 { return DFT(dims, ToC(in), -1) }

// Inv inverts Fwd (with normalisation).
func Inv(dims []int, in []complex128) []complex128 {
	out := DFT(dims, in, 1)
	for i := range out {
		out[i] /= complex(float64(len(out)), 0)
	}
	return out
}

// ToC converts to complex.
func ToC(in []float64) []complex128 {
	out := make([]complex128, len(in))
	for i := range in {
		out[i] = complex(in[i], 0)
	}
	return out
}

// Re returns the real part.
func Re(in []complex128) []float64 {
	out := make([]float64, len(in))
	for i := range in {
		out[i] = real(in[i])
	}
	return out
}

// MaxAbs returns the largest modulus.
func MaxAbs(in []complex128) float64 {
	m := 0.0
	for _, v := range in {
		if a := cmplx.Abs(v); a > m {
			m = a
		}
		if cmplx.IsNaN(v) {
			return math.NaN()
		}
	}
	return m
}

// MaxAbsR is MaxAbs for real arrays.
func MaxAbsR(in []float64) float64 {
	m := 0.0
	for _, v := range in {
		if math.IsNaN(v) {
			return v
		}
		if a := math.Abs(v); a > m {
			m = a
		}
	}
	return m
}

// Diff returns the largest modulus of a-b and where it is.
func Diff(a, b []complex128) (float64, int) {
	if len(a) != len(b) {
		return math.Inf(1), -1
	}
	m, at := 0.0, 0
	for i := range a {
		d := cmplx.Abs(a[i] - b[i])
		if math.IsNaN(d) {
			return math.Inf(1), i
		}
		if d > m {
			m, at = d, i
		}
	}
	return m, at
}

// DiffR is Diff for real arrays.
func DiffR(a, b []float64) (float64, int) {
	return Diff(ToC(a), ToC(b))
}

// K2 returns (2 pi f)^2.
func K2(f []float64) float64 {
	s := 0.0
	for _, v := range f {
		s += 4 * math.Pi * math.Pi * v * v
	}
	return s
}

// LapPow applies the n-th power of the Laplacian to a real field.
func LapPow(dims []int, in []float64, n int) []float64 {
	if n == 0 {
		return append([]float64{}, in...)
	}
	h := Fwd(dims, in)
	for i := range h {
		h[i] *= complex(math.Pow(-K2(FreqOf(dims, i)), float64(n)), 0)
	}
	return Re(Inv(dims, h))
}

// Deriv returns the spectral derivative along direction d (Nyquist component omitted).
func Deriv(dims []int, in []float64, d int) []float64 {
	h := Fwd(dims, in)
	for i := range h {
		f := FreqOf(dims, i)[d]
		if IsNyquist(dims, i, d) {
			f = 0
		}
		h[i] *= complex(0, 2*math.Pi*f)
	}
	return Re(Inv(dims, h))
}

// RandDims draws a domain: 2D or 3D, non-cubic and odd sizes included.
func RandDims(r *rand.Rand, dim, min, max int) []int {
	d := make([]int, dim)
	for i := range d {
		d[i] = min + r.Intn(max-min+1)
	}
	return d
}

// Dims2or3 draws 2D (2/3 of the time) or 3D dims with at most maxNodes nodes.
func Dims2or3(r *rand.Rand, min, max, maxNodes int) []int {
	if r.Intn(20) == 0 {
		// long and thin, or larger than usual
		d := []int{1 + r.Intn(4), 2 + r.Intn(maxNodes)}
		switch r.Intn(4) {
		case 0:
			d = []int{1 + r.Intn(3), 2 + r.Intn(maxNodes/2), 1 + r.Intn(3)}
		case 1:
			k := int(math.Sqrt(float64(3 * maxNodes)))
			d = []int{max + r.Intn(k), max + r.Intn(k)}
		}
		r.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
		if Prod(d) <= 4*maxNodes {
			return d
		}
	}
	for {
		dim := 2
		if r.Intn(3) == 0 {
			dim = 3
		}
		d := RandDims(r, dim, min, max)
		if Prod(d) <= maxNodes {
			return d
		}
	}
}

// RandField draws a real field: white noise, a few Fourier modes, spikes or steps.
func RandField(r *rand.Rand, dims []int, amp float64) []float64 {
	out := randField(r, dims, amp)
	n := len(out)
	// structured data: code paths that look at single nodes, signs or sums
	switch r.Intn(16) {
	case 0:
		out[0] = 0
	case 1:
		a := r.Intn(n + 1)
		for i := range out {
			if i < a {
				out[i] = 0
			}
		}
	case 2:
		k := r.Intn(n)
		for i := range out {
			if i != k {
				out[i] = 0
			}
		}
	case 3:
		out[n-1] = 0
	case 4:
		s := 1.0
		if r.Intn(2) == 0 {
			s = -1
		}
		for i := range out {
			out[i] = s * math.Abs(out[i])
		}
	case 5:
		m := Mean(out)
		for i := range out {
			out[i] -= m
		}
	case 6:
		d := r.Intn(len(dims))
		for i := range out {
			out[i] = amp * math.Sin(2*math.Pi*float64(PosOf(dims, i)[d])/float64(dims[d]))
		}
	case 7:
		if r.Intn(3) == 0 {
			for i := range out {
				out[i] = 0
			}
		}
	}
	return out
}

// randField draws unstructured data
func randField(r *rand.Rand, dims []int, amp float64) []float64 {
	n := Prod(dims)
	out := make([]float64, n)
	switch r.Intn(4) {
	case 0:
		for i := range out {
			out[i] = amp * (2*r.Float64() - 1)
		}
	case 1:
		nm := 1 + r.Intn(4)
		off := amp * (2*r.Float64() - 1) * 0.3
		for i := range out {
			out[i] = off
		}
		for m := 0; m < nm; m++ {
			k := make([]int, len(dims))
			for d := range dims {
				k[d] = r.Intn(dims[d])
			}
			ph := r.Float64() * 2 * math.Pi
			a := amp * r.Float64() / float64(nm)
			for i := range out {
				p := PosOf(dims, i)
				arg := ph
				for d := range dims {
					arg += 2 * math.Pi * float64(k[d]*p[d]) / float64(dims[d])
				}
				out[i] += a * math.Cos(arg)
			}
		}
	case 2:
		base := amp * (2*r.Float64() - 1) * 0.5
		for i := range out {
			out[i] = base
			if r.Intn(6) == 0 {
				out[i] += amp * (r.Float64() - 0.5)
			}
		}
	default:
		for i := range out {
			p := PosOf(dims, i)
			if 2*p[0] < dims[0] {
				out[i] = amp * 0.8
			} else {
				out[i] = -amp * 0.6
			}
			out[i] += 0.1 * amp * r.NormFloat64()
		}
	}
	return out
}

// SmoothField draws a trigonometric polynomial with |k_d| <= kmax, and its coefficients.
type TrigPoly struct {
	Dims []int
	Off  float64
	K    [][]int
	A    []float64
	Ph   []float64
}

// NewTrigPoly draws a trigonometric polynomial.
func NewTrigPoly(r *rand.Rand, dims []int, nm int, kmax func(n int) int, amp float64) TrigPoly {
	t := TrigPoly{Dims: dims, Off: amp * (2*r.Float64() - 1)}
	for m := 0; m < nm; m++ {
		k := make([]int, len(dims))
		for d := range dims {
			mx := kmax(dims[d])
			k[d] = r.Intn(2*mx+1) - mx
		}
		t.K = append(t.K, k)
		t.A = append(t.A, amp*(0.2+r.Float64()))
		t.Ph = append(t.Ph, 2*math.Pi*r.Float64())
	}
	if r.Intn(4) == 0 {
		// exact zeros at the origin, or an extremum there
		t.Off = 0
		for m := range t.Ph {
			t.Ph[m] = math.Pi / 2 * float64(r.Intn(4))
		}
	}
	return t
}

// Eval evaluates the derivative with multi-index der (orders per direction).
func (t TrigPoly) Eval(pos []int, der []int) float64 {
	tot := 0
	for _, d := range der {
		tot += d
	}
	s := 0.0
	if tot == 0 {
		s = t.Off
	}
	for m := range t.K {
		arg := t.Ph[m]
		f := t.A[m]
		for d := range t.Dims {
			k := 2 * math.Pi * float64(t.K[m][d]) / float64(t.Dims[d])
			arg += k * float64(pos[d])
			if der != nil {
				f *= math.Pow(k, float64(der[d]))
			}
		}
		s += f * math.Cos(arg+float64(tot)*math.Pi/2)
	}
	return s
}

// Field evaluates on all nodes.
func (t TrigPoly) Field(der []int) []float64 {
	out := make([]float64, Prod(t.Dims))
	for i := range out {
		out[i] = t.Eval(PosOf(t.Dims, i), der)
	}
	return out
}

// Mean returns the average.
func Mean(x []float64) float64 {
	s := 0.0
	for _, v := range x {
		s += v
	}
	return s / float64(len(x))
}

// FreqFunc returns the frequency function of the harness.
func FreqFunc(dims []int) func(i int) []float64 {
	return func(i int) []float64 { return FreqOf(dims, i) }
}

// Must reports harness trouble.
func Must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %s", err))
	}
}

// ReadDirNames lists files.
func ReadDirNames(dir string) []string {
	m, _ := filepath.Glob(filepath.Join(dir, "*"))
	var out []string
	for _, f := range m {
		out = append(out, filepath.Base(f))
	}
	return out
}

// FileSize returns -1 when absent.
func FileSize(f string) int64 {
	st, err := os.Stat(f)
	if err != nil {
		return -1
	}
	return st.Size()
}
