package lib

import (
	"math"
	"math/cmplx"
	"math/rand"
	"sort"
	"sync"

	"github.com/davidkleiven/gopf/pf"
)

// Src is a point source with a recorded time dependence.
type Src struct {
	Field int
	Pos   []float64
	Kind  int
	Amp   float64
	Calls *TimeLog
}

// TimeLog records the times a callback was evaluated at.
type TimeLog struct {
	mu sync.Mutex
	T  map[float64]int
}

// Add records a time.
func (l *TimeLog) Add(t float64) {
	l.mu.Lock()
	if l.T == nil {
		l.T = map[float64]int{}
	}
	l.T[t]++
	l.mu.Unlock()
}

// Take returns the distinct times seen, and clears the log.
func (l *TimeLog) Take() []float64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	var out []float64
	for t := range l.T {
		out = append(out, t)
	}
	l.T = nil
	sort.Float64s(out)
	return out
}

// Val is the strength at time t.
func (s Src) Val(t float64) float64 {
	switch s.Kind {
	case 0:
		return s.Amp
	case 1:
		return s.Amp * math.Cos(3*t)
	case 2:
		return s.Amp * t
	case 4: // switched on and off
		if math.Sin(40*t+9*s.Amp) < 0 {
			return 0
		}
		return s.Amp
	default:
		return s.Amp * math.Exp(-t)
	}
}

// Add adds the Fourier transformed source to n.
func (s Src) Add(dims []int, t float64, n []complex128) {
	v := s.Val(t)
	for k := range n {
		f := FreqOf(dims, k)
		arg := 0.0
		for d := range f {
			arg += f[d] * s.Pos[d]
		}
		n[k] += complex(v, 0) * cmplx.Exp(complex(0, -2*math.Pi*arg))
	}
}

// RandSources draws point sources on grid nodes (and sometimes in between).
func RandSources(r *rand.Rand, dims []int, nf, max int) []Src {
	var out []Src
	for n := r.Intn(max + 1); n > 0; n-- {
		s := Src{Field: r.Intn(nf), Kind: r.Intn(6), Amp: 2*r.Float64() - 1, Calls: &TimeLog{}}
		for _, d := range dims {
			s.Pos = append(s.Pos, float64(r.Intn(d)))
		}
		out = append(out, s)
	}
	return out
}

// Attach adds the source to the model.
func (s Src) Attach(m *pf.Model, name string) {
	m.AddSource(m.EqNumber(name), pf.NewSource(s.Pos, func(t float64) float64 {
		s.Calls.Add(t)
		return s.Val(t)
	}))
}

// NL evaluates the explicit part of all equations (Fourier space) at (t, y), and the implicit
// coefficients.
func (s *System) NL(y [][]float64, t float64, src []Src) (n, lin [][]complex128) {
	for i := range s.Names {
		e, l := s.Split(i, y)
		for _, q := range src {
			if q.Field == i {
				q.Add(s.Dims, t, e)
			}
		}
		n = append(n, e)
		lin = append(lin, l)
	}
	return
}

// FwdAll transforms all fields.
func FwdAll(dims []int, y [][]float64) [][]complex128 {
	var out [][]complex128
	for _, f := range y {
		out = append(out, Fwd(dims, f))
	}
	return out
}

// InvAll is the inverse; the real parts.
func InvAll(dims []int, y [][]complex128) [][]float64 {
	var out [][]float64
	for _, f := range y {
		out = append(out, Re(Inv(dims, f)))
	}
	return out
}

// MaxAll is the largest modulus.
func MaxAll(y [][]complex128) float64 {
	m := 0.0
	for _, f := range y {
		v := MaxAbs(f)
		if math.IsNaN(v) {
			return v
		}
		if v > m {
			m = v
		}
	}
	return m
}

// StageDen is (1 - h*lin).
func stage(y, k [][]complex128, lin [][]complex128, h float64) [][]complex128 {
	out := make([][]complex128, len(y))
	for i := range y {
		out[i] = make([]complex128, len(y[i]))
		for j := range y[i] {
			out[i][j] = (y[i][j] + complex(h, 0)*k[i][j]) / (1 - complex(h, 0)*lin[i][j])
		}
	}
	return out
}

// EulerOracle returns the Fourier transformed fields after one semi-implicit Euler step.
func (s *System) EulerOracle(y [][]float64, t, dt float64, src []Src) [][]complex128 {
	n, lin := s.NL(y, t, src)
	return stage(FwdAll(s.Dims, y), n, lin, dt)
}

// RK4Stages is the largest value any stage of a Runge-Kutta step takes.
func (s *System) RK4Stages(y [][]float64, t, dt float64, src []Src) float64 {
	yh := FwdAll(s.Dims, y)
	k, lin := s.NL(y, t, src)
	max := MaxAbsAll(y)
	for _, h := range []float64{dt / 2, dt / 2, dt} {
		z := InvAll(s.Dims, stage(yh, k, lin, h))
		v := MaxAbsAll(z)
		if math.IsNaN(v) {
			return v
		}
		if v > max {
			max = v
		}
		k, _ = s.NL(z, t+h, src)
	}
	return max
}

// RK4Oracle returns the Fourier transformed fields after one Runge-Kutta step.
func (s *System) RK4Oracle(y [][]float64, t, dt float64, src []Src) [][]complex128 {
	yh := FwdAll(s.Dims, y)
	k1, lin := s.NL(y, t, src)
	k2, _ := s.NL(InvAll(s.Dims, stage(yh, k1, lin, dt/2)), t+dt/2, src)
	k3, _ := s.NL(InvAll(s.Dims, stage(yh, k2, lin, dt/2)), t+dt/2, src)
	k4, _ := s.NL(InvAll(s.Dims, stage(yh, k3, lin, dt)), t+dt, src)
	k := make([][]complex128, len(y))
	for i := range y {
		k[i] = make([]complex128, len(k1[i]))
		for j := range k[i] {
			k[i][j] = (k1[i][j] + 2*k2[i][j] + 2*k3[i][j] + k4[i][j]) / 6
		}
	}
	return stage(yh, k, lin, dt)
}

// SafeDt draws a time step for which no implicit factor 1-h*lin (h = dt, dt/2) is close to zero
// and the explicit part does not blow up in one step.
func (s *System) SafeDt(r *rand.Rand, y [][]float64, max float64) float64 {
	n, lin := s.NL(y, 0, nil)
	big := MaxAll(n) / float64(Prod(s.Dims))
	dt := max * math.Pow(10, -3*r.Float64())
	if dt*big > 0.3 {
		dt = 0.3 / big
	}
	for try := 0; try < 40; try++ {
		ok := true
		for i := range lin {
			for _, l := range lin[i] {
				if cmplx.Abs(1-complex(dt, 0)*l) < 0.3 || cmplx.Abs(1-complex(dt/2, 0)*l) < 0.3 {
					ok = false
				}
			}
		}
		if ok {
			break
		}
		dt *= 0.8
	}
	if !(dt > 1e-9) {
		dt = 1e-9
	}
	return dt
}

// FilterFn is a modal filter given by a function.
type FilterFn struct {
	F    func(x float64) float64
	Args *TimeLog
}

// Eval evaluates.
func (f *FilterFn) Eval(x float64) float64 {
	if f.Args != nil {
		f.Args.Add(x)
	}
	return f.F(x)
}

// FilterArg is the value gopf hands to a filter for a mode.
func FilterArg(dims []int, i int) float64 {
	f := FreqOf(dims, i)
	s := 0.0
	for _, v := range f {
		s += v * v
	}
	return math.Sqrt(s) * 2 / math.Pi
}
