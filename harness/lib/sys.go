package lib

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/davidkleiven/gopf/pf"
)

// Fac is a factor name^pow.
type Fac struct {
	Name string
	Pow  int
}

// PTerm is one term of an equation: Sign * prod(Scalars) * LAP^Lap prod(Fields).
type PTerm struct {
	Sign    int
	Scalars []Fac
	Lap     int
	Fields  []Fac // fields and functions
}

// Fn is a registered point-wise function of the fields.
type Fn struct {
	Name string
	Args []string
	Kind int
}

// Call evaluates the function.
func (f Fn) Call(v []float64) float64 {
	s := 0.0
	for i, x := range v {
		s += float64(i+1) * x
	}
	switch f.Kind {
	case 0:
		return math.Tanh(s)
	case 1:
		return 0.3 + 0.5*math.Sin(s)
	case 2:
		return 1.0 / (1.0 + s*s)
	default:
		return s*s - 0.25
	}
}

// System is a randomly generated set of equations with an independent semantics.
type System struct {
	Dims    []int
	Names   []string // field names in the order they are added
	Init    [][]float64
	Scalars map[string]float64
	ScOrder []string
	Fns     []Fn
	Eqs     map[string][]PTerm // per field
	EqOrder []string           // order in which the equations are added
	Text    map[string]string
}

// SysOpts steers the generator.
type SysOpts struct {
	// Hostile allows names that contain each other, repeated factors and odd spacing
	Hostile   bool
	MaxFields int
	MaxTerms  int
	MaxLap    int
	MaxPow    int
	Funcs     bool
	// Damped adds a stabilising linear term to all equations
	Damped bool
	// ShuffleEqs adds equations in another order than the fields
	ShuffleEqs bool
	ScalarAmp  float64
	FieldAmp   float64
	Constants  bool // terms without any field
	NoLinear   bool // no terms that are linear in the own field
	MinLap     int  // every term has at least this power of the Laplacian
	Tame       bool // no high powers, no crowds of fields or terms
}

var hostileFields = [][]string{
	{"c", "c2", "cc"}, {"conc", "conc2", "con"}, {"eta", "eta1", "beta"}, {"x", "y", "xy"},
	{"phi", "psi", "phi_psi"}, {"a", "b", "ab"}, {"u", "v", "w"}, {"T", "t", "Tt"}, {"d", "dt", "dd"},
}
var cleanFields = [][]string{{"conc", "eta", "phi"}, {"temp", "rho", "uvel"}, {"xi", "zz", "qq"}}
var hostileScalars = []string{"m", "m1", "mm", "k", "kappa", "D", "D2", "alpha", "gam", "L"}
var cleanScalars = []string{"AAA", "BBB", "KKK", "MMM", "DDD"}
var hostileFns = []string{"F", "FF", "G", "f_c", "rate"}
var cleanFns = []string{"FUN", "GUN", "HUN"}

// GenSystem draws a system.
func GenSystem(r *rand.Rand, dims []int, o SysOpts) *System {
	s := &System{Dims: dims, Scalars: map[string]float64{}, Eqs: map[string][]PTerm{}, Text: map[string]string{}}
	if o.ScalarAmp == 0 {
		o.ScalarAmp = 1.5
	}
	if o.FieldAmp == 0 {
		o.FieldAmp = 1.0
	}
	pool, sc, fn := cleanFields, cleanScalars, cleanFns
	if o.Hostile {
		pool, sc, fn = hostileFields, hostileScalars, hostileFns
	}
	names := append([]string{}, pool[r.Intn(len(pool))]...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	nf := 1 + r.Intn(o.MaxFields)
	if !o.Tame && o.MaxFields >= 3 && r.Intn(15) == 0 {
		// many fields
		for i := 0; i < 9; i++ {
			if o.Hostile {
				names = append(names, fmt.Sprintf("%s%d", names[i%3], 3+i))
			} else {
				names = append(names, string(rune('g'+i))+"fld")
			}
		}
		nf = 4 + r.Intn(len(names)-3)
		o.MaxTerms = 2
	}
	if !o.Tame && o.MaxTerms >= 3 && r.Intn(15) == 0 {
		o.MaxTerms = 12
	}
	s.Names = names[:nf]
	taken := map[string]bool{}
	for _, n := range s.Names {
		taken[n] = true
		s.Init = append(s.Init, RandField(r, dims, o.FieldAmp))
	}
	nsc := 1 + r.Intn(4)
	perm := r.Perm(len(sc))
	for _, i := range perm {
		if len(s.ScOrder) >= nsc {
			break
		}
		if taken[sc[i]] {
			continue
		}
		v := o.ScalarAmp * (2*r.Float64() - 1)
		if math.Abs(v) < 0.05 {
			v = 0.37
		}
		s.Scalars[sc[i]] = v
		s.ScOrder = append(s.ScOrder, sc[i])
		taken[sc[i]] = true
	}
	if o.Funcs {
		nfn := r.Intn(3)
		p2 := r.Perm(len(fn))
		for _, i := range p2 {
			if len(s.Fns) >= nfn {
				break
			}
			if taken[fn[i]] {
				continue
			}
			taken[fn[i]] = true
			f := Fn{Name: fn[i], Kind: r.Intn(4)}
			na := 1 + r.Intn(nf)
			for _, j := range r.Perm(nf)[:na] {
				f.Args = append(f.Args, s.Names[j])
			}
			s.Fns = append(s.Fns, f)
		}
	}
	for _, own := range s.Names {
		nt := 1 + r.Intn(o.MaxTerms)
		for k := 0; k < nt; k++ {
			s.Eqs[own] = append(s.Eqs[own], s.genTerm(r, own, o))
		}
		if o.Damped {
			s.Eqs[own] = append(s.Eqs[own], PTerm{Sign: 1, Scalars: []Fac{{"DAMP", 1}}, Lap: 1, Fields: []Fac{{own, 1}}})
		}
		s.Text[own] = s.render(r, own, o)
	}
	if o.Damped {
		s.Scalars["DAMP"] = 0.2 + r.Float64()
		s.ScOrder = append(s.ScOrder, "DAMP")
	}
	s.EqOrder = append([]string{}, s.Names...)
	if o.ShuffleEqs {
		r.Shuffle(nf, func(i, j int) { s.EqOrder[i], s.EqOrder[j] = s.EqOrder[j], s.EqOrder[i] })
	}
	return s
}

func (s *System) genTerm(r *rand.Rand, own string, o SysOpts) PTerm {
	t := PTerm{Sign: 1 - 2*r.Intn(2)}
	for n := r.Intn(3); n > 0; n-- {
		t.Scalars = append(t.Scalars, Fac{s.ScOrder[r.Intn(len(s.ScOrder))], 1 + r.Intn(2)})
		if r.Intn(12) == 0 {
			t.Scalars[len(t.Scalars)-1].Pow = 3 + r.Intn(9)
		}
	}
	if r.Intn(2) == 0 && o.MaxLap > 0 {
		t.Lap = 1 + r.Intn(o.MaxLap)
	}
	if t.Lap < o.MinLap {
		t.Lap = o.MinLap
	}
	if o.Constants && r.Intn(8) == 0 {
		if len(t.Scalars) == 0 {
			t.Scalars = []Fac{{s.ScOrder[0], 1}}
		}
		t.Lap = 0
		return t
	}
	switch r.Intn(5) {
	case 0: // linear in the own field
		if !o.NoLinear {
			t.Fields = []Fac{{own, 1}}
			return t
		}
		fallthrough
	case 1: // linear in any field
		n := s.Names[r.Intn(len(s.Names))]
		if o.NoLinear && n == own {
			t.Fields = []Fac{{own, 2}}
			return t
		}
		t.Fields = []Fac{{n, 1}}
		return t
	default:
		cand := append([]string{}, s.Names...)
		for _, f := range s.Fns {
			cand = append(cand, f.Name)
		}
		n := 1 + r.Intn(3)
		used := map[string]bool{}
		pow := 0
		for i := 0; i < n; i++ {
			c := cand[r.Intn(len(cand))]
			if used[c] && !o.Hostile {
				continue
			}
			used[c] = true
			p := 1 + r.Intn(o.MaxPow)
			if pow+p > 5 {
				p = 1
			}
			if !o.Tame && i == 0 && o.MaxPow >= 3 && r.Intn(15) == 0 {
				p = 6 + r.Intn(8)
			}
			pow += p
			t.Fields = append(t.Fields, Fac{c, p})
		}
		if o.NoLinear && len(t.Fields) == 1 && t.Fields[0] == (Fac{own, 1}) {
			t.Fields[0].Pow = 2
		}
	}
	return t
}

func sp(r *rand.Rand, o SysOpts) string {
	if o.Hostile && r.Intn(3) == 0 {
		return " "
	}
	return ""
}

func facStr(f Fac) string {
	if f.Pow == 1 {
		return f.Name
	}
	return fmt.Sprintf("%s^%d", f.Name, f.Pow)
}

func (s *System) render(r *rand.Rand, own string, o SysOpts) string {
	var b strings.Builder
	fmt.Fprintf(&b, "d%s/dt%s=%s", own, " ", " ")
	for i, t := range s.Eqs[own] {
		if t.Sign < 0 {
			b.WriteString("-" + sp(r, o))
		} else if i > 0 {
			b.WriteString("+" + sp(r, o))
		}
		b.WriteString(t.str(r, o))
		b.WriteString(" ")
	}
	return strings.TrimRight(b.String(), " ")
}

// str writes the term. The Laplacian precedes all fields; scalars go anywhere.
func (t PTerm) str(r *rand.Rand, o SysOpts) string {
	var fl []string
	for _, f := range t.Fields {
		fl = append(fl, facStr(f))
	}
	if o.Hostile {
		r.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
	}
	var before, after []string
	for _, f := range t.Scalars {
		if o.Hostile && r.Intn(3) == 0 && len(fl) > 0 {
			after = append(after, facStr(f))
		} else {
			before = append(before, facStr(f))
		}
	}
	// scalars that come last are mixed with the fields
	for _, a := range after {
		k := r.Intn(len(fl) + 1)
		fl = append(fl[:k], append([]string{a}, fl[k:]...)...)
	}
	if t.Lap > 0 {
		lap := "LAP"
		if t.Lap > 1 {
			lap = fmt.Sprintf("LAP^%d", t.Lap)
		}
		if len(fl) > 0 {
			sepr := " "
			if o.Hostile && r.Intn(4) == 0 {
				sepr = "*"
			}
			fl[0] = lap + sepr + fl[0]
		}
	}
	star := "*"
	if o.Hostile && r.Intn(4) == 0 {
		star = " * "
	}
	return strings.Join(append(before, fl...), star)
}

// Describe prints the system.
func (s *System) Describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "dims %v fields %v scalars %v", s.Dims, s.Names, s.Scalars)
	for _, f := range s.Fns {
		fmt.Fprintf(&b, " fn %s(%v)#%d", f.Name, f.Args, f.Kind)
	}
	for _, n := range s.EqOrder {
		fmt.Fprintf(&b, " | %s", s.Text[n])
	}
	return b.String()
}

// Build creates the gopf model (not initialised; NewSolver does that).
func (s *System) Build() *pf.Model {
	m := pf.NewModel()
	n := Prod(s.Dims)
	for i, name := range s.Names {
		m.AddField(pf.NewField(name, n, ToC(s.Init[i])))
	}
	for _, k := range s.ScOrder {
		m.AddScalar(pf.NewScalar(k, complex(s.Scalars[k], 0)))
	}
	for _, f := range s.Fns {
		f := f
		m.RegisterFunction(f.Name, func(i int, bricks map[string]pf.Brick) complex128 {
			v := make([]float64, len(f.Args))
			for k, a := range f.Args {
				v[k] = real(bricks[a].Get(i))
			}
			return complex(f.Call(v), 0)
		})
	}
	for _, name := range s.EqOrder {
		m.AddEquation(s.Text[name])
	}
	return &m
}

// ChangeScalar gives one scalar of a running model another value: smaller, and of the same sign. It reports whether there
// is one.
func (s *System) ChangeScalar(r *rand.Rand, m *pf.Model) bool {
	if len(s.ScOrder) == 0 {
		return false
	}
	k := s.ScOrder[r.Intn(len(s.ScOrder))]
	b, ok := m.Bricks[k].(*pf.Scalar)
	if !ok {
		return false
	}
	s.Scalars[k] *= 0.3 + 0.6*r.Float64()
	b.SetFloat(s.Scalars[k])
	return true
}

func (s *System) fieldNo(name string) int {
	for i, n := range s.Names {
		if n == name {
			return i
		}
	}
	return -1
}

func (s *System) coef(t PTerm) float64 {
	v := float64(t.Sign)
	for _, f := range t.Scalars {
		v *= math.Pow(s.Scalars[f.Name], float64(f.Pow))
	}
	return v
}

func (s *System) product(t PTerm, y [][]float64) []float64 {
	out := make([]float64, Prod(s.Dims))
	for i := range out {
		v := 1.0
		for _, f := range t.Fields {
			var x float64
			if k := s.fieldNo(f.Name); k >= 0 {
				x = y[k][i]
			} else {
				for _, fn := range s.Fns {
					if fn.Name == f.Name {
						a := make([]float64, len(fn.Args))
						for j, n := range fn.Args {
							a[j] = y[s.fieldNo(n)][i]
						}
						x = fn.Call(a)
					}
				}
			}
			v *= math.Pow(x, float64(f.Pow))
		}
		out[i] = v
	}
	return out
}

// OwnLinear is true if the term is coefficient * LAP^n own.
func (t PTerm) OwnLinear(own string) bool {
	return len(t.Fields) == 1 && t.Fields[0].Name == own && t.Fields[0].Pow == 1
}

// RHS evaluates the full right hand side of the equation of field i in real space, and a
// bound on the size of its parts.
func (s *System) RHS(i int, y [][]float64) ([]float64, float64) {
	out := make([]float64, Prod(s.Dims))
	scale := 0.0
	for _, t := range s.Eqs[s.Names[i]] {
		p := LapPow(s.Dims, s.product(t, y), t.Lap)
		c := s.coef(t)
		for k := range out {
			out[k] += c * p[k]
		}
		scale += math.Abs(c) * MaxAbsR(s.product(t, y)) * math.Pow(math.Pi*math.Pi*float64(len(s.Dims)), float64(t.Lap))
	}
	return out, scale
}

// Split returns the explicit part in Fourier space and the implicit coefficient per mode.
func (s *System) Split(i int, y [][]float64) (expl []complex128, lin []complex128) {
	n := Prod(s.Dims)
	ex := make([]float64, n)
	lin = make([]complex128, n)
	own := s.Names[i]
	for _, t := range s.Eqs[own] {
		c := s.coef(t)
		if t.OwnLinear(own) {
			for k := range lin {
				lin[k] += complex(c*math.Pow(-K2(FreqOf(s.Dims, k)), float64(t.Lap)), 0)
			}
			continue
		}
		p := LapPow(s.Dims, s.product(t, y), t.Lap)
		for k := range ex {
			ex[k] += c * p[k]
		}
	}
	return Fwd(s.Dims, ex), lin
}

// Fields returns the real parts of the fields of a model.
func Fields(m *pf.Model) [][]float64 {
	out := make([][]float64, len(m.Fields))
	for i := range m.Fields {
		out[i] = Re(m.Fields[i].Data)
	}
	return out
}

// MaxImag returns the largest imaginary part in the fields.
func MaxImag(m *pf.Model) float64 {
	v := 0.0
	for i := range m.Fields {
		for _, c := range m.Fields[i].Data {
			if math.Abs(imag(c)) > v {
				v = math.Abs(imag(c))
			}
			if math.IsNaN(imag(c)) || math.IsNaN(real(c)) {
				return math.NaN()
			}
		}
	}
	return v
}
