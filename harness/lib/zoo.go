package lib

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
)

// ZooKinds are the kinds of simulations Zoo builds.
var ZooKinds = []string{"equations", "advection", "operators", "elastic", "charge", "crystal", "constraint", "viscous", "saddle", "implicit", "sources"}

// Zoo builds a small stable simulation of the given kind, completely determined by the
// seed. Different kinds use the same names on purpose. init replaces the initial fields
// (nil: generated ones); step is the number of steps done before (for the clock).
func Zoo(kind string, dims []int, seed int64, init [][]float64, step int) *pf.Solver {
	r := rand.New(rand.NewSource(seed))
	n := Prod(dims)
	m := pf.NewModel()
	if kind == "equations" || kind == "sources" || kind == "implicit" {
		s := GenSystem(r, dims, SysOpts{Tame: kind == "implicit", MaxFields: 3, MaxTerms: 3, MaxLap: 1, MaxPow: 3, Funcs: true, Damped: true, ShuffleEqs: true, Constants: true, ScalarAmp: 0.5, FieldAmp: 0.3})
		dt := s.SafeDt(r, s.Init, 0.01)
		if init != nil {
			s.Init = init
		}
		mm := s.Build()
		if kind == "sources" {
			for _, q := range RandSources(r, dims, len(s.Names), 3) {
				q.Attach(mm, s.Names[q.Field])
			}
		}
		clock := &clockTerm{now: float64(step) * dt}
		if kind == "sources" {
			// a term that only knows the time it is told after each step
			clock.amp = r.NormFloat64()
			name := s.Names[r.Intn(len(s.Names))]
			mm.RegisterExplicitTerm("CLOCKED", clock, nil)
			for i, eq := range mm.Equations {
				if strings.HasPrefix(eq, "d"+name+"/dt=") {
					mm.Equations[i] += "+CLOCKED"
				}
			}
		}
		sol := pf.NewSolver(mm, dims, dt)
		switch {
		case kind == "implicit":
			dt = 1e-4
			sol.Stepper = &pf.ImplicitEuler{Dt: dt, FT: pfutil.NewFFTW(dims), CurrentStep: step}
		case r.Intn(2) == 0:
			sol.Stepper = &pf.RK4{Dt: dt, FT: sol.FT, CurrentStep: step}
		default:
			sol.Stepper = &pf.Euler{Dt: dt, FT: sol.FT, CurrentStep: step}
		}
		return sol
	}
	u, w := RandField(r, dims, 0.3), RandField(r, dims, 0.3)
	if init != nil {
		u, w = init[0], init[1]
	}
	m.AddField(pf.NewField("conc", n, ToC(u)))
	m.AddField(pf.NewField("eta", n, ToC(w)))
	m.AddScalar(pf.NewScalar("KKK", complex(0.2+r.Float64(), 0)))
	m.AddScalar(pf.NewScalar("AAA", complex(r.Float64(), 0)))
	dt := 1e-3 * (0.5 + r.Float64())
	ft := pfutil.NewFFTW(dims)
	a, b := r.NormFloat64(), r.NormFloat64()
	eq, eq2 := "TERM", "AAA*conc + KKK*LAP*eta - eta^3"
	rk4 := r.Intn(2) == 0
	switch kind {
	case "advection":
		ad := pf.Advection{Field: "conc"}
		for d := range dims {
			name := []string{"velx", "vely", "velz"}[d]
			if r.Intn(2) == 0 {
				name = "eta"
			} else {
				m.AddScalar(pf.NewScalar(name, complex(r.NormFloat64(), 0)))
			}
			ad.VelocityFields = append(ad.VelocityFields, name)
		}
		ad.PrepareModel(n, &m, ft)
		m.RegisterExplicitTerm("TERM", &ad, nil)
	case "operators":
		m.RegisterFunction("PREF", func(i int, br map[string]pf.Brick) complex128 {
			return complex(1+0.3*a*real(br["eta"].Get(i)), 0)
		})
		sq := pf.NewSquareGradient("conc", dims)
		sq.Factor = b
		m.RegisterExplicitTerm("TERM", &sq, nil)
		m.RegisterExplicitTerm("WLAP", &pf.WeightedLaplacian{Field: "conc", PreFactor: "PREF", FT: ft}, nil)
		k := make([]float64, len(dims)*len(dims))
		for d := range dims {
			k[d*len(dims)+d] = 0.1 + r.Float64()
		}
		m.RegisterImplicitTerm("HESS", &pf.TensorialHessian{Field: "conc", K: k}, nil)
		dg := &pf.DivGrad{Field: "eta", F: func(i int, br map[string]pf.Brick) complex128 { return complex(0.2+0.1*real(br["conc"].Get(i)), 0) }}
		dg.PrepareModel(n, &m, ft)
		m.RegisterExplicitTerm("DIVG", dg, nil)
		eq, eq2 = "TERM + WLAP + HESS", "DIVG - KKK*eta^3"
	case "elastic":
		mis := mat.NewDense(3, 3, nil)
		for d := 0; d < 3; d++ {
			mis.Set(d, d, 0.1*r.NormFloat64())
		}
		t := pf.NewHomogeneousModolus("conc", dims, elasticity.Isotropic(5+5*r.Float64(), 0.1+0.3*r.Float64()), mis)
		copy(t.Field, u)
		m.RegisterExplicitTerm("TERM", t, nil)
		eq = "TERM + KKK*LAP*conc"
	case "charge":
		dim := len(dims)
		t := &pf.ChargeTransport{Field: "conc", FT: ft, ExternalField: make([]float64, dim),
			Conductivity: func(i int) []float64 {
				s := make([]float64, dim*(dim+1)/2)
				for d := 0; d < dim; d++ {
					s[d] = 1.2 + 0.2*a/(1+a*a) + 0.1*float64((i+d)%3)
				}
				return s
			}}
		t.ExternalField[0] = b
		m.RegisterExplicitTerm("TERM", t, nil)
	case "crystal":
		co := pfc.ReciprocalSpacePairCorrelation{EffTemp: 0.2 + 0.1*r.Float64(), Peaks: []pfc.Peak{{PlaneDensity: 1, Location: 1 + r.Float64(), Width: 0.5, NumPlanes: 4}}}
		p := &pf.PairCorrlationTerm{PairCorrFunc: co, Field: "conc", Prefactor: 1, Laplacian: true}
		m.RegisterImplicitTerm("TERM", p, nil)
		id := &pf.IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: 0.5 * a, C4: 1}, Field: "conc", Prefactor: 1, Laplacian: true}
		m.RegisterMixedTerm("MIXTURE", id, []pf.DerivedField{id.DerivedField(n, m.Bricks)})
		eq = "MIXTURE - TERM"
		rk4 = false
	case "constraint":
		m.RegisterFunction("IND", func(i int, br map[string]pf.Brick) complex128 { return complex(1+0.1*a/(1+a*a), 0) })
		t := pf.NewVolumeConservingLP("conc", "IND", dt, n)
		m.RegisterExplicitTerm("TERM", &t, nil)
		eq = "TERM + KKK*LAP*conc + AAA*eta + AAA"
		rk4 = false
	case "viscous":
		m.RegisterImplicitTerm("TERM", &pf.SpectralViscosity{Eps: 0.5 + r.Float64(), DissipationThreshold: 0.2, Power: 2}, nil)
		nv := pf.NegativeValuePenalty{Prefactor: 1 + r.Float64(), Exponent: 3, Field: "conc"}
		m.RegisterFunction("PENALTY", nv.Evaluate)
		eq = "TERM - PENALTY + KKK*LAP*conc"
	case "saddle":
		eq, eq2 = "KKK*LAP*conc + AAA*eta - conc^3", "KKK*LAP*eta + AAA*conc - eta^3"
	default:
		panic("unknown kind " + kind)
	}
	m.AddEquation("dconc/dt = " + eq)
	m.AddEquation("deta/dt = " + eq2)
	sol := pf.NewSolver(&m, dims, dt)
	switch {
	case kind == "saddle":
		sdd := pf.NewSDD(dims, &m)
		sdd.Dt = dt
		o := make([]float64, 2*n)
		for i := range o {
			o[i] = r.NormFloat64()
		}
		sdd.SetInitialOrientation(o)
		sol.Stepper = &sdd
	case rk4:
		sol.Stepper = &pf.RK4{Dt: dt, FT: sol.FT, CurrentStep: step}
	default:
		sol.Stepper = &pf.Euler{Dt: dt, FT: sol.FT, CurrentStep: step}
	}
	if r.Intn(3) == 0 && kind != "saddle" {
		v := pf.NewVandeven(1 + r.Intn(4))
		sol.Stepper.SetFilter(&v)
	}
	return sol
}

// clockTerm is uniform and follows the time it is told at the end of each step.
type clockTerm struct{ amp, now float64 }

func (k *clockTerm) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, field []complex128) {
		for i := range field {
			field[i] = 0
		}
		field[0] = complex(float64(len(field))*k.amp*math.Cos(30*k.now), 0)
	}
}

func (k *clockTerm) OnStepFinished(t float64, b map[string]pf.Brick) { k.now = t }

// ZooDims draws a small domain.
func ZooDims(r *rand.Rand, kind string) []int {
	hi, max := 8, 130
	if kind == "implicit" {
		hi, max = 4, 16
	}
	for {
		if d := Dims2or3(r, 3, hi, max); Prod(d) <= 2*max {
			return d
		}
	}
}

// Same compares the fields of two runs of one simulation.
func Same(c *Case, key, what string, m *pf.Model, want [][]float64, tol float64) {
	got := Fields(m)
	for i := range want {
		if d, k := DiffR(got[i], want[i]); !(d <= tol*(1+MaxAbsR(want[i]))) {
			c.Fatalf(key, "%s", fmt.Sprintf("%s: field %s node %d is %v, expected %v", what, m.Fields[i].Name, k, got[i][k], want[i][k]))
		}
		c.Count("node_values_compared", len(want[i]))
	}
}
