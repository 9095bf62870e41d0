// C05: shrinking dimer dynamics.
package main

import (
	"encoding/csv"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"verif/lib"
)

// orientation reads the dimer direction through the public interface
func orientation(sdd *pf.SDD, nf, n int) []float64 {
	fields := make([]pf.Field, nf)
	for i := range fields {
		fields[i] = pf.NewField("zz", n, nil)
	}
	sdd.ShiftFieldsAlongDimer(fields, 1.0)
	var out []float64
	for _, f := range fields {
		out = append(out, lib.Re(f.Data)...)
	}
	return out
}

func dot(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

func flat(y [][]float64) []float64 {
	var out []float64
	for _, f := range y {
		out = append(out, f...)
	}
	return out
}

func unflat(v []float64, n int) [][]float64 {
	var out [][]float64
	for i := 0; i < len(v); i += n {
		out = append(out, append([]float64{}, v[i:i+n]...))
	}
	return out
}

func axpy(y []float64, a float64, x []float64) []float64 {
	out := make([]float64, len(y))
	for i := range y {
		out[i] = y[i] + a*x[i]
	}
	return out
}

func steps(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 6, 120)
	n := lib.Prod(dims)
	s := lib.GenSystem(r, dims, lib.SysOpts{MaxFields: 3, MaxTerms: 4, MaxLap: 2, MaxPow: 3, Funcs: true, ShuffleEqs: true, Constants: true, ScalarAmp: 0.8, FieldAmp: 0.7})
	m := s.Build()
	nf := len(s.Names)
	dt := 0.1 * s.SafeDt(r, s.Init, 0.3)
	_, lin0 := s.NL(s.Init, 0, nil)
	for i := range lin0 {
		for _, l := range lin0[i] {
			if math.Abs(real(l))*dt > 0.3 {
				dt = 0.3 / math.Abs(real(l))
			}
		}
	}
	m.Init()
	sdd := pf.NewSDD(dims, m)
	sdd.Dt = dt
	sdd.TimeConstants.Orientation = 0.5 + 2*r.Float64()
	sdd.TimeConstants.DimerLength = dt * (1 + 10*r.Float64())
	if r.Intn(3) == 0 {
		sdd.Alpha = r.Float64()
	}
	alpha := sdd.Alpha
	sdd.CurrentStep = r.Intn(3) * r.Intn(5)
	start := sdd.CurrentStep
	// an orientation may be replaced before the search begins
	for k := r.Intn(3); k > 0; k-- {
		o := make([]float64, n*nf)
		for i := range o {
			o[i] = 3 * r.NormFloat64()
		}
		sdd.SetInitialOrientation(o)
	}
	src := lib.RandSources(r, dims, nf, 3)
	if r.Intn(3) > 0 {
		src = nil
	}
	for _, q := range src {
		q.Attach(m, s.Names[q.Field])
	}
	var length float64
	if r.Intn(2) == 0 {
		var a, b []pf.Field
		for i := 0; i < nf; i++ {
			fa, fb := lib.RandField(r, dims, 0.4), lib.RandField(r, dims, 0.4)
			for k := range fa {
				length += (fa[k] - fb[k]) * (fa[k] - fb[k])
			}
			a = append(a, pf.NewField(s.Names[i], n, lib.ToC(fa)))
			b = append(b, pf.NewField(s.Names[i], n, lib.ToC(fb)))
		}
		if length < 1e-3 {
			c.Count("degenerate_dimers_skipped", 1)
			return
		}
		sdd.Init(a, b)
		v := orientation(&sdd, nf, n)
		for i := range a {
			for k := range a[i].Data {
				w := real(b[i].Data[k] - a[i].Data[k])
				if math.Abs(w-math.Sqrt(length)*v[i*n+k]) > 1e-9 {
					c.Fatalf("init", "initial orientation of field %d node %d is %g instead of %g", i, k, v[i*n+k], w/math.Sqrt(length))
				}
			}
		}
	} else {
		o := make([]float64, n*nf)
		for i := range o {
			o[i] = r.NormFloat64()
			length += o[i] * o[i]
		}
		in := append([]float64{}, o...)
		sdd.SetInitialOrientation(o)
		if d, _ := lib.DiffR(in, o); d != 0 {
			c.Failf("init", "the orientation handed in was modified")
		}
		v := orientation(&sdd, nf, n)
		for i := range o {
			if math.Abs(o[i]-math.Sqrt(length)*v[i]) > 1e-9 {
				c.Fatalf("init", "initial orientation %d is %g instead of %g", i, v[i], o[i]/math.Sqrt(length))
			}
		}
	}
	length = math.Sqrt(length)
	if math.Abs(sdd.InitDimerLength-length) > 1e-9*length {
		c.Fatalf("init", "initial length %g, expected %g", sdd.InitDimerLength, length)
	}
	if r.Intn(2) == 0 {
		sdd.InitDimerLength = 0.1 + r.Float64()
		length = sdd.InitDimerLength
	}
	if r.Intn(2) == 0 {
		sdd.MinDimerLength = length * r.Float64()
	}
	c.Notef("dt %g weight %g tau %g %g length %g min %g %s", dt, alpha, sdd.TimeConstants.Orientation, sdd.TimeConstants.DimerLength, length, sdd.MinDimerLength, s.Describe())
	clamped := false
	lastNorm := 0.0
	if want := length * (0.1 + 0.8*r.Float64()); math.Abs(length*math.Exp(-sdd.RequiredDimerLengthTime(want)/sdd.TimeConstants.DimerLength)-want) > 1e-9*length {
		c.Fatalf("length", "the time to reach %g from %g is given as %g", want, length, sdd.RequiredDimerLengthTime(want))
	}
	nsteps := 4
	if r.Intn(30) == 0 {
		nsteps = 25
	}
	var logged [][5]float64
	logName := filepath.Join(c.Scratch(), "log.csv")
	if r.Intn(6) == 0 {
		fh, err := os.Create(logName)
		lib.Must(err)
		sdd.Monitor.LogFile = fh
		defer func() {
			fh.Close()
			checkLog(c, logName, logged)
		}()
	}
	for step := 0; step < nsteps; step++ {
		y := lib.Fields(m)
		for i := range y {
			copy(m.Fields[i].Data, lib.ToC(y[i]))
		}
		if !(lib.MaxAbsAll(y) < 10) {
			break
		}
		t := sdd.GetTime()
		if math.Abs(t-float64(start+step)*dt) > 1e-12 {
			c.Fatalf("time", "after %d steps of %g the time is %g", start+step, dt, t)
		}
		l := length * math.Exp(-t/sdd.TimeConstants.DimerLength)
		if l < sdd.MinDimerLength {
			l = sdd.MinDimerLength
			clamped = true
		}
		if math.Abs(sdd.DimerLength(t)-l) > 1e-9*l {
			c.Fatalf("length", "dimer length at %g is %g, expected %g", t, sdd.DimerLength(t), l)
		}
		v := orientation(&sdd, nf, n)
		if math.Abs(dot(v, v)-1) > 1e-9 {
			c.Fatalf("unit", "orientation has squared length %g", dot(v, v))
		}
		yf := flat(y)
		rhs := func(z []float64) ([]float64, [][]complex128) {
			e, lin := s.NL(unflat(z, n), t, src)
			return flat(lib.InvAll(dims, e)), lin
		}
		f1, lin := rhs(axpy(yf, -l/2, v))
		f2, _ := rhs(axpy(yf, l/2, v))
		apply := func(z []float64) []float64 {
			h := lib.FwdAll(dims, unflat(z, n))
			for i := range h {
				for k := range h[i] {
					h[i][k] *= lin[i][k]
				}
			}
			return flat(lib.InvAll(dims, h))
		}
		reflect := func(z []float64) []float64 { return axpy(z, -2*dot(v, z), v) }
		force := make([]float64, len(f1))
		torque := make([]float64, len(f1))
		av := apply(v)
		for i := range force {
			force[i] = alpha*f1[i] + (1-alpha)*f2[i]
			torque[i] = f1[i] - f2[i] - l*av[i]
		}
		force = reflect(force)
		torque = axpy(torque, -dot(torque, v), v)

		sdd.Step(m)

		z := flat(lib.Fields(m))
		az := reflect(apply(z))
		size := lib.MaxAbsR(z) + lib.MaxAbsR(yf) + dt*lib.MaxAbsR(force)
		if !(size < 1e4) {
			break
		}
		for i := range z {
			res := z[i] - dt*az[i] - yf[i] - dt*force[i]
			if !(math.Abs(res) < 1e-9*(size+1)) {
				c.Fatalf("centre", "step %d: node %d of field %d misses the dimer equation by %g", step, i%n, i/n, res)
			}
		}
		vn := axpy(v, -dt/(l*sdd.TimeConstants.Orientation), torque)
		nv := math.Sqrt(dot(vn, vn))
		got := orientation(&sdd, nf, n)
		for i := range vn {
			if math.Abs(vn[i]/nv-got[i]) > 1e-8*(1+lib.MaxAbsR(torque))+1e-11*(1+size+lib.MaxAbsR(f1))*dt/(l*sdd.TimeConstants.Orientation) {
				c.Fatalf("orientation", "step %d: orientation component %d is %g, expected %g", step, i, got[i], vn[i]/nv)
			}
		}
		if math.Abs(sdd.Monitor.MaxTorque-lib.MaxAbsR(torque)) > 1e-8*(1+lib.MaxAbsR(torque)) {
			c.Fatalf("monitor", "MaxTorque %g, expected %g", sdd.Monitor.MaxTorque, lib.MaxAbsR(torque))
		}
		mf := 0.0
		for _, h := range lib.FwdAll(dims, unflat(axpy(z, -1, yf), n)) {
			if q := lib.MaxAbs(h) / dt; q > mf {
				mf = q
			}
		}
		if math.Abs(sdd.Monitor.MaxForce-mf) > 1e-8*float64(n)*(1+size)/dt {
			c.Fatalf("monitor", "MaxForce %g, expected %g", sdd.Monitor.MaxForce, mf)
		}
		ps := 0.0
		for _, h := range lib.FwdAll(dims, unflat(axpy(z, -1, yf), n)) {
			for _, q := range h {
				ps += (real(q)*real(q) + imag(q)*imag(q)) / (dt * dt * float64(n))
			}
		}
		ps = math.Sqrt(ps / float64(n*nf))
		if math.Abs(sdd.Monitor.ForcePowerSpectrum-ps) > 1e-8*float64(n)*(1+size)/dt {
			c.Fatalf("monitor", "ForcePowerSpectrum %g, expected %g", sdd.Monitor.ForcePowerSpectrum, ps)
		}
		norm := dot(yf, yf)
		if math.Abs(sdd.Monitor.FieldNorm-norm) > 1e-9*(1+norm) || math.Abs(sdd.Monitor.FieldNormChange-(lastNorm-norm)) > 1e-9*(1+norm) {
			c.Fatalf("monitor", "FieldNorm %g change %g, expected %g %g", sdd.Monitor.FieldNorm, sdd.Monitor.FieldNormChange, norm, lastNorm-norm)
		}
		lastNorm = norm
		sdd.Monitor.Log(nil, step)
		mo := sdd.Monitor
		logged = append(logged, [5]float64{mo.MaxForce, mo.MaxTorque, mo.ForcePowerSpectrum, mo.FieldNorm, mo.FieldNormChange})
		c.Count("steps_compared", 1)
		c.Count("components_compared", 2*len(z))
	}
	if nf > 1 {
		file := filepath.Join(c.Scratch(), "o.csv")
		sdd.SaveOrientation(file)
		fh, err := os.Open(file)
		lib.Must(err)
		rows, err := csv.NewReader(fh).ReadAll()
		fh.Close()
		v := orientation(&sdd, nf, n)
		if err != nil || len(rows) != n+1 {
			c.Fatalf("save", "orientation file has %d rows (%v)", len(rows), err)
		}
		col := map[string]int{}
		for k, h := range rows[0] {
			col[strings.ToLower(strings.TrimSpace(h))] = k
		}
		for i, row := range rows[1:] {
			pos := lib.PosOf(dims, i)
			for d := range dims {
				if q, _ := strconv.ParseFloat(row[col[[]string{"x", "y", "z"}[d]]], 64); int(q) != pos[d] {
					c.Fatalf("save", "row %d has position %v", i, row[:len(dims)])
				}
			}
			for f := 0; f < nf; f++ {
				q, _ := strconv.ParseFloat(row[col["orientation"+strconv.Itoa(f)]], 64)
				if math.Abs(q-v[f*n+i]) > 1e-5 {
					c.Fatalf("save", "row %d of orientation %d is %g, expected %g", i, f, q, v[f*n+i])
				}
			}
		}
		c.Count("saved_orientations", n*nf)
	}
	c.Key("%dD-%df-clamped%v", len(dims), nf, clamped)
}

// checkLog reads the log file and compares it with the values of every logged step
func checkLog(c *lib.Case, name string, want [][5]float64) {
	if c.Failed() || len(want) == 0 {
		return
	}
	fh, err := os.Open(name)
	lib.Must(err)
	defer fh.Close()
	rows, err := csv.NewReader(fh).ReadAll()
	if err != nil || len(rows) != len(want)+1 {
		c.Failf("log", "the log of %d steps has %d rows (%v)", len(want), len(rows), err)
		return
	}
	for i, w := range want {
		for k, h := range []string{"MaxForce", "MaxTorque", "ForcePowerSpect", "FieldNorm", "FieldNormChange"} {
			got := math.NaN()
			for col, name := range rows[0] {
				if name == h {
					got, _ = strconv.ParseFloat(rows[i+1][col], 64)
				}
			}
			if !(math.Abs(got-w[k]) <= 1e-6) {
				c.Failf("log", "row %d of the log has %s = %g, the monitor %g", i, h, got, w[k])
				return
			}
		}
	}
	c.Count("logged_steps", len(want))
}

// the dynamics climbs to the index-1 saddle of a double well
func saddle(c *lib.Case) {
	r := c.R
	dims := lib.RandDims(r, 2, 3, 5)
	if r.Intn(3) == 0 {
		dims = lib.RandDims(r, 3, 2, 3)
	}
	n := lib.Prod(dims)
	two := r.Intn(2) == 0
	big := 0
	for _, d := range dims {
		if d > big {
			big = d
		}
	}
	kmin := math.Pow(2*math.Pi/float64(big), 2)
	m := pf.NewModel()
	m.AddField(pf.NewField("eta", n, lib.ToC(lib.RandField(r, dims, 0.2))))
	m.AddScalar(pf.NewScalar("DDD", complex(2.5/kmin, 0)))
	m.AddScalar(pf.NewScalar("BBB", complex(0.5, 0)))
	o := make([]float64, n)
	for i := range o {
		o[i] = 1 + 0.3*r.NormFloat64()
	}
	if two {
		m.AddField(pf.NewField("xi", n, lib.ToC(lib.RandField(r, dims, 0.2))))
		m.AddEquation("deta/dt = DDD*LAP eta + eta - eta^3 + BBB*xi")
		m.AddEquation("dxi/dt = DDD*LAP xi - xi - xi^3 + BBB*eta")
		for i := 0; i < n; i++ {
			o = append(o, 0.1*r.NormFloat64())
		}
	} else {
		m.AddEquation("deta/dt = DDD*LAP eta + eta - eta^3")
	}
	m.Init()
	sdd := pf.NewSDD(dims, &m)
	sdd.Dt = 0.05
	sdd.SetInitialOrientation(o)
	sdd.InitDimerLength = 0.5
	sdd.MinDimerLength = 1e-3
	sdd.TimeConstants.Orientation = 0.5
	sdd.TimeConstants.DimerLength = 2
	for i := 0; i < 500; i++ {
		sdd.Step(&m)
	}
	worst := 0.0
	for _, f := range m.Fields {
		if v := lib.MaxAbs(f.Data); !(v <= worst) {
			worst = v
		}
	}
	c.Notef("dims %v two fields %v", dims, two)
	if !(worst < 2e-3) {
		c.Failf("saddle", "after 500 steps the fields are %g away from the saddle point", worst)
	}
	tm := sdd.RequiredDimerLengthTime(0.1)
	if math.Abs(sdd.DimerLength(tm)-0.1) > 1e-9 {
		c.Failf("length", "length at the time reported for 0.1 is %g", sdd.DimerLength(tm))
	}
	c.Count("saddles_found", 1)
	c.Key("%dD-%v", len(dims), two)
}

// misuse is refused
func misuse(c *lib.Case) {
	r := c.R
	m := pf.NewModel()
	m.AddField(pf.NewField("eta", 16, nil))
	m.AddScalar(pf.NewScalar("BBB", complex(0.5, 0)))
	m.AddEquation("deta/dt = BBB*eta")
	m.Init()
	sdd := pf.NewSDD([]int{4, 4}, &m)
	o := make([]float64, 16)
	o[r.Intn(16)] = 1
	var pan bool
	kind := c.Index % 4
	switch kind {
	case 0:
		sdd.SetInitialOrientation(o)
		pan, _ = lib.MustPanic(func() { sdd.Step(&m) })
	case 1:
		sdd.Dt = 0.1
		pan, _ = lib.MustPanic(func() { sdd.Step(&m) })
	case 2:
		pan, _ = lib.MustPanic(func() { sdd.SetInitialOrientation(o[:15]) })
	default:
		pan, _ = lib.MustPanic(func() { sdd.SetFilter(&lib.FilterFn{}) })
	}
	if !pan {
		c.Failf("misuse", "misuse %d accepted", kind)
	}
	c.Count("misuse_refused", 1)
	c.Key("%d", kind)
}

func main() {
	lib.Main(lib.Prop{ID: "C05", Level: "exploration",
		Rule: "Random coupled systems of 1-3 fields are stepped with the dimer stepper; the orientation is read through the public interface before and after every step and the monitor evaluates the residual of the reflected semi-implicit equation of the centre, the projected torque equation of the orientation, unit length, shrinkage and minimum of the dimer, and the published monitor values; double wells must converge to their saddle; misuse must be refused. Non-trivial: at least one complete step compared.",
		Groups: []lib.Group{
			{Name: "steps", Quick: 800, Thorough: 20000, Run: steps},
			{Name: "saddle", Quick: 40, Thorough: 600, Run: saddle},
			{Name: "misuse", Quick: 8, Thorough: 16, Run: misuse},
		}})
}
