// C24: simulations in one program do not influence each other, nor does observing them.
package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"
	"time"

	"github.com/davidkleiven/gopf/pf"
	"verif/lib"
)

const tol = 1e-9

type sim struct {
	kind  string
	dims  []int
	seed  int64
	steps int
	want  [][]float64
	trace [][][]float64 // fields after each step
	s     *pf.Solver
}

func (s *sim) build() { s.s = lib.Zoo(s.kind, s.dims, s.seed, nil, 0) }

func (s *sim) String() string { return fmt.Sprintf("%s %v seed %d", s.kind, s.dims, s.seed) }

func draw(r *rand.Rand, n int) []*sim {
	var res []*sim
	dims := lib.ZooDims(r, "implicit")
	for i := 0; i < n; i++ {
		k := lib.ZooKinds[r.Intn(len(lib.ZooKinds))]
		if i > 0 && r.Intn(3) == 0 {
			k = res[i-1].kind
		}
		d := dims
		if r.Intn(2) == 0 {
			d = lib.ZooDims(r, k)
		}
		res = append(res, &sim{kind: k, dims: append([]int{}, d...), seed: r.Int63(), steps: 2 + r.Intn(5)})
	}
	return res
}

// alone runs every simulation by itself and records the fields after each step
func alone(c *lib.Case, sims []*sim) bool {
	for _, s := range sims {
		c.Notef("%v %d steps", s, s.steps)
		s.build()
		for k := 0; k < s.steps; k++ {
			s.s.Solve(1, 1)
			s.trace = append(s.trace, lib.Fields(s.s.Model))
		}
		if !(lib.MaxAbsAll(s.trace[s.steps-1]) < 1e3) {
			c.Count("diverged", 1)
			return false
		}
	}
	return true
}

func interleaved(c *lib.Case) {
	r := c.R
	sims := draw(r, 2+r.Intn(3))
	if !alone(c, sims) {
		return
	}
	for _, i := range r.Perm(len(sims)) {
		sims[i].build()
	}
	done := make([]int, len(sims))
	sched := ""
	for {
		var open []int
		for i := range sims {
			if done[i] < sims[i].steps {
				open = append(open, i)
			}
		}
		if len(open) == 0 {
			break
		}
		i := open[r.Intn(len(open))]
		sims[i].s.Solve(1, 1)
		sched += fmt.Sprint(i)
		lib.Same(c, "interleaved", fmt.Sprintf("%v after step %d, schedule %s", sims[i], done[i], sched), sims[i].s.Model, sims[i].trace[done[i]], tol)
		done[i]++
		if r.Intn(6) == 0 {
			j := r.Intn(len(sims)) // construct and drop another one meanwhile
			lib.Zoo(sims[j].kind, sims[j].dims, r.Int63(), nil, 0)
			runtime.GC()
		}
	}
	for i, s := range sims {
		lib.Same(c, "interleaved", fmt.Sprintf("%v at the end", s), s.s.Model, sims[i].trace[s.steps-1], tol)
		c.Key("%s with %s same size %v", s.kind, sims[(i+1)%len(sims)].kind, fmt.Sprint(s.dims) == fmt.Sprint(sims[(i+1)%len(sims)].dims))
	}
	c.Count("schedules", 1)
}

func concurrent(c *lib.Case) {
	r := c.R
	sims := draw(r, 2+r.Intn(5))
	if !alone(c, sims) {
		return
	}
	for _, i := range r.Perm(len(sims)) {
		sims[i].build() // plans are made one after the other
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var order []int
	errs := make([]string, len(sims))
	start := make(chan struct{})
	for i := range sims {
		wg.Add(1)
		delay := time.Duration(r.Intn(200)) * time.Microsecond
		go func(i int) {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					errs[i] = fmt.Sprint(v)
				}
			}()
			s := sims[i]
			s.s.AddCallback(func(sv *pf.Solver, epoch int) {
				mu.Lock()
				order = append(order, i)
				mu.Unlock()
				runtime.Gosched()
			})
			<-start
			time.Sleep(delay)
			s.s.Solve(s.steps, 1)
		}(i)
	}
	close(start)
	wg.Wait()
	switches := 0
	for k := 1; k < len(order); k++ {
		if order[k] != order[k-1] {
			switches++
		}
	}
	c.Count("context_switches", switches)
	c.Count("concurrent_runs", len(sims))
	for i, s := range sims {
		if errs[i] != "" {
			c.Fatalf("concurrent", "%v: %s", s, errs[i])
		}
		lib.Same(c, "concurrent", fmt.Sprintf("%v next to %d others", s, len(sims)-1), s.s.Model, s.trace[s.steps-1], tol)
		c.Key("%s %d others", s.kind, len(sims)-1)
	}
	if switches > len(sims) {
		c.Count("overlapping_runs", 1)
	}
}

// observed: monitors, output and extra queries leave the simulation alone
func observed(c *lib.Case) {
	r := c.R
	sims := draw(r, 1)
	if !alone(c, sims) {
		return
	}
	s := sims[0]
	s.build()
	dir := c.Scratch()
	mask := 1 + r.Intn(63)
	if mask&1 != 0 {
		io := pf.NewFloat64IO(filepath.Join(dir, "f"))
		s.s.AddCallback(io.SaveFields)
	}
	if mask&2 != 0 {
		io := pf.NewUint8IO(filepath.Join(dir, "u"))
		s.s.AddCallback(io.SaveFields)
	}
	if mask&4 != 0 {
		io := pf.CsvIO{Prefix: filepath.Join(dir, "c"), DomainSize: s.dims}
		s.s.AddCallback(io.SaveFields)
	}
	if mask&8 != 0 {
		for _, f := range s.s.Model.Fields {
			pm := pf.NewPointMonitor(r.Intn(lib.Prod(s.dims)), f.Name)
			s.s.AddMonitor(&pm)
		}
	}
	if mask&16 != 0 {
		s.s.AddCallback(func(sv *pf.Solver, epoch int) {
			sv.JSONifyMonitors()
			sv.Stepper.GetTime()
			sv.Model.AllFieldNames()
			sv.Model.IsFieldName("conc")
			for _, f := range sv.Model.Fields {
				f.Copy()
			}
		})
	}
	if mask&32 != 0 {
		old := os.Stdout
		null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		if err == nil {
			os.Stdout = null
			s.s.Model.Summarize()
			os.Stdout = old
			null.Close()
		}
	}
	for k := 0; k < s.steps; k++ {
		s.s.Solve(1, 1)
		lib.Same(c, "observed", fmt.Sprintf("%v observed with %b after step %d", s, mask, k), s.s.Model, s.trace[k], tol)
	}
	c.Count("observed_runs", 1)
	c.Key("%s %b", s.kind, mask)
}

// repeated: building and running it again gives the same, whatever ran before
func repeated(c *lib.Case) {
	r := c.R
	sims := draw(r, 1)
	if !alone(c, sims) {
		return
	}
	s := sims[0]
	for k := 0; k < 2; k++ {
		other := draw(r, 1)[0]
		other.build()
		other.s.Solve(1, 1+r.Intn(3))
		s.build()
		s.s.Solve(1, s.steps)
		lib.Same(c, "repeated", fmt.Sprintf("%v repeated after %v", s, other), s.s.Model, s.trace[s.steps-1], tol)
		c.Key("%s after %s", s.kind, other.kind)
	}
	c.Count("repetitions", 2)
}

// factor returns a domain with n nodes
func factor(r *rand.Rand, n int) []int {
	dims := make([]int, 2+r.Intn(2))
	for {
		rest := n
		for d := range dims[1:] {
			var div []int
			for k := 2; k <= rest; k++ {
				if rest%k == 0 {
					div = append(div, k)
				}
			}
			if len(div) == 0 {
				break
			}
			dims[d] = div[r.Intn(len(div))]
			rest /= dims[d]
		}
		dims[len(dims)-1] = rest
		if rest > 1 && lib.Prod(dims) == n {
			r.Shuffle(len(dims), func(i, j int) { dims[i], dims[j] = dims[j], dims[i] })
			return dims
		}
	}
}

// fields of one simulation after every step, on standard output
func child() {
	var s sim
	var dims string
	if _, err := fmt.Sscan(os.Args[3]+" "+os.Args[4]+" "+os.Args[5], &s.seed, &s.steps, &dims); err != nil {
		panic(err)
	}
	s.kind = os.Args[2]
	if err := json.Unmarshal([]byte(dims), &s.dims); err != nil {
		panic(err)
	}
	log.SetOutput(io.Discard)
	s.build()
	for k := 0; k < s.steps; k++ {
		s.s.Solve(1, 1)
		s.trace = append(s.trace, lib.Fields(s.s.Model))
	}
	gob.NewEncoder(os.Stdout).Encode(s.trace)
}

// simulations that share this program with everything that ran before in it against the
// same simulations in programs of their own
func fresh(c *lib.Case) {
	r := c.R
	n := []int{12, 16, 18, 24, 30, 36, 64, 72}[r.Intn(8)]
	large := r.Intn(3) == 0
	if large {
		n = []int{576, 512, 1296, 1024, 4096}[r.Intn(5)]
	}
	var sims []*sim
	for k := 2 + r.Intn(3); k > 0; k-- {
		s := &sim{kind: lib.ZooKinds[r.Intn(len(lib.ZooKinds))], dims: factor(r, n), seed: r.Int63(), steps: 1 + r.Intn(3)}
		for s.kind == "implicit" && n > 16 {
			s.kind = lib.ZooKinds[r.Intn(len(lib.ZooKinds))]
		}
		if len(sims) > 0 && r.Intn(2) == 0 {
			s.kind, s.seed = sims[0].kind, sims[0].seed
		}
		c.Notef("%v %d steps", s, s.steps)
		d, _ := json.Marshal(s.dims)
		cmd := exec.Command("/proc/self/exe", "--alone", s.kind, fmt.Sprint(s.seed), fmt.Sprint(s.steps), string(d))
		var se bytes.Buffer
		cmd.Stderr = &se
		out, err := cmd.Output()
		if err != nil {
			c.Inconclusive("child: %v %s", err, se.String())
			return
		}
		if err = gob.NewDecoder(bytes.NewReader(out)).Decode(&s.trace); err != nil || len(s.trace) != s.steps {
			c.Inconclusive("child: %v", err)
			return
		}
		if !(lib.MaxAbsAll(s.trace[s.steps-1]) < 1e3) {
			c.Count("diverged", 1)
			continue
		}
		sims = append(sims, s)
	}
	for i, s := range sims {
		s.build()
		for k := 0; k < s.steps; k++ {
			s.s.Solve(1, 1)
			lib.Same(c, "fresh", fmt.Sprintf("%v after step %d, number %d in this program", s, k, i), s.s.Model, s.trace[k], tol)
		}
		c.Key("%s %dD large %v", s.kind, len(s.dims), large)
		c.Count("programs", 1)
	}
}

func main() {
	if len(os.Args) > 5 && os.Args[1] == "--alone" {
		child()
		return
	}
	lib.Main(lib.Prop{ID: "C24", Level: "exploration", CPULimit: 300,
		Rule: "Random simulations of eleven kinds (equations, sources, advection, operators, elasticity, charge transport, crystals, constraints, viscosity, saddle search, implicit stepping) with equal names and different parameters, under the race detector: run alone, then interleaved step by step under random schedules, concurrently with injected delays, observed by monitors, output and queries, again after other simulations, and against programs of their own (domains of different shape with equal numbers of nodes); all node values must agree after every step. Non-trivial: node values compared; classes are pairs of kinds, numbers of concurrent runs and combinations of observers. context_switches counts observed changes of the running simulation between epochs.",
		Groups: []lib.Group{
			{Name: "interleaved", Quick: 250, Thorough: 5000, Run: interleaved},
			{Name: "concurrent", Quick: 250, Thorough: 5000, Run: concurrent},
			{Name: "observed", Quick: 200, Thorough: 4000, Run: observed},
			{Name: "fresh", Quick: 60, Thorough: 600, Run: fresh},
			{Name: "repeated", Quick: 200, Thorough: 4000, Run: repeated},
		}})
}
