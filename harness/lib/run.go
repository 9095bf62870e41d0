// Package lib holds the machinery shared by all checks: a supervisor that runs generated
// cases in worker processes, the monitors' counters, and the evidence/replay writers.
package lib

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Group is a family of cases that share one generator and one set of monitors.
type Group struct {
	Name     string
	Quick    int // number of cases on the quick tier
	Thorough int // number of cases on the thorough tier
	// Serial groups are run in one worker only
	Serial bool
	Run    func(c *Case)
}

// Prop describes one check.
type Prop struct {
	ID     string
	Level  string
	Rule   string
	Assume []string
	Groups []Group
	// CPULimit is the CPU time (seconds) one case may use before it counts as a hang
	CPULimit float64
	// Workers overrides the number of worker processes
	Workers int
	// Special handles extra sub-process modes (os.Args[1] == "--special")
	Special func(args []string)
}

// Fail is one violation seen by a monitor.
type Fail struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

type record struct {
	Kind     string           `json:"kind"` // start, done
	Group    string           `json:"group"`
	Index    int              `json:"index"`
	Counters map[string]int64 `json:"counters,omitempty"`
	Keys     []string         `json:"keys,omitempty"`
	Sample   string           `json:"sample,omitempty"`
	Fails    []Fail           `json:"fails,omitempty"`
	Err      string           `json:"err,omitempty"`
}

// Case is one generated execution together with what the monitors saw.
type Case struct {
	Prop, Group string
	Index       int
	Seed        int64
	Thorough    bool
	R           *rand.Rand

	mu       sync.Mutex
	counters map[string]int64
	keys     map[string]bool
	sample   strings.Builder
	fails    []Fail
	scratch  string
	inconcl  string
}

type stopCase struct{}

// Notef describes the case; the text goes into the samples and the replay file.
func (c *Case) Notef(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sample.Len() < 6000 {
		fmt.Fprintf(&c.sample, format, a...)
		c.sample.WriteString("; ")
	}
}

// Count adds n observations to a counter.
func (c *Case) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

// Key marks the case as non-trivial, and as belonging to a class of cases.
func (c *Case) Key(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	c.mu.Lock()
	c.keys[s] = true
	c.mu.Unlock()
}

// Failf reports a violation. The case goes on.
func (c *Case) Failf(key string, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.fails) < 5 {
		c.fails = append(c.fails, Fail{Key: key, Msg: fmt.Sprintf(format, a...)})
	}
}

// Failed is true when a violation has been reported.
func (c *Case) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.fails) > 0
}

// Fatalf reports a violation and ends the case.
func (c *Case) Fatalf(key string, format string, a ...interface{}) {
	c.Failf(key, format, a...)
	panic(stopCase{})
}

// Inconclusive ends the run without a verdict (trouble in the harness or the sandbox).
func (c *Case) Inconclusive(format string, a ...interface{}) {
	c.mu.Lock()
	c.inconcl = fmt.Sprintf(format, a...)
	c.mu.Unlock()
	panic(stopCase{})
}

// Scratch returns a directory that is removed when the case ends.
func (c *Case) Scratch() string {
	if c.scratch == "" {
		d, err := os.MkdirTemp("", "vcase")
		if err != nil {
			c.Inconclusive("no scratch dir: %s", err)
		}
		c.scratch = d
	}
	return c.scratch
}

// MustPanic runs f and reports whether it panicked, and with what.
func MustPanic(f func()) (panicked bool, val interface{}) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
			val = r
		}
	}()
	f()
	return
}

func caseSeed(seed int64, prop, group string, index int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, group, index)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

func runCase(p *Prop, g *Group, index int, seed int64, thorough bool) record {
	s := caseSeed(seed, p.ID, g.Name, index)
	c := &Case{Prop: p.ID, Group: g.Name, Index: index, Seed: s, Thorough: thorough,
		R: rand.New(rand.NewSource(s)), counters: map[string]int64{}, keys: map[string]bool{}}
	//lint:ignore SA1019 the library draws from the global source
	rand.Seed(s)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCase); ok {
					return
				}
				c.Failf("panic", "unexpected panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		g.Run(c)
	}()
	if c.scratch != "" {
		os.RemoveAll(c.scratch)
	}
	rec := record{Kind: "done", Group: g.Name, Index: index, Counters: c.counters, Fails: c.fails, Err: c.inconcl}
	for k := range c.keys {
		rec.Keys = append(rec.Keys, k)
	}
	sort.Strings(rec.Keys)
	rec.Sample = c.sample.String()
	return rec
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func env(name string, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

// Root is the directory of the framework.
func Root() string { return env("VERIF_ROOT", "/verif") }

// Main is the entry point of every check.
func Main(p Prop) {
	if len(os.Args) > 1 && os.Args[1] == "--special" {
		p.Special(os.Args[2:])
		os.Exit(0)
	}
	replay := flag.String("replay", "", "replay file")
	worker := flag.Bool("worker", false, "internal")
	shard := flag.Int("shard", 0, "internal")
	nshard := flag.Int("nshard", 1, "internal")
	skip := flag.Int("skip", 0, "internal: number of cases of the shard already done")
	only := flag.String("only", "", "run only this group")
	flag.Parse()

	seed, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := env("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	if p.CPULimit == 0 {
		p.CPULimit = 150
	}

	if *replay != "" {
		os.Exit(doReplay(&p, *replay))
	}
	if *worker {
		doWorker(&p, seed, tier == "thorough", *shard, *nshard, *skip, *only)
		return
	}
	os.Exit(supervise(&p, seed, tier, *only))
}

type caseRef struct {
	g     int
	index int
}

// quickScale multiplies the number of quick cases of the cheap checks
var quickScale = map[string]int{"C01": 4, "C02": 2, "C03": 2, "C04": 4, "C05": 6, "C06": 8, "C07": 2, "C08": 5, "C09": 2,
	"C10": 2, "C12": 2, "C15": 15, "C16": 3, "C17": 3, "C18": 8, "C19": 10, "C20": 2, "C21": 2, "C22": 20, "C23": 2, "C25": 4, "C26": 4}

// cases is the number of cases of a group
func (g *Group) cases(p *Prop, thorough bool) int {
	if thorough {
		return g.Thorough
	}
	if k := quickScale[p.ID]; k > 1 && g.Quick >= 30 {
		if n := k * g.Quick; n < g.Thorough {
			return n
		}
		return g.Thorough
	}
	return g.Quick
}

func caseList(p *Prop, thorough bool, shard, nshard int, only string) []caseRef {
	var out []caseRef
	for gi := range p.Groups {
		g := &p.Groups[gi]
		if only != "" && g.Name != only {
			continue
		}
		n := g.cases(p, thorough)
		for i := 0; i < n; i++ {
			if g.Serial {
				if shard == gi%nshard {
					out = append(out, caseRef{gi, i})
				}
			} else if (i+gi)%nshard == shard {
				out = append(out, caseRef{gi, i})
			}
		}
	}
	return out
}

func doWorker(p *Prop, seed int64, thorough bool, shard, nshard, skip int, only string) {
	out := bufio.NewWriter(os.NewFile(3, "events"))
	enc := json.NewEncoder(out)
	log.SetOutput(io.Discard)
	if os.Getenv("VERIF_LOG") != "" {
		log.SetOutput(os.Stderr)
	}
	list := caseList(p, thorough, shard, nshard, only)
	for i := skip; i < len(list); i++ {
		g := &p.Groups[list[i].g]
		enc.Encode(record{Kind: "start", Group: g.Name, Index: list[i].index})
		out.Flush()
		enc.Encode(runCase(p, g, list[i].index, seed, thorough))
		out.Flush()
		if i%16 == 0 {
			runtime.GC()
		}
	}
}

type replayFile struct {
	Property string `json:"property"`
	Group    string `json:"group"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Fails    []Fail `json:"fails"`
	Case     string `json:"case"`
	How      string `json:"how"`
}

func doReplay(p *Prop, fname string) int {
	b, err := os.ReadFile(fname)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	for gi := range p.Groups {
		if p.Groups[gi].Name == r.Group {
			rec := runCase(p, &p.Groups[gi], r.Index, r.Seed, r.Tier == "thorough")
			fmt.Printf("case: %s\n", rec.Sample)
			for _, f := range rec.Fails {
				fmt.Printf("FAIL [%s] %s\n", f.Key, f.Msg)
			}
			if len(rec.Fails) > 0 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, fname)
				return 1
			}
			fmt.Println("replayed without a violation")
			return 0
		}
	}
	fmt.Println("unknown group")
	return 2
}

type finding struct{ key, text string }

// knownFindings reads the committed list of findings for the property. Lines:
//
//	finding: property=C07 key=<group>/<key> <text>
//	fixed: property=C07 <commit> <text>      (suppresses nothing)
func knownFindings(id string) []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(Root(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "finding: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(line, "finding: property="+id+" ")
		parts := strings.SplitN(rest, " ", 2)
		if len(parts) != 2 || !strings.HasPrefix(parts[0], "key=") {
			continue
		}
		out = append(out, finding{strings.TrimPrefix(parts[0], "key="), parts[1]})
	}
	return out
}

type event struct {
	shard int
	rec   *record
	exit  error
	eof   bool
}

type workerState struct {
	cmd      *exec.Cmd
	done     int
	current  *record
	started  time.Time
	cpuStart float64
	stderr   *tail
	killed   string
	finished bool
	pid      int
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, b...)
	if len(t.buf) > 16000 {
		// keep the beginning (the cause) and the end
		t.buf = append(t.buf[:8000:8000], t.buf[len(t.buf)-8000:]...)
	}
	return len(b), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}

func cpuOf(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	i := strings.LastIndex(s, ")")
	if i < 0 {
		return 0
	}
	f := strings.Fields(s[i+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

func supervise(p *Prop, seed int64, tier string, only string) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	nw := p.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	total := len(caseList(p, thorough, 0, 1, only))
	if nw > total {
		nw = total
	}
	ch := make(chan event, 1024)
	states := make([]*workerState, nw)
	spawn := func(sh int, skip int) error {
		self, err := os.Executable()
		if err != nil {
			return err
		}
		args := []string{"-worker", "-shard", fmt.Sprint(sh), "-nshard", fmt.Sprint(nw), "-skip", fmt.Sprint(skip)}
		if only != "" {
			args = append(args, "-only", only)
		}
		cmd := exec.Command(self, args...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		rd, wr, err := os.Pipe()
		if err != nil {
			return err
		}
		cmd.ExtraFiles = []*os.File{wr}
		t := &tail{}
		cmd.Stderr = t
		cmd.Stdout = io.Discard
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single", "GOMAXPROCS="+env("VERIF_GOMAXPROCS", "4"))
		if err := cmd.Start(); err != nil {
			return err
		}
		wr.Close()
		states[sh] = &workerState{cmd: cmd, done: skip, stderr: t, pid: cmd.Process.Pid, started: time.Now()}
		go func() {
			dec := json.NewDecoder(bufio.NewReader(rd))
			for {
				var r record
				if err := dec.Decode(&r); err != nil {
					break
				}
				rr := r
				ch <- event{shard: sh, rec: &rr}
			}
			err := cmd.Wait()
			rd.Close()
			ch <- event{shard: sh, exit: err, eof: true}
		}()
		return nil
	}

	counters := map[string]int64{}
	groups := map[string]int{}
	keys := map[string]bool{}
	samples := map[string]string{}
	var bad []record
	inconcl := ""
	evals := 0
	alive := 0
	for i := 0; i < nw; i++ {
		if err := spawn(i, 0); err != nil {
			fmt.Printf("could not start worker: %s\n", err)
			return 2
		}
		alive++
	}
	handle := func(r *record) {
		evals++
		groups[r.Group]++
		for k, v := range r.Counters {
			counters[k] += v
		}
		for _, k := range r.Keys {
			keys[r.Group+":"+k] = true
		}
		if _, ok := samples[r.Group]; !ok && len(r.Keys) > 0 && r.Sample != "" {
			samples[r.Group] = r.Sample
		}
		if r.Err != "" && inconcl == "" {
			inconcl = fmt.Sprintf("%s/%d: %s", r.Group, r.Index, r.Err)
		}
		if len(r.Fails) > 0 {
			bad = append(bad, *r)
		}
	}
	known := knownFindings(p.ID)
	isKnown := func(group string, f Fail) int {
		for i, k := range known {
			if k.key == group+"/"+f.Key {
				return i
			}
		}
		return -1
	}
	numUnknown := func() int {
		n := 0
		for _, b := range bad {
			for _, f := range b.Fails {
				if isKnown(b.Group, f) < 0 {
					n++
					break
				}
			}
		}
		return n
	}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	stopping := false
	for alive > 0 {
		select {
		case e := <-ch:
			st := states[e.shard]
			if e.rec != nil {
				if e.rec.Kind == "start" {
					st.current = e.rec
					st.started = time.Now()
					st.cpuStart = cpuOf(st.pid)
				} else {
					st.current = nil
					st.done++
					handle(e.rec)
					if numUnknown() >= 8 && !stopping {
						stopping = true
						for _, s := range states {
							if s != nil && !s.finished {
								s.killed = "stop"
								syscall.Kill(-s.pid, syscall.SIGKILL)
							}
						}
					}
				}
				continue
			}
			if e.eof {
				syscall.Kill(-st.pid, syscall.SIGKILL)
				st.finished = true
				alive--
				if st.killed == "stop" {
					continue
				}
				if e.exit == nil && st.current == nil {
					continue
				}
				// the worker died: the case in progress brought the process down
				if st.current == nil {
					if inconcl == "" {
						inconcl = fmt.Sprintf("worker died outside a case: %v\n%s", e.exit, st.stderr.String())
					}
					continue
				}
				key := "crash"
				msg := fmt.Sprintf("the process running the case died: %v", e.exit)
				if st.killed != "" {
					key = "hang"
					msg = st.killed
				} else if ee, ok := e.exit.(*exec.ExitError); ok && ee.ExitCode() == 66 {
					key = "race"
					msg = "the race detector reported a data race"
				} else if ok {
					if ws, ok2 := ee.Sys().(syscall.WaitStatus); ok2 && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
						inconcl = "a worker was killed from outside (out of memory?)"
					}
				}
				r := *st.current
				r.Kind = "done"
				r.Fails = []Fail{{Key: key, Msg: msg + "\n" + st.stderr.String()}}
				handle(&r)
				if numUnknown() < 8 && !stopping {
					if err := spawn(e.shard, st.done+1); err == nil {
						alive++
					}
				}
			}
		case <-tick.C:
			for _, s := range states {
				if s == nil || s.finished || s.current == nil || s.killed != "" {
					continue
				}
				cpu := cpuOf(s.pid) - s.cpuStart
				wall := time.Since(s.started).Seconds()
				if cpu > p.CPULimit {
					s.killed = fmt.Sprintf("case used %.0f s of CPU time without finishing (limit %.0f)", cpu, p.CPULimit)
				} else if wall > 420 {
					s.killed = fmt.Sprintf("case made no progress for %.0f s (%.0f s of CPU time)", wall, cpu)
				}
				if s.killed != "" {
					syscall.Kill(-s.pid, syscall.SIGKILL)
				}
			}
		}
	}

	// verdict
	violations := 0
	seenKnown := map[int]bool{}
	var lines []string
	for _, b := range bad {
		var unknown []Fail
		for _, f := range b.Fails {
			if k := isKnown(b.Group, f); k >= 0 {
				seenKnown[k] = true
			} else {
				unknown = append(unknown, f)
			}
		}
		if len(unknown) == 0 {
			continue
		}
		violations++
		dir := filepath.Join(Root(), "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		fname := filepath.Join(dir, fmt.Sprintf("%s_%s_%d_s%d.json", p.ID, b.Group, b.Index, seed))
		rb, _ := json.MarshalIndent(replayFile{Property: p.ID, Group: b.Group, Index: b.Index, Seed: seed, Tier: tier,
			Fails: unknown, Case: b.Sample, How: fmt.Sprintf("/verif/run.sh %s -replay %s", p.ID, fname)}, "", " ")
		os.WriteFile(fname, rb, 0o644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, fname))
		if violations <= 4 {
			fmt.Printf("--- %s/%s/%d: [%s] %s\n    case: %s\n", p.ID, b.Group, b.Index, unknown[0].Key, clip(unknown[0].Msg, 1500), clip(b.Sample, 600))
		}
	}
	for i, k := range known {
		if seenKnown[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
		}
	}
	var sm []interface{}
	var gn []string
	for g := range samples {
		gn = append(gn, g)
	}
	sort.Strings(gn)
	for _, g := range gn {
		sm = append(sm, g+": "+clip(samples[g], 500))
	}
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(keys),
		"rule":                p.Rule,
		"samples":             sm,
		"monitor_events":      counters,
		"cases_per_group":     groups,
		"planned_cases":       total,
		"workers":             nw,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(Root(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(Root(), "evidence", p.ID+".json"), eb, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s %s: %d cases, %d distinct classes, %d violations, %.1f s\n", p.ID, tier, evals, len(keys), violations, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	if inconcl != "" {
		fmt.Printf("INCONCLUSIVE: %s\n", inconcl)
		return 2
	}
	if evals != total || len(keys) == 0 {
		fmt.Printf("INCONCLUSIVE: %d of %d cases ran, %d non-trivial classes\n", evals, total, len(keys))
		return 2
	}
	for gi := range p.Groups {
		g := &p.Groups[gi]
		if only != "" && g.Name != only {
			continue
		}
		found := g.Quick == 0 && !thorough
		for k := range keys {
			if strings.HasPrefix(k, g.Name+":") {
				found = true
				break
			}
		}
		if !found {
			fmt.Printf("INCONCLUSIVE: group %s observed nothing\n", g.Name)
			return 2
		}
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
