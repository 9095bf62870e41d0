// C13: no failure of the database goes unnoticed, and no crash leaves half a snapshot.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/davidkleiven/gopf/pf"
	"verif/lib"
)

type op struct {
	kind  string // save, attr, text, series, comment
	epoch int
	vals  [][]float64
	flt   map[string]float64
	txt   map[string]string
	s     string
}

type script struct {
	dims  []int
	names []string
	ops   []op
}

func mkScript(seed int64) script {
	r := rand.New(rand.NewSource(seed))
	if seed < 0 {
		// a snapshot of fields with thousands of nodes
		d := 34 + r.Intn(12)
		sc := script{dims: []int{d, d + r.Intn(20)}, names: lib.FieldNames(r, 1+r.Intn(2))}
		for i := 0; i < 2; i++ {
			o := op{kind: "save", epoch: i}
			for range sc.names {
				v := make([]float64, lib.Prod(sc.dims))
				for j := range v {
					v[j] = 1 + r.Float64()
				}
				o.vals = append(o.vals, v)
			}
			sc.ops = append(sc.ops, o)
		}
		return sc
	}
	sc := script{dims: lib.Dims2or3(r, 1, 3, 6), names: lib.FieldNames(r, 1+r.Intn(3))}
	n := 2 + r.Intn(4)
	// something is written by every script, and every script saves a field at least once
	for i := 0; i < n; i++ {
		o := op{epoch: i}
		k := r.Intn(8)
		if i == n-1 {
			k = 0
		}
		switch {
		case k < 4:
			o.kind = "save"
			for range sc.names {
				v := make([]float64, lib.Prod(sc.dims))
				for j := range v {
					v[j] = 1 + r.Float64()
				}
				o.vals = append(o.vals, v)
			}
		case k == 4, k == 6:
			o.kind = "attr"
			if k == 6 {
				o.kind = "series"
			}
			o.flt = map[string]float64{}
			for _, s := range lib.FieldNames(r, 1+r.Intn(4)) {
				o.flt[fmt.Sprintf("%s#%d", s, i)] = r.NormFloat64()
			}
		case k == 5:
			o.kind = "text"
			o.txt = map[string]string{}
			for _, s := range lib.FieldNames(r, 1+r.Intn(4)) {
				o.txt[fmt.Sprintf("%s#%d", s, i)] = fmt.Sprint(r.Int())
			}
		default:
			o.kind = "comment"
			o.s = fmt.Sprintf("comment %d", i)
		}
		sc.ops = append(sc.ops, o)
	}
	return sc
}

func (sc script) describe() string {
	var k []string
	for _, o := range sc.ops {
		k = append(k, o.kind)
	}
	return fmt.Sprintf("dims %v fields %d operations %s", sc.dims, len(sc.names), strings.Join(k, ","))
}

func perform(fdb *pf.FieldDB, sc script, o op) {
	switch o.kind {
	case "save":
		fdb.SaveFields(lib.FakeSolver(sc.names, o.vals), o.epoch)
	case "attr":
		fdb.SetAttr(o.flt)
	case "series":
		fdb.TimeSeries(o.flt, o.epoch)
	case "text":
		fdb.SetTextAttr(o.txt)
	default:
		fdb.Comment(o.s)
	}
}

// child: write|read file seed kind at
func child(args []string) {
	mode, file := args[0], args[1]
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	at, _ := strconv.Atoi(args[4])
	f := &lib.Fault{Kind: args[3], At: at, Salt: int(seed & 0xff)}
	if args[3] == "full" {
		// a full disk: no file may grow beyond the limit
		signal.Ignore(syscall.SIGXFSZ)
		lib.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(at), Max: uint64(at)}))
		f.At = 0
	}
	sc := mkScript(seed)
	db := lib.OpenFaultDB("file:"+file+"?_sync=0", f)
	out := bufio.NewWriter(os.Stdout)
	say := func(format string, a ...interface{}) { fmt.Fprintf(out, format+"\n", a...); out.Flush() }
	if mode == "read" {
		id, _ := strconv.Atoi(args[5])
		last := args[6] == "last"
		ep, _ := strconv.Atoi(args[7])
		fdb := pf.FieldDB{DB: db}
		var got []pf.Field
		if last {
			got = fdb.LoadLast(id)
		} else {
			got = fdb.Load(id, ep)
		}
		for _, g := range got {
			for k, v := range g.Data {
				say("value %q %d %v", g.Name, k, strconv.FormatFloat(real(v), 'g', -1, 64))
			}
		}
		say("done %d", f.N)
		os.Exit(0)
	}
	fdb := pf.FieldDB{DB: db, DomainSize: sc.dims}
	for i, o := range sc.ops {
		say("begin %d", i)
		perform(&fdb, sc, o)
		say("ack %d", i)
	}
	say("done %d", f.N)
	os.Exit(0)
}

type result struct {
	begun, acked int
	done         bool
	ops          int
	code         int
	killed       bool
	out          string
	stderr       string
}

func spawn(c *lib.Case, args ...string) result {
	cmd := exec.Command("/proc/self/exe", append([]string{"--special"}, args...)...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		c.Inconclusive("cannot start child: %s", err)
	}
	tm := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !tm.Stop() {
		c.Inconclusive("child timed out")
	}
	res := result{begun: -1, acked: -1, out: so.String(), stderr: se.String()}
	if ee, ok := err.(*exec.ExitError); ok {
		res.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.killed = true
		}
	} else if err != nil {
		c.Inconclusive("child: %s", err)
	}
	for _, l := range strings.Split(res.out, "\n") {
		var n int
		if _, e := fmt.Sscanf(l, "begin %d", &n); e == nil {
			res.begun = n
		} else if _, e := fmt.Sscanf(l, "ack %d", &n); e == nil {
			res.acked = n
		} else if _, e := fmt.Sscanf(l, "done %d", &n); e == nil {
			res.done, res.ops = true, n
		}
	}
	return res
}

// inspect compares the file with what was acknowledged; returns the simulation id (0: none)
func inspect(c *lib.Case, what, file string, sc script, res result) int {
	db := lib.OpenDB(file)
	defer db.Close()
	if s := lib.Str(lib.Rows(db, "PRAGMA integrity_check")[0][0]); s != "ok" {
		c.Fatalf("integrity", "%s: integrity check says %s", what, s)
	}
	have := map[string]bool{}
	for _, row := range lib.Rows(db, "SELECT name FROM sqlite_master WHERE type='table'") {
		have[lib.Str(row[0])] = true
	}
	rows := func(table, q string, a ...interface{}) [][]interface{} {
		if !have[table] {
			return nil
		}
		return lib.Rows(db, q, a...)
	}
	ids := rows("simIDs", "SELECT simID FROM simIDs")
	id := 0
	if len(ids) > 1 {
		c.Fatalf("simid", "%s: %d simulations registered", what, len(ids))
	}
	if len(ids) == 1 {
		id = lib.Int(ids[0][0])
	} else if res.acked >= 0 {
		c.Fatalf("lost", "%s: operation %d was acknowledged but no simulation is registered", what, res.acked)
	}
	total := 0
	for i, o := range sc.ops {
		// n = rows found, w = rows expected when complete
		state := func(n, w int, part string) {
			switch {
			case i <= res.acked && n != w:
				c.Fatalf("lost", "%s: %s %d (%s) was acknowledged but %d of %d rows are stored", what, o.kind, i, part, n, w)
			case i > res.begun && n != 0:
				c.Fatalf("phantom", "%s: %s %d was never started but has %d rows", what, o.kind, i, n)
			case n != 0 && n != w:
				c.Fatalf("torn", "%s: %s %d (%s) is half written: %d of %d rows", what, o.kind, i, part, n, w)
			}
			c.Count("units_checked", 1)
		}
		switch o.kind {
		case "save":
			for k, name := range sc.names {
				r := rows("fields", "SELECT positionId, value FROM fields WHERE name=? AND timestep=? AND simID=?", name, o.epoch, id)
				state(len(r), len(o.vals[k]), name)
				total += len(r)
				seen := map[int]bool{}
				for _, row := range r {
					p := lib.Int(row[0])
					if p < 0 || p >= len(o.vals[k]) || seen[p] || lib.Flt(row[1]) != o.vals[k][p] {
						c.Fatalf("wrong", "%s: node %d of field %q at epoch %d is stored as %v", what, p, name, o.epoch, row[1])
					}
					seen[p] = true
				}
				if len(r) > 0 {
					n := len(rows("positions", "SELECT id FROM positions"))
					if n != lib.Prod(sc.dims) {
						c.Fatalf("torn", "%s: field data without complete positions (%d of %d)", what, n, lib.Prod(sc.dims))
					}
				}
			}
		case "attr", "series":
			n := 0
			for k, v := range o.flt {
				tab := map[string]string{"attr": "simAttributes", "series": "timeseries"}[o.kind]
				q := "SELECT value FROM " + tab + " WHERE key=? AND simID=?"
				r := rows(tab, q, k, id)
				n += len(r)
				if len(r) > 1 || (len(r) == 1 && lib.Flt(r[0][0]) != v) {
					c.Fatalf("wrong", "%s: %s %q is stored as %v", what, o.kind, k, r)
				}
			}
			state(n, len(o.flt), "")
		case "text":
			n := 0
			for k, v := range o.txt {
				r := rows("simTextAttributes", "SELECT value FROM simTextAttributes WHERE key=? AND simID=?", k, id)
				n += len(r)
				if len(r) > 1 || (len(r) == 1 && lib.Str(r[0][0]) != v) {
					c.Fatalf("wrong", "%s: text attribute %q is stored as %v", what, k, r)
				}
			}
			state(n, len(o.txt), "")
		default:
			state(len(rows("comments", "SELECT value FROM comments WHERE simID=? AND value=?", id, o.s)), 1, "")
		}
	}
	if n := len(rows("fields", "SELECT id FROM fields")); n != total {
		c.Fatalf("phantom", "%s: %d rows in the fields table, %d belong to the history", what, n, total)
	}
	return id
}

// resume: a new simulation can use the file after the crash
func resume(c *lib.Case, what, file string, sc script, oldID int) {
	db := lib.OpenDB(file)
	defer db.Close()
	fdb := pf.FieldDB{DB: db, DomainSize: sc.dims}
	v := make([][]float64, len(sc.names))
	for i := range v {
		v[i] = lib.HostileFloats(c.R, lib.Prod(sc.dims))
	}
	fdb.SaveFields(lib.FakeSolver(sc.names, v), 7)
	var id int
	for _, row := range lib.Rows(db, "SELECT simID FROM simIDs") {
		if n := lib.Int(row[0]); n != oldID {
			id = n
		}
	}
	rd := pf.FieldDB{DB: db}
	got := rd.Load(id, 7)
	if len(got) != len(sc.names) {
		c.Fatalf("resume", "%s: %d of %d fields of a later simulation can be loaded", what, len(got), len(sc.names))
	}
	for _, g := range got {
		for i, n := range sc.names {
			if n == g.Name {
				for k := range v[i] {
					if !lib.SameFloat(real(g.Data[k]), v[i][k]) {
						c.Fatalf("resume", "%s: a later simulation reads %v instead of %v", what, g.Data[k], v[i][k])
					}
				}
			}
		}
	}
	c.Count("resumed", 1)
}

func writeFaults(c *lib.Case) {
	seed := c.Seed
	sc := mkScript(seed)
	c.Notef("%s", sc.describe())
	s := strconv.FormatInt(seed, 10)
	file := func(n string) string { return filepath.Join(c.Scratch(), n) }
	clean := spawn(c, "write", file("clean.db"), s, "none", "0")
	if !clean.done || clean.code != 0 {
		c.Fatalf("clean", "the fault free run ended with %d: %s", clean.code, clip(clean.stderr))
	}
	inspect(c, "fault free run", file("clean.db"), sc, clean)
	kinds := []string{"err", "kill-after", "kill-before"}
	for k := 1; k <= clean.ops; k++ {
		for ki, kind := range kinds {
			if kind == "kill-before" && k > 1 && !c.Thorough && (k+c.Index)%4 != 0 {
				continue // the state before an operation is that after the previous one
			}
			f := file(fmt.Sprintf("%d-%d.db", k, ki))
			what := fmt.Sprintf("%s at operation %d of %d", kind, k, clean.ops)
			res := spawn(c, "write", f, s, kind, strconv.Itoa(k))
			c.Count("fault_"+kind, 1)
			switch {
			case kind == "err" && res.killed:
				c.Inconclusive("child killed: %s", clip(res.stderr))
			case kind == "err" && res.code == 0 && !res.done:
				c.Fatalf("silent", "%s: the program ended without finishing and without an error", what)
			case kind == "err" && res.code != 0 && strings.TrimSpace(res.stderr) == "":
				c.Fatalf("silent", "%s: the program ended with %d and said nothing", what, res.code)
			case kind != "err" && !res.killed && !res.done:
				c.Inconclusive("child did not die at %d: %s", k, clip(res.stderr))
			}
			id := inspect(c, what, f, sc, res)
			if (k+c.Index)%5 == 0 {
				resume(c, what, f, sc, id)
			}
			os.Remove(f)
			os.Remove(f + "-journal")
		}
	}
	c.Key("%s", sc.describe())
}

// snapshots of fields with thousands of nodes: faults at operations drawn from the whole run
func largeFaults(c *lib.Case) {
	seed := -1 - c.Seed&(1<<62-1)
	sc := mkScript(seed)
	c.Notef("%s", sc.describe())
	s := strconv.FormatInt(seed, 10)
	file := func(n string) string { return filepath.Join(c.Scratch(), n) }
	clean := spawn(c, "write", file("clean.db"), s, "none", "0")
	if !clean.done || clean.code != 0 {
		c.Fatalf("clean", "the fault free run ended with %d: %s", clean.code, clip(clean.stderr))
	}
	inspect(c, "fault free run", file("clean.db"), sc, clean)
	os.Remove(file("clean.db"))
	kinds := []string{"err", "kill-after", "kill-before"}
	for i := 0; i < 8; i++ {
		k := 1 + c.R.Intn(clean.ops)
		kind := kinds[c.R.Intn(3)]
		f := file(fmt.Sprintf("%d.db", i))
		what := fmt.Sprintf("%s at operation %d of %d", kind, k, clean.ops)
		res := spawn(c, "write", f, s, kind, strconv.Itoa(k))
		c.Count("fault_"+kind, 1)
		if kind == "err" && res.code == 0 && !res.done {
			c.Fatalf("silent", "%s: the program ended without finishing and without an error", what)
		}
		if kind == "err" && res.code != 0 && strings.TrimSpace(res.stderr) == "" {
			c.Fatalf("silent", "%s: the program ended with %d and said nothing", what, res.code)
		}
		inspect(c, what, f, sc, res)
		os.Remove(f)
		os.Remove(f + "-journal")
	}
	c.Key("large %s", sc.describe())
}

func fullDisk(c *lib.Case) {
	sc := mkScript(c.Seed)
	c.Notef("%s", sc.describe())
	s := strconv.FormatInt(c.Seed, 10)
	seen := 0
	for _, lim := range []int{0, 512, 4096, 8192, 12288, 16384, 20480, 24576, 28672, 32768, 36864, 40960, 49152} {
		f := filepath.Join(c.Scratch(), fmt.Sprintf("%d.db", lim))
		what := fmt.Sprintf("disk full at %d bytes", lim)
		res := spawn(c, "write", f, s, "full", strconv.Itoa(lim))
		if res.killed {
			c.Inconclusive("child killed: %s", clip(res.stderr))
		}
		if res.code == 0 && !res.done {
			c.Fatalf("silent", "%s: the program ended without finishing and without an error", what)
		}
		if !res.done {
			seen++
		}
		c.Count("fault_full", 1)
		if _, err := os.Stat(f); err == nil {
			inspect(c, what, f, sc, res)
		} else if res.acked >= 0 {
			c.Fatalf("lost", "%s: acknowledged operations, but there is no file", what)
		}
	}
	if seen > 0 {
		c.Key("%s-%d", sc.describe(), seen)
	}
}

func readFaults(c *lib.Case) {
	sc := mkScript(c.Seed)
	c.Notef("%s", sc.describe())
	s := strconv.FormatInt(c.Seed, 10)
	f := filepath.Join(c.Scratch(), "x.db")
	db := lib.OpenDB("file:" + f + "?_sync=0")
	fdb := pf.FieldDB{DB: db, DomainSize: sc.dims}
	var eps []int
	for i, o := range sc.ops {
		perform(&fdb, sc, o)
		if o.kind == "save" {
			eps = append(eps, i)
		}
	}
	id := lib.Int(lib.Rows(db, "SELECT simID FROM simIDs")[0][0])
	db.Close()
	ep := eps[c.R.Intn(len(eps))]
	how := "last"
	if c.R.Intn(2) == 0 {
		how = "epoch"
	} else {
		ep = eps[len(eps)-1]
	}
	n := 1
	for k := 0; k <= n; k++ {
		what := fmt.Sprintf("loading %s %d with an error at operation %d", how, ep, k)
		res := spawn(c, "read", f, s, "err", strconv.Itoa(k), strconv.Itoa(id), how, strconv.Itoa(ep))
		if k == 0 {
			if !res.done {
				c.Fatalf("clean", "fault free load failed: %s", clip(res.stderr))
			}
			n = res.ops
		}
		c.Count("fault_read", 1)
		if res.code != 0 {
			if strings.TrimSpace(res.stderr) == "" {
				c.Fatalf("silent", "%s: ended with %d and said nothing", what, res.code)
			}
			continue
		}
		got := 0
		for _, l := range strings.Split(res.out, "\n") {
			var name string
			var p int
			var v float64
			if m, _ := fmt.Sscanf(l, "value %q %d %g", &name, &p, &v); m == 3 {
				for i, nm := range sc.names {
					if nm == name {
						if v != sc.ops[ep].vals[i][p] {
							c.Fatalf("read", "%s: field %q node %d reads %v instead of %v, and no error was reported", what, name, p, v, sc.ops[ep].vals[i][p])
						}
						got++
					}
				}
			}
		}
		if got != len(sc.names)*lib.Prod(sc.dims) {
			c.Fatalf("read", "%s: %d of %d values, and no error was reported", what, got, len(sc.names)*lib.Prod(sc.dims))
		}
	}
	c.Key("%s-%s-%d", sc.describe(), how, n)
}

func clip(s string) string {
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func main() {
	lib.Main(lib.Prop{ID: "C13", Level: "fault_enumeration", CPULimit: 600,
		Special: child,
		Rule:    "Random scripts of database operations run in child processes through a fault-injecting SQL driver; for every operation the driver performs (prepare, exec, query, next row, begin, commit) one run with an error there, one run killed right after it (and before it), plus runs with a full disk at a range of sizes; the parent compares the file with the acknowledgements seen before the end: acknowledged operations complete, the one in flight per field all or nothing, nothing else, errors never silent; loads with an error at every operation return the right values or fail loudly. Non-trivial: all fault points of a script were tried; classes are the scripts.",
		Groups: []lib.Group{
			{Name: "write", Quick: 32, Thorough: 240, Run: writeFaults},
			{Name: "large", Quick: 16, Thorough: 150, Run: largeFaults},
			{Name: "full", Quick: 24, Thorough: 300, Run: fullDisk},
			{Name: "read", Quick: 24, Thorough: 400, Run: readFaults},
		}})
}
