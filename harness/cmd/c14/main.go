// C14: simulations that write to one database at the same time do not disturb each other.
package main

import (
	"bufio"
	"bytes"
	"database/sql"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/davidkleiven/gopf/pf"
	"verif/lib"
)

// val is the value stored by a writer: it names its origin
func val(w, epoch, field, node int) float64 {
	return float64(((w+1)*1000+epoch)*100+field)*1000 + float64(node) + 0.5
}

var fnames = []string{"conc", "eta", "phi"}

func mkFields(w, epoch, nf, n int) [][]float64 {
	v := make([][]float64, nf)
	for f := range v {
		v[f] = make([]float64, n)
		for k := range v[f] {
			v[f][k] = val(w, epoch, f, k)
		}
	}
	return v
}

// checkFields is the oracle of a load: complete, and of the right origin
func checkFields(got []pf.Field, w, epoch, nf, n int, complete bool) string {
	if complete && len(got) != nf {
		return fmt.Sprintf("%d of %d fields", len(got), nf)
	}
	for _, g := range got {
		f := -1
		for i, nm := range fnames {
			if nm == g.Name {
				f = i
			}
		}
		if f < 0 || f >= nf || len(g.Data) != n {
			return fmt.Sprintf("field %q with %d nodes", g.Name, len(g.Data))
		}
		for k, v := range g.Data {
			if real(v) != val(w, epoch, f, k) {
				return fmt.Sprintf("node %d of field %q is %v, the writer stored %v", k, g.Name, real(v), val(w, epoch, f, k))
			}
		}
	}
	return ""
}

func simID(db *sql.DB, w int) int {
	rows, err := db.Query("SELECT simID FROM comments WHERE value=?", fmt.Sprintf("writer %d", w))
	if err != nil {
		return 0
	}
	defer rows.Close()
	id := 0
	for rows.Next() {
		if rows.Scan(&id) != nil {
			return 0
		}
	}
	return id
}

func writer(fdb *pf.FieldDB, w, epochs, nf, n int, r *rand.Rand, ack func(epoch int)) {
	fdb.Comment(fmt.Sprintf("writer %d", w))
	ack(-1)
	for e := 0; e < epochs; e++ {
		switch r.Intn(4) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
		fdb.SaveFields(lib.FakeSolver(fnames[:nf], mkFields(w, e, nf, n)), e)
		fdb.TimeSeries(map[string]float64{"a": val(w, e, 0, 0), "b": val(w, e, 1, 1)}, e)
		if e%2 == 0 {
			fdb.SetAttr(map[string]float64{fmt.Sprintf("attr%d", e): val(w, e, 2, 2)})
			fdb.SetTextAttr(map[string]string{fmt.Sprintf("text%d", e): fmt.Sprintf("w%d", w)})
		}
		ack(e)
	}
}

// audit checks everything writer w acknowledged up to epoch acked (-2: nothing)
func audit(c *lib.Case, db *sql.DB, w, acked, begun, nf, n int) {
	if acked < -1 {
		return
	}
	id := simID(db, w)
	if id == 0 {
		c.Fatalf("lost", "the comment of writer %d is lost", w)
	}
	rd := pf.FieldDB{DB: db}
	for e := 0; e <= begun; e++ {
		got := rd.Load(id, e)
		if msg := checkFields(got, w, e, nf, n, e <= acked); msg != "" {
			c.Fatalf("fields", "writer %d epoch %d (acknowledged up to %d): %s", w, e, acked, msg)
		}
		c.Count("snapshots_audited", 1)
		if e > acked {
			continue
		}
		ts := lib.Rows(db, "SELECT key, value FROM timeseries WHERE simID=? AND timestep=? ORDER BY key", id, e)
		if len(ts) != 2 || lib.Flt(ts[0][1]) != val(w, e, 0, 0) || lib.Flt(ts[1][1]) != val(w, e, 1, 1) {
			c.Fatalf("timeseries", "writer %d epoch %d: time series %v", w, e, ts)
		}
		if e%2 == 0 {
			at := lib.Rows(db, "SELECT value FROM simAttributes WHERE simID=? AND key=?", id, fmt.Sprintf("attr%d", e))
			tt := lib.Rows(db, "SELECT value FROM simTextAttributes WHERE simID=? AND key=?", id, fmt.Sprintf("text%d", e))
			if len(at) != 1 || lib.Flt(at[0][0]) != val(w, e, 2, 2) || len(tt) != 1 || lib.Str(tt[0][0]) != fmt.Sprintf("w%d", w) {
				c.Fatalf("attributes", "writer %d epoch %d: attributes %v %v", w, e, at, tt)
			}
		}
	}
}

// goroutines sharing one database handle, and readers
func threads(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 4, 12)
	n := lib.Prod(dims)
	nw, nf, epochs := 2+r.Intn(4), 1+r.Intn(3), 2+r.Intn(4)
	nr := 1 + r.Intn(2)
	file := filepath.Join(c.Scratch(), "x.db")
	db := lib.OpenDB("file:" + file + "?_sync=0&_busy_timeout=60000")
	defer db.Close()
	c.Notef("dims %v writers %d fields %d epochs %d readers %d", dims, nw, nf, epochs, nr)
	var mu sync.Mutex
	acked := make([]int, nw)
	order := ""
	for i := range acked {
		acked[i] = -2
	}
	var wg, rg sync.WaitGroup
	stop := make(chan struct{})
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int, seed int64) {
			defer wg.Done()
			fdb := &pf.FieldDB{DB: db, DomainSize: dims}
			writer(fdb, w, epochs, nf, n, rand.New(rand.NewSource(seed)), func(e int) {
				mu.Lock()
				acked[w] = e
				order += strconv.Itoa(w)
				mu.Unlock()
			})
		}(w, r.Int63())
	}
	for k := 0; k < nr; k++ {
		rg.Add(1)
		go func(seed int64) {
			defer rg.Done()
			rr := rand.New(rand.NewSource(seed))
			rd := pf.FieldDB{DB: db}
			ids := map[int]int{}
			for {
				select {
				case <-stop:
					return
				default:
				}
				w := rr.Intn(nw)
				mu.Lock()
				a := acked[w]
				mu.Unlock()
				if a < -1 {
					runtime.Gosched()
					continue
				}
				if ids[w] == 0 {
					ids[w] = simID(db, w)
				}
				if ids[w] == 0 {
					c.Failf("lost", "writer %d registered, but its comment cannot be read", w)
					return
				}
				if a < 0 {
					continue
				}
				// an epoch that is still being written may be refused or be incomplete: only
				// acknowledged ones are judged
				e := rr.Intn(a + 1)
				if msg := checkFields(rd.Load(ids[w], e), w, e, nf, n, true); msg != "" {
					c.Failf("read", "writer %d epoch %d (acknowledged up to %d): %s", w, e, a, msg)
					return
				}
				c.Count("concurrent_reads", 1)
			}
		}(r.Int63())
	}
	wg.Wait()
	close(stop)
	rg.Wait()
	for w := 0; w < nw; w++ {
		audit(c, db, w, epochs-1, epochs-1, nf, n)
		last := pf.FieldDB{DB: db}
		if msg := checkFields(last.LoadLast(simID(db, w)), w, epochs-1, nf, n, true); msg != "" {
			c.Failf("last", "last epoch of writer %d: %s", w, msg)
		}
	}
	if k := lib.Int(lib.Rows(db, "SELECT COUNT(*) FROM fields")[0][0]); k != nw*nf*epochs*n {
		c.Fatalf("fields", "%d rows, expected %d", k, nw*nf*epochs*n)
	}
	if k := lib.Int(lib.Rows(db, "SELECT COUNT(*) FROM positions")[0][0]); k != n {
		c.Fatalf("positions", "%d positions, expected %d", k, n)
	}
	if k := lib.Int(lib.Rows(db, "SELECT COUNT(DISTINCT simID) FROM simIDs")[0][0]); k != nw {
		c.Fatalf("simid", "%d simulations, expected %d", k, nw)
	}
	c.Count("interleaved_acks", len(order))
	c.Key("%d-%d %s", nw, nf, order)
}

// simulations of one program, each with a handle of its own on a file of its own, started at the same moment: nothing
// orders their accesses to what the program shares
func handles(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 4, 12)
	n := lib.Prod(dims)
	nw, nf, epochs := 2+r.Intn(5), 1+r.Intn(3), 1+r.Intn(2)
	c.Notef("dims %v simulations %d fields %d epochs %d", dims, nw, nf, epochs)
	dbs := make([]*sql.DB, nw)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		dbs[w] = lib.OpenDB("file:" + filepath.Join(c.Scratch(), fmt.Sprintf("x%d.db", w)) + "?_sync=0&_busy_timeout=60000")
		defer dbs[w].Close()
		wg.Add(1)
		go func(w int, seed int64) {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seed))
			<-start
			writer(&pf.FieldDB{DB: dbs[w], DomainSize: dims}, w, epochs, nf, n, rr, func(e int) {})
		}(w, r.Int63())
	}
	close(start)
	wg.Wait()
	// further simulations on the same handles: now that the tables exist, they really begin at the same time
	const rounds = 12
	for k := 0; k < rounds; k++ {
		go1 := make(chan struct{})
		for w := 0; w < nw; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				fdb := &pf.FieldDB{DB: dbs[w], DomainSize: dims}
				<-go1
				fdb.Comment("another")
			}(w)
		}
		close(go1)
		wg.Wait()
	}
	for w := 0; w < nw; w++ {
		if k := lib.Int(lib.Rows(dbs[w], "SELECT COUNT(DISTINCT simID) FROM simIDs")[0][0]); k != rounds+1 {
			c.Fatalf("simid", "%d simulations, expected %d", k, rounds+1)
		}
		audit(c, dbs[w], w, epochs-1, epochs-1, nf, n)
		if k := lib.Int(lib.Rows(dbs[w], "SELECT COUNT(*) FROM fields")[0][0]); k != nf*epochs*n {
			c.Fatalf("fields", "%d rows, expected %d", k, nf*epochs*n)
		}
	}
	c.Count("simultaneous_starts", nw*(rounds+1))
	c.Key("%d-%d %v", nw, nf, dims)
}

// child: file writer epochs nf seed dims...
func child(args []string) {
	iv := func(i int) int { v, _ := strconv.Atoi(args[i]); return v }
	w, epochs, nf := iv(1), iv(2), iv(3)
	seed, _ := strconv.ParseInt(args[4], 10, 64)
	var dims []int
	for i := 5; i < len(args); i++ {
		dims = append(dims, iv(i))
	}
	db := lib.OpenDB("file:" + args[0] + "?_sync=0&_busy_timeout=60000")
	out := bufio.NewWriter(os.Stdout)
	writer(&pf.FieldDB{DB: db, DomainSize: dims}, w, epochs, nf, lib.Prod(dims), rand.New(rand.NewSource(seed)), func(e int) {
		fmt.Fprintf(out, "ack %d\n", e)
		out.Flush()
	})
	os.Exit(0)
}

// processes writing into one file
func processes(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 4, 12)
	n := lib.Prod(dims)
	nw, nf, epochs := 2+r.Intn(3), 1+r.Intn(3), 2+r.Intn(3)
	file := filepath.Join(c.Scratch(), "x.db")
	c.Notef("dims %v processes %d fields %d epochs %d", dims, nw, nf, epochs)
	type res struct {
		acked int
		ok    bool
		err   string
		kill  bool
	}
	out := make([]res, nw)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for w := 0; w < nw; w++ {
		args := []string{"--special", file, strconv.Itoa(w), strconv.Itoa(epochs), strconv.Itoa(nf), strconv.FormatInt(r.Int63(), 10)}
		for _, d := range dims {
			args = append(args, strconv.Itoa(d))
		}
		kill := time.Duration(0)
		if r.Intn(4) == 0 {
			kill = time.Duration(5+r.Intn(60)) * time.Millisecond
		}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			cmd := exec.Command("/proc/self/exe", args...)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			if err := cmd.Start(); err != nil {
				mu.Lock()
				bad = err.Error()
				mu.Unlock()
				return
			}
			d := 200 * time.Second
			if kill > 0 {
				d = kill
			}
			t := time.AfterFunc(d, func() { cmd.Process.Kill() })
			err := cmd.Wait()
			t.Stop()
			x := res{acked: -2, ok: err == nil, err: se.String(), kill: kill > 0}
			for _, l := range strings.Split(so.String(), "\n") {
				var k int
				if _, e := fmt.Sscanf(l, "ack %d", &k); e == nil {
					x.acked = k
				}
			}
			if strings.Contains(x.err, "DATA RACE") {
				x.err = "data race: " + x.err
			}
			out[w] = x
		}(w)
	}
	wg.Wait()
	if bad != "" {
		c.Inconclusive("child: %s", bad)
	}
	db := lib.OpenDB("file:" + file + "?_busy_timeout=10000")
	defer db.Close()
	finished := 0
	for w, x := range out {
		if x.ok {
			finished++
			if x.acked != epochs-1 {
				c.Fatalf("silent", "process %d ended without an error after epoch %d of %d", w, x.acked, epochs)
			}
		} else {
			if !x.kill {
				// waiting too long for a lock on a busy machine, or being stopped by the time limit, is not judged
				if x.err != "" && !strings.Contains(x.err, "locked") && !strings.Contains(x.err, "busy") {
					c.Fatalf("disturbed", "process %d failed although nothing but the other simulations disturbed it: %.400s", w, x.err)
				}
				c.Count("unkilled_early", 1)
			}
			c.Count("processes_ended_early", 1)
		}
		audit(c, db, w, x.acked, epochs-1, nf, n)
	}
	if finished > 0 {
		c.Count("processes_finished", finished)
		c.Key("%d of %d dims %v", finished, nw, dims)
	}
}

func main() {
	lib.Main(lib.Prop{ID: "C14", Level: "exploration", CPULimit: 400,
		Special: child,
		Rule:    "2-5 simulations write fields, time series and attributes into one database at the same time, as goroutines on one handle (race detector on, with concurrent readers) as goroutines with a handle and a file each that start at the same moment, and as processes on one file (some killed); every stored value names its writer, epoch, field and node, so that each load identifies what it read: acknowledged epochs must be complete and stay readable at once and for ever, interrupted ones complete per field or absent, nothing attributed to another simulation. Non-trivial: all writers audited; classes are the observed orders of acknowledgements (threads) and (processes finished, domain).",
		Groups: []lib.Group{
			{Name: "threads", Quick: 60, Thorough: 1500, Run: threads},
			{Name: "handles", Quick: 60, Thorough: 1500, Run: handles},
			{Name: "processes", Quick: 40, Thorough: 600, Run: processes},
		}})
}
