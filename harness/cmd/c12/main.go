// C12: what is stored in the database is what comes back.
package main

import (
	"database/sql"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

type sim struct {
	fdb    *pf.FieldDB
	id     int
	tag    string
	names  []string
	order  []int // epochs in order of saving
	saved  map[int][][]float64
	attrs  map[string]float64
	texts  map[string]string
	series map[string]float64 // key|step
	comms  []string
	ops    int
}

func (s *sim) findID(c *lib.Case, db *sql.DB) {
	rows := lib.Rows(db, "SELECT simID FROM comments WHERE value=?", s.tag)
	if len(rows) != 1 {
		c.Fatalf("simid", "the comment of a simulation is stored %d times", len(rows))
	}
	s.id = lib.Int(rows[0][0])
}

// do performs one random operation of a simulation
func (s *sim) do(c *lib.Case, dims []int) {
	r := c.R
	s.ops++
	switch k := r.Intn(8); {
	case k < 4:
		e := len(s.order)
		if r.Intn(3) == 0 {
			e = r.Intn(1000)
		}
		if _, dup := s.saved[e]; dup {
			return
		}
		vals := make([][]float64, len(s.names))
		for i := range vals {
			vals[i] = lib.HostileFloats(r, lib.Prod(dims))
		}
		sv := lib.FakeSolver(s.names, vals)
		s.fdb.SaveFields(sv, e)
		for i := range vals {
			for k := range vals[i] {
				if !lib.SameFloat(real(sv.Model.Fields[i].Data[k]), vals[i][k]) {
					c.Fatalf("modified", "saving changed the field")
				}
			}
		}
		s.saved[e] = vals
		s.order = append(s.order, e)
		c.Count("epochs_saved", 1)
	case k == 4:
		a := map[string]float64{}
		for _, n := range lib.FieldNames(r, 1+r.Intn(4)) {
			key := fmt.Sprintf("%s#%d", n, s.ops)
			a[key] = lib.HostileFloats(r, 1)[0]
			s.attrs[key] = a[key]
		}
		s.fdb.SetAttr(a)
	case k == 5:
		a := map[string]string{}
		for i, n := range lib.FieldNames(r, 1+r.Intn(4)) {
			key := fmt.Sprintf("%s#%d", n, s.ops)
			a[key] = []string{"", "text", "it's", "a\nb", "12.5", "ünï", "--", strings.Repeat("x", 300), "NULL"}[(r.Intn(9)+i)%9]
			s.texts[key] = a[key]
		}
		s.fdb.SetTextAttr(a)
	case k == 6:
		a := map[string]float64{}
		step := s.ops
		for _, n := range lib.FieldNames(r, 1+r.Intn(4)) {
			a[n] = lib.HostileFloats(r, 1)[0]
			s.series[fmt.Sprintf("%s|%d", n, step)] = a[n]
		}
		s.fdb.TimeSeries(a, step)
	default:
		t := fmt.Sprintf("%s comment %d 'quoted'\nsecond", s.tag, s.ops)
		switch r.Intn(6) {
		case 0:
			t = fmt.Sprintf("  %s  two   spaces \ttab %d\n\n next ", s.tag, s.ops)
		case 1:
			t = strings.Repeat(t+" %d ? \\ \"x\" ", 1+r.Intn(40))
		case 2:
			t = fmt.Sprintf("%d", s.ops)
		case 3:
			t = s.tag + "ünï <b>;--" + lib.FieldNames(r, 1)[0] + "; DROP TABLE comments;"
		}
		s.fdb.Comment(t)
		s.comms = append(s.comms, strings.ReplaceAll(t, "\n", " "))
	}
}

func compareFields(c *lib.Case, what string, got []pf.Field, names []string, vals [][]float64) {
	if len(got) != len(names) {
		c.Fatalf("load", "%s: %d fields, expected %d", what, len(got), len(names))
	}
	idx := map[string]int{}
	for i, n := range names {
		idx[n] = i
	}
	for g, f := range got {
		if g > 0 && got[g-1].Name >= f.Name {
			c.Fatalf("load", "%s: fields are not sorted by name: %q before %q", what, got[g-1].Name, f.Name)
		}
		i, ok := idx[f.Name]
		if !ok {
			c.Fatalf("load", "%s: unknown field %q", what, f.Name)
		}
		if len(f.Data) != len(vals[i]) {
			c.Fatalf("load", "%s: field %q has %d nodes, expected %d", what, f.Name, len(f.Data), len(vals[i]))
		}
		for k := range f.Data {
			if !lib.SameFloat(real(f.Data[k]), vals[i][k]) || imag(f.Data[k]) != 0 {
				c.Fatalf("load", "%s: field %q node %d is %v, stored was %v", what, f.Name, k, f.Data[k], vals[i][k])
			}
		}
		c.Count("values_compared", len(f.Data))
	}
}

func newSim(c *lib.Case, db *sql.DB, dims []int, n int) *sim {
	nf := 1 + c.R.Intn(3)
	s := &sim{fdb: &pf.FieldDB{DB: db, DomainSize: dims}, tag: fmt.Sprintf("tag-%d-%d", n, c.Seed%9973),
		saved: map[int][][]float64{}, attrs: map[string]float64{}, texts: map[string]string{}, series: map[string]float64{},
		names: lib.FieldNames(c.R, nf)}
	return s
}

func history(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 4, 24)
	file := filepath.Join(c.Scratch(), "x.db")
	ns := 1 + r.Intn(4)
	shared := r.Intn(2) == 0
	db := lib.OpenDB(file)
	defer db.Close()
	var sims []*sim
	for i := 0; i < ns; i++ {
		d := db
		if !shared {
			d = lib.OpenDB(file)
			defer d.Close()
		}
		s := newSim(c, d, dims, i)
		sims = append(sims, s)
	}
	steps := 4 + r.Intn(14)
	started := map[*sim]bool{}
	for k := 0; k < steps*ns; k++ {
		s := sims[r.Intn(ns)]
		if !started[s] && r.Intn(2) == 0 {
			s.fdb.Comment(s.tag)
			started[s] = true
			continue
		}
		s.do(c, dims)
	}
	for _, s := range sims {
		if !started[s] {
			s.fdb.Comment(s.tag)
		}
	}
	c.Notef("dims %v sims %d shared %v operations %d", dims, ns, shared, steps*ns)

	// a fresh process would open the file again
	rd := lib.OpenDB(file)
	defer rd.Close()
	ids := map[int]bool{}
	for i, s := range sims {
		s.findID(c, rd)
		if ids[s.id] || s.id == 0 {
			c.Fatalf("simid", "simulation id %d is not unique", s.id)
		}
		ids[s.id] = true
		_ = i
	}
	reg := lib.Rows(rd, "SELECT simID, creationTime FROM simIDs")
	if len(reg) != ns {
		c.Fatalf("simid", "%d simulations registered, expected %d", len(reg), ns)
	}
	for _, row := range reg {
		if !ids[lib.Int(row[0])] {
			c.Fatalf("simid", "unknown simulation %v registered", row[0])
		}
		if _, err := time.Parse("2006-01-02 15:04:05", lib.Str(row[1])); err != nil {
			c.Fatalf("simid", "creation time %q", lib.Str(row[1]))
		}
	}
	total := 0
	reader := pf.FieldDB{DB: rd}
	if r.Intn(2) == 0 {
		reader.DomainSize = dims
	}
	for _, s := range sims {
		last := -1
		for _, e := range s.order {
			total += len(s.names) * lib.Prod(dims)
			if e > last {
				last = e
			}
			compareFields(c, fmt.Sprintf("epoch %d of simulation %s", e, s.tag), reader.Load(s.id, e), s.names, s.saved[e])
		}
		if last >= 0 {
			compareFields(c, fmt.Sprintf("last epoch (%d) of simulation %s", last, s.tag), reader.LoadLast(s.id), s.names, s.saved[last])
		} else if f := reader.LoadLast(s.id); len(f) != 0 {
			c.Fatalf("load", "fields loaded from a simulation without any")
		}
		missing := r.Intn(1000)
		if _, ok := s.saved[missing]; !ok {
			if f := reader.Load(s.id, missing); len(f) != 0 {
				c.Fatalf("load", "fields loaded from epoch %d that was never saved", missing)
			}
		}
		// the other tables
		rows := lib.Rows(rd, "SELECT key, value FROM simAttributes WHERE simID=?", s.id)
		if len(rows) != len(s.attrs) {
			c.Fatalf("attributes", "%d attributes stored, expected %d", len(rows), len(s.attrs))
		}
		for _, row := range rows {
			w, ok := s.attrs[lib.Str(row[0])]
			if !ok || !lib.SameFloat(lib.Flt(row[1]), w) {
				c.Fatalf("attributes", "attribute %q is %v, expected %v", lib.Str(row[0]), row[1], w)
			}
		}
		rows = lib.Rows(rd, "SELECT key, value FROM simTextAttributes WHERE simID=?", s.id)
		if len(rows) != len(s.texts) {
			c.Fatalf("attributes", "%d text attributes stored, expected %d", len(rows), len(s.texts))
		}
		for _, row := range rows {
			w, ok := s.texts[lib.Str(row[0])]
			if !ok || lib.Str(row[1]) != w {
				c.Fatalf("attributes", "text attribute %q is %q, expected %q", lib.Str(row[0]), lib.Str(row[1]), w)
			}
		}
		rows = lib.Rows(rd, "SELECT key, value, timestep FROM timeseries WHERE simID=?", s.id)
		if len(rows) != len(s.series) {
			c.Fatalf("timeseries", "%d entries stored, expected %d", len(rows), len(s.series))
		}
		for _, row := range rows {
			w, ok := s.series[fmt.Sprintf("%s|%d", lib.Str(row[0]), lib.Int(row[2]))]
			if !ok || !lib.SameFloat(lib.Flt(row[1]), w) {
				c.Fatalf("timeseries", "entry %q at %v is %v, expected %v", lib.Str(row[0]), row[2], row[1], w)
			}
		}
		var cs []string
		for _, row := range lib.Rows(rd, "SELECT value FROM comments WHERE simID=?", s.id) {
			cs = append(cs, lib.Str(row[0]))
		}
		want := append([]string{s.tag}, s.comms...)
		sort.Strings(cs)
		sort.Strings(want)
		if strings.Join(cs, "|") != strings.Join(want, "|") {
			c.Fatalf("comments", "comments are %q, expected %q", cs, want)
		}
		c.Count("table_rows_compared", len(s.attrs)+len(s.texts)+len(s.series)+len(want))
	}
	if n := lib.Int(lib.Rows(rd, "SELECT COUNT(*) FROM fields")[0][0]); n != total {
		c.Fatalf("fields", "the fields table has %d rows, %d values were saved", n, total)
	}
	if total > 0 {
		pos := lib.Rows(rd, "SELECT id, X, Y, Z FROM positions ORDER BY id")
		if len(pos) != lib.Prod(dims) {
			c.Fatalf("positions", "%d positions for %d nodes", len(pos), lib.Prod(dims))
		}
		for i, row := range pos {
			p := append(lib.PosOf(dims, i), 0)[:3]
			if lib.Int(row[0]) != i || lib.Int(row[1]) != p[0] || lib.Int(row[2]) != p[1] || lib.Int(row[3]) != p[2] {
				c.Fatalf("positions", "row %v, expected node %d at %v", row, i, p)
			}
		}
		// join as the documentation describes it
		s := sims[0]
		if len(s.order) > 0 {
			e := s.order[r.Intn(len(s.order))]
			fi := r.Intn(len(s.names))
			for _, row := range lib.Rows(rd, "SELECT X, Y, Z, value FROM fields INNER JOIN positions ON fields.positionId=positions.id WHERE simID=? AND timestep=? AND name=?", s.id, e, s.names[fi]) {
				p := []int{lib.Int(row[0]), lib.Int(row[1]), lib.Int(row[2])}[:len(dims)]
				if !lib.SameFloat(lib.Flt(row[3]), s.saved[e][fi][pfutil.NodeIdx(dims, p)]) {
					c.Fatalf("positions", "value at %v is %v", p, row[3])
				}
				c.Count("positions_joined", 1)
			}
		}
		c.Key("%dD-%v-sims%d-shared%v", len(dims), dims, ns, shared)
	}
}

// a database holds one domain: fields of another domain are refused and leave no trace
func mismatch(c *lib.Case) {
	r := c.R
	a := lib.Dims2or3(r, 1, 4, 24)
	b := lib.Dims2or3(r, 1, 4, 24)
	if r.Intn(2) == 0 {
		// same number of nodes
		b = append([]int{}, a...)
		i, j := r.Intn(len(b)), r.Intn(len(b))
		b[i], b[j] = b[j], b[i]
	}
	same := func(x, y []int) bool {
		p, q := append(append([]int{}, x...), 1)[:3], append(append([]int{}, y...), 1)[:3]
		return p[0] == q[0] && p[1] == q[1] && p[2] == q[2]
	}
	if same(a, b) {
		return
	}
	db := lib.OpenDB(filepath.Join(c.Scratch(), "x.db"))
	defer db.Close()
	f1 := pf.FieldDB{DB: db, DomainSize: a}
	f1.SaveFields(lib.FakeSolver([]string{"conc"}, [][]float64{lib.HostileFloats(r, lib.Prod(a))}), 0)
	f2 := pf.FieldDB{DB: db, DomainSize: b}
	c.Notef("database %v, second simulation %v", a, b)
	if pan, _ := lib.MustPanic(func() {
		f2.SaveFields(lib.FakeSolver([]string{"conc"}, [][]float64{lib.HostileFloats(r, lib.Prod(b))}), 0)
	}); !pan {
		c.Fatalf("mismatch", "a field on %v was accepted by a database for %v", b, a)
	}
	if n := lib.Int(lib.Rows(db, "SELECT COUNT(*) FROM fields")[0][0]); n != lib.Prod(a) {
		c.Fatalf("mismatch", "the refused field left %d rows", n-lib.Prod(a))
	}
	// wrong number of values
	n := lib.Prod(a) + 1
	if pan, _ := lib.MustPanic(func() {
		f1.SaveFields(lib.FakeSolver([]string{"conc"}, [][]float64{lib.HostileFloats(r, n)}), 1)
	}); !pan {
		c.Fatalf("mismatch", "%d values accepted for %v", n, a)
	}
	c.Count("mismatches_refused", 2)
	c.Key("%v-%v", a, b)
}

func main() {
	lib.Main(lib.Prop{ID: "C12", Level: "exploration", CPULimit: 200,
		Rule: "Random histories of 1-4 simulations writing interleaved into one database file (fields with hostile names and extreme values at arbitrary epochs, attributes, text attributes, time series, comments, shared or separate handles); the file is reopened and every stored value, the positions table, registered simulations and row counts are compared with a shadow copy. Non-trivial: at least one epoch was loaded back and compared; classes are (domain, number of simulations, shared handle).",
		Groups: []lib.Group{
			{Name: "history", Quick: 600, Thorough: 6000, Run: history},
			{Name: "mismatch", Quick: 300, Thorough: 3000, Run: mismatch},
		}})
}
