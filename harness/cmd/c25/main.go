// C25: an interrupted simulation continues from its output as if it had never stopped.
package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/davidkleiven/gopf/pf"
	"verif/lib"
)

// kinds without memory besides the fields and the clock
var kinds = []string{"equations", "advection", "operators", "elastic", "charge", "crystal", "viscous", "implicit", "sources"}

// growth of a small difference over the rest of the run
func growth(kind string, dims []int, seed int64, from [][]float64, done, epochs, steps int, want [][]float64, c *lib.Case, eps float64) float64 {
	p := make([][]float64, len(from))
	for i := range from {
		p[i] = append([]float64{}, from[i]...)
		for k := range p[i] {
			p[i][k] += eps * (2*c.R.Float64() - 1)
		}
	}
	s := lib.Zoo(kind, dims, seed, p, done)
	s.Solve(epochs, steps)
	g := 1.0
	for i, f := range lib.Fields(s.Model) {
		if d, _ := lib.DiffR(f, want[i]); d/eps > g {
			g = d / eps
		}
	}
	return g
}

func restart(c *lib.Case) {
	r := c.R
	kind := kinds[r.Intn(len(kinds))]
	dims := lib.ZooDims(r, kind)
	seed := r.Int63()
	n := lib.Prod(dims)
	via := []string{"files", "csv", "database"}[r.Intn(3)]
	if via == "database" && n > 60 {
		dims = dims[:2]
		n = lib.Prod(dims)
	}
	steps := 1 + r.Intn(3)
	first, rest := 1+r.Intn(3), 1+r.Intn(3)
	dir := c.Scratch()
	c.Notef("%s %v seed %d via %s: %d+%d epochs of %d steps", kind, dims, seed, via, first, rest, steps)
	full, part := filepath.Join(dir, "full"), filepath.Join(dir, "part")
	dbf := filepath.Join(dir, "sim.db")

	// attach output and return a function that reads the fields of an epoch
	type reader func(epoch int) []pf.Field
	attach := func(s *pf.Solver, prefix string) reader {
		names := []string{}
		for _, f := range s.Model.Fields {
			names = append(names, f.Name)
		}
		switch via {
		case "files":
			io := pf.NewFloat64IO(prefix)
			s.AddCallback(io.SaveFields)
			return func(epoch int) []pf.Field {
				var res []pf.Field
				for _, nm := range names {
					fname := fmt.Sprintf("%s_%s_%d.bin", prefix, nm, epoch)
					if _, err := os.Stat(fname); err != nil {
						c.Fatalf("missing", "no output of epoch %d: %v", epoch, err)
					}
					res = append(res, pf.NewField(nm, n, lib.ToC(pf.LoadFloat64(fname))))
				}
				return res
			}
		case "csv":
			io := pf.CsvIO{Prefix: prefix, DomainSize: dims}
			s.AddCallback(io.SaveFields)
			return func(epoch int) []pf.Field {
				fname := fmt.Sprintf("%s_%d.csv", prefix, epoch)
				if _, err := os.Stat(fname); err != nil {
					c.Fatalf("missing", "no output of epoch %d: %v", epoch, err)
				}
				return pf.LoadCSV(fname)
			}
		}
		db := lib.OpenDB(dbf)
		fdb := &pf.FieldDB{DB: db, DomainSize: dims}
		s.AddCallback(fdb.SaveFields)
		before := ids(dbf)
		id := -1
		return func(epoch int) []pf.Field {
			if id < 0 { // the one that appeared since
				for k := range ids(dbf) {
					if !before[k] {
						id = k
					}
				}
			}
			rd := lib.OpenDB(dbf)
			defer rd.Close()
			q := pf.FieldDB{DB: rd}
			if epoch == -1 {
				return q.LoadLast(id)
			}
			return q.Load(id, epoch)
		}
	}

	// the run without interruption
	a := lib.Zoo(kind, dims, seed, nil, 0)
	readA := attach(a, full)
	var trace [][][]float64
	a.AddCallback(func(s *pf.Solver, epoch int) { trace = append(trace, lib.Fields(s.Model)) })
	a.Solve(first+rest, steps)
	if !(lib.MaxAbsAll(trace[len(trace)-1]) < 1e3) {
		c.Count("diverged", 1)
		return
	}
	names := []string{}
	for _, f := range a.Model.Fields {
		names = append(names, f.Name)
	}
	ref := map[int][][]float64{}
	tolIO := 0.0
	if via == "csv" {
		tolIO = 0.6e-6
	}
	check := func(what string, fs []pf.Field, want [][]float64, tol float64) {
		if len(fs) != len(want) {
			c.Fatalf("fields", "%s: %d of %d fields", what, len(fs), len(want))
		}
		for i, nm := range names {
			found := false
			for _, f := range fs {
				if f.Name != nm {
					continue
				}
				found = true
				if d, k := lib.DiffR(lib.Re(f.Data), want[i]); !(d <= tol) {
					c.Fatalf("values", "%s: field %s node %v is %v, expected %v (tolerance %v)", what, nm, lib.PosOf(dims, k), real(f.Data[k]), want[i][k], tol)
				}
				c.Count("node_values_compared", n)
			}
			if !found {
				c.Fatalf("fields", "%s: no field %s", what, nm)
			}
		}
	}
	for e := 0; e < first+rest; e++ {
		fs := readA(e)
		check(fmt.Sprintf("uninterrupted run, epoch %d", e), fs, trace[e], tolIO)
		ref[e] = trace[e]
	}

	// the interrupted run
	b := lib.Zoo(kind, dims, seed, nil, 0)
	readB := attach(b, part)
	b.Solve(first, steps)

	// continued from its output, in a new solver
	last := first - 1
	var init [][]float64
	var loaded []pf.Field
	if via == "database" && r.Intn(2) == 0 {
		loaded = readB(-1)
	} else {
		loaded = readB(last)
	}
	check("fields to continue from", loaded, ref[last], tolIO+1e-10*(1+lib.MaxAbsAll(ref[last])))
	for _, nm := range names {
		for _, f := range loaded {
			if f.Name == nm {
				init = append(init, lib.Re(f.Data))
			}
		}
	}
	eps := 1e-7
	g := growth(kind, dims, seed, ref[last], first*steps, rest, steps, ref[first+rest-1], c, eps)
	if !(g < 1e3) {
		c.Count("ill_conditioned", 1)
		return
	}
	tol := (2*tolIO + 1e-9*(1+lib.MaxAbsAll(ref[first+rest-1]))) * g
	if kind == "implicit" {
		tol += 1e-5 * g
	}
	d := lib.Zoo(kind, dims, seed, init, first*steps)
	if v := d.Stepper.GetTime(); math.Abs(v-b.Stepper.GetTime()) > 1e-12 {
		c.Fatalf("clock", "the continued run starts at %v, the interrupted one ended at %v", v, b.Stepper.GetTime())
	}
	d.StartEpoch = first
	readD := attach(d, part)
	calls := r.Intn(2) == 0
	if calls {
		// the rest in several calls
		for e := 0; e < rest; e++ {
			d.StartEpoch = first + e
			d.Solve(1, steps)
		}
	} else {
		d.Solve(rest, steps)
	}
	for e := first; e < first+rest; e++ {
		check(fmt.Sprintf("continued run, epoch %d", e), readD(e), ref[e], tol+tolIO)
	}
	for e := 0; e < first; e++ {
		check(fmt.Sprintf("epoch %d, written before the interruption", e), readB(e), ref[e], tolIO+1e-9*(1+lib.MaxAbsAll(ref[e])))
	}
	if v := d.Stepper.GetTime(); math.Abs(v-a.Stepper.GetTime()) > 1e-12 {
		c.Fatalf("clock", "the continued run ends at %v, the uninterrupted one at %v", v, a.Stepper.GetTime())
	}
	c.Count("continued_runs", 1)
	c.Key("%s %s %dD calls%v", kind, via, len(dims), calls)
}

func ids(file string) map[int]bool {
	res := map[int]bool{}
	if _, err := os.Stat(file); err != nil {
		return res
	}
	db := lib.OpenDB(file)
	defer db.Close()
	rows, err := db.Query("SELECT simID FROM simIDs")
	if err != nil {
		return res
	}
	defer rows.Close()
	for rows.Next() {
		var k int
		if rows.Scan(&k) == nil {
			res[k] = true
		}
	}
	return res
}

func main() {
	lib.Main(lib.Prop{ID: "C25", Level: "exploration", CPULimit: 300,
		Rule: "Random simulations of nine kinds are run without interruption and, a second time, in two parts: the second part is a new solver built from the fields read back from the output (binary files, csv files or database) with the clock and the epoch counter set on. The output of every epoch of both must agree within what the format holds, times the measured growth of a perturbation. Non-trivial: node values of continued epochs compared; classes are kinds, formats, dimensions and call patterns.",
		Groups: []lib.Group{
			{Name: "restart", Quick: 500, Thorough: 10000, Run: restart},
		}})
}
