// C16: the command line tool reports what is in the database and in the files.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/csv"
	"fmt"
	"image"
	"image/png"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"verif/lib"
)

// cli runs the real program in a scratch directory
func cli(c *lib.Case, args ...string) (stdout, stderr string, code int) {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_TMP"), "gopf"), args...)
	cmd.Dir = c.Scratch()
	cmd.Env = []string{"HOME=" + c.Scratch(), "PATH=/usr/bin:/bin"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	c.Count("commands", 1)
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			return o.String(), e.String(), ee.ExitCode()
		}
		c.Inconclusive("could not run the program: %s", err)
	}
	return o.String(), e.String(), 0
}

func run(c *lib.Case, args ...string) string {
	o, e, code := cli(c, args...)
	if code != 0 {
		c.Fatalf("exit", "gopf %q ended with code %d: %s %s", args, code, clip(o), clip(e))
	}
	return o
}

func clip(s string) string {
	if len(s) > 800 {
		return s[:800] + "..."
	}
	return s
}

type sim struct {
	id      int
	created string
	comment string
	hasCom  bool
	attrs   map[string]float64
	texts   map[string]string
	series  map[string]map[int]float64
	names   []string
	fields  map[int][][]float64
}

type world struct {
	file string
	dims []int
	sims []*sim // in order of creation of the rows
}

var cliNames = []string{"conc", "conc2", "con", "eta1", "eta", "Eta", "it's", "a\"b", "x;DROP TABLE fields", "with space", "a%b_c", "?", "value", "name", "c'd", "1", "50%d", "comma,name"}

func pick(c *lib.Case, n int) []string {
	var out []string
	for _, i := range c.R.Perm(len(cliNames))[:n] {
		out = append(out, cliNames[i])
	}
	return out
}

func words(c *lib.Case) string {
	n := 1 + c.R.Intn(40)
	if c.R.Intn(3) == 0 {
		n = 1 + c.R.Intn(4)
	}
	var w []string
	for i := 0; i < n; i++ {
		k := 1 + c.R.Intn(9)
		if c.R.Intn(25) == 0 {
			k = 60 + c.R.Intn(150)
		}
		b := make([]byte, k)
		for j := range b {
			b[j] = byte('a' + c.R.Intn(26))
		}
		w = append(w, string(b))
	}
	s := strings.Join(w, " ")
	if c.R.Intn(6) == 0 {
		s += " it's 100% \"quoted\" ünï"
	}
	return s
}

func cliFloat(c *lib.Case) float64 {
	switch c.R.Intn(8) {
	case 0:
		return float64(c.R.Intn(7) - 3)
	case 1:
		return c.R.NormFloat64() * 1e6
	case 2:
		return c.R.NormFloat64() * 1e-5
	case 3:
		return lib.HostileFloats(c.R, 1)[0]
	}
	return c.R.NormFloat64()
}

// mkWorld fills a database through the library
func mkWorld(c *lib.Case) *world {
	r := c.R
	w := &world{file: filepath.Join(c.Scratch(), "my data.db"), dims: lib.Dims2or3(r, 1, 5, 60)}
	db := lib.OpenDB(w.file)
	defer db.Close()
	ns := 1 + r.Intn(5)
	if r.Intn(10) == 0 {
		ns = 22 + r.Intn(5)
	}
	seen := map[int]bool{}
	for i := 0; i < ns; i++ {
		s := &sim{attrs: map[string]float64{}, texts: map[string]string{}, series: map[string]map[int]float64{}, fields: map[int][][]float64{}}
		fdb := pf.FieldDB{DB: db, DomainSize: w.dims}
		// the tables exist after the first operation; the id is found as the new row
		s.names = pick(c, 1+r.Intn(3))
		save := func(e int) {
			vals := make([][]float64, len(s.names))
			for k := range vals {
				vals[k] = lib.HostileFloats(r, lib.Prod(w.dims))
			}
			fdb.SaveFields(lib.FakeSolver(s.names, vals), e)
			s.fields[e] = vals
		}
		save(r.Intn(3))
		for _, row := range lib.Rows(db, "SELECT simID FROM simIDs") {
			if id := lib.Int(row[0]); !seen[id] {
				s.id = id
				seen[id] = true
			}
		}
		if ns < 20 {
			for k := r.Intn(3); k > 0; k-- {
				e := r.Intn(200)
				if _, ok := s.fields[e]; !ok {
					save(e)
				}
			}
		}
		if r.Intn(4) > 0 {
			s.comment, s.hasCom = words(c), true
			fdb.Comment(s.comment)
		}
		if r.Intn(4) > 0 {
			for _, k := range pick(c, r.Intn(14)) {
				if r.Intn(3) > 0 {
					s.attrs[k] = cliFloat(c)
				} else {
					s.texts[k] = []string{"text", "it's", "12.5", "some words 50%", "a,b"}[r.Intn(5)]
				}
			}
			if len(s.attrs) > 0 {
				fdb.SetAttr(s.attrs)
			}
			if len(s.texts) > 0 {
				fdb.SetTextAttr(s.texts)
			}
		}
		if r.Intn(4) > 0 {
			keys := pick(c, 1+r.Intn(4))
			stride := []int{1, 1, 2, 10}[r.Intn(4)]
			for num := 0; num < r.Intn(12)+1; num++ {
				step := num * stride
				m := map[string]float64{}
				for _, k := range keys {
					if r.Intn(5) == 0 {
						continue
					}
					m[k] = cliFloat(c)
					if s.series[k] == nil {
						s.series[k] = map[int]float64{}
					}
					s.series[k][step] = m[k]
				}
				if len(m) > 0 {
					fdb.TimeSeries(m, step)
				}
			}
		}
		s.created = fmt.Sprintf("20%02d-%02d-%02d %02d:00:%02d", 10+r.Intn(3), 1+r.Intn(2), 1+r.Intn(2), r.Intn(24), r.Intn(60))
		if i > 0 && r.Intn(3) == 0 {
			s.created = w.sims[r.Intn(i)].created
		}
		_, err := db.Exec("UPDATE simIDs SET creationTime=? WHERE simID=?", s.created, s.id)
		lib.Must(err)
		w.sims = append(w.sims, s)
	}
	c.Notef("domain %v, %d simulations", w.dims, ns)
	return w
}

// newest first; equal times: last row first
func (w *world) order() []*sim {
	idx := make([]int, len(w.sims))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool {
		if w.sims[idx[a]].created != w.sims[idx[b]].created {
			return w.sims[idx[a]].created > w.sims[idx[b]].created
		}
		return idx[a] > idx[b]
	})
	var out []*sim
	for _, i := range idx {
		out = append(out, w.sims[i])
	}
	return out
}

func (w *world) byID(id int) *sim {
	for _, s := range w.sims {
		if s.id == id {
			return s
		}
	}
	return nil
}

// closeTxt: text output has six decimals
func closeTxt(got string, want float64) bool {
	g, err := strconv.ParseFloat(strings.TrimSpace(got), 64)
	if err != nil {
		return false
	}
	if lib.SameFloat(g, want) {
		return true
	}
	return math.Abs(g-want) <= 5.1e-7+1e-14*math.Abs(want)
}

func sum(file string) [32]byte {
	b, err := os.ReadFile(file)
	lib.Must(err)
	return sha256.Sum256(b)
}

func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if r == ' ' || r == '\n' || r == '\t' {
			return -1
		}
		return r
	}, s)
}

func cells(line string) []string {
	line = strings.TrimSpace(line)
	if !strings.HasPrefix(line, "|") {
		return nil
	}
	p := strings.Split(strings.Trim(line, "|"), "|")
	for i := range p {
		p[i] = strings.Trim(p[i], " ")
	}
	return p
}

// checkAttrTable compares the tables with the attributes of the given simulations
func checkAttrTable(c *lib.Case, out string, sims []*sim) {
	want := map[string]*sim{}
	for _, s := range sims {
		if len(s.attrs)+len(s.texts) > 0 {
			want[fmt.Sprint(s.id)] = s
		}
	}
	got := map[string]map[string]string{}
	var head []string
	for _, l := range strings.Split(out, "\n") {
		p := cells(l)
		if p == nil {
			continue
		}
		if _, err := strconv.Atoi(p[0]); err != nil {
			head = p
			continue
		}
		if want[p[0]] == nil {
			c.Fatalf("attr", "attributes shown for simulation %s, which has none or was not asked for: %s", p[0], clip(out))
		}
		if got[p[0]] == nil {
			got[p[0]] = map[string]string{}
		}
		for i := 1; i < len(p) && i < len(head); i++ {
			if head[i] == "" {
				continue
			}
			if _, dup := got[p[0]][head[i]]; dup {
				c.Fatalf("attr", "attribute %q shown twice", head[i])
			}
			got[p[0]][head[i]] = p[i]
		}
	}
	for id, s := range want {
		for k, v := range s.attrs {
			if !closeTxt(got[id][k], v) {
				c.Fatalf("attr", "attribute %q of simulation %s is %v, shown %q in %s", k, id, v, got[id][k], clip(out))
			}
			c.Count("attributes_compared", 1)
		}
		for k, v := range s.texts {
			if got[id][k] != v {
				c.Fatalf("attr", "attribute %q of simulation %s is %q, shown %q", k, id, v, got[id][k])
			}
			c.Count("attributes_compared", 1)
		}
		for k, v := range got[id] {
			_, a := s.attrs[k]
			_, b := s.texts[k]
			if !a && !b && v != "" {
				c.Fatalf("attr", "simulation %s has no attribute %q, shown %q", id, k, v)
			}
		}
	}
}

func query(c *lib.Case) {
	r := c.R
	w := mkWorld(c)
	before := sum(w.file)
	ord := w.order()
	any := w.sims[r.Intn(len(w.sims))]
	id := fmt.Sprint(any.id)

	// list of simulations
	max := 20
	args := []string{"db", "list", w.file}
	if r.Intn(2) == 0 {
		max = 1 + r.Intn(len(w.sims)+2)
		args = append(args, "-m", fmt.Sprint(max))
	}
	out := run(c, append(args, "-c", "simid")...)
	var ids []int
	for _, l := range strings.Split(out, "\n") {
		if p := cells(l); len(p) == 2 {
			if v, err := strconv.Atoi(p[0]); err == nil {
				s := w.byID(v)
				if s == nil || s.created != p[1] {
					c.Fatalf("list", "listed simulation %v, created %q", p[0], p[1])
				}
				ids = append(ids, v)
			}
		}
	}
	n := len(ord)
	if n > max {
		n = max
	}
	if len(ids) != n {
		c.Fatalf("list", "%d simulations listed, expected %d: %s", len(ids), n, clip(out))
	}
	for i := range ids {
		if ids[i] != ord[i].id {
			c.Fatalf("list", "position %d is simulation %d, newest first would be %d", i, ids[i], ord[i].id)
		}
	}
	// comments
	out = run(c, append(args, "-c", "comment")...)
	re := regexp.MustCompile(`(?m)^Sim Id (\d+):`)
	loc := re.FindAllStringSubmatchIndex(out, -1)
	if len(loc) != n {
		c.Fatalf("list", "%d comments listed, expected %d: %s", len(loc), n, clip(out))
	}
	for i, l := range loc {
		end := len(out)
		if i+1 < len(loc) {
			end = loc[i+1][0]
		}
		if got := out[l[2]:l[3]]; got != fmt.Sprint(ord[i].id) {
			c.Fatalf("list", "comment %d belongs to simulation %s, expected %d", i, got, ord[i].id)
		}
		if got := squeeze(out[l[1]:end]); got != squeeze(ord[i].comment) {
			c.Fatalf("list", "comment of simulation %d is %q, shown %q", ord[i].id, ord[i].comment, clip(got))
		}
		c.Count("comments_compared", 1)
	}
	// attributes
	checkAttrTable(c, run(c, "db", "attr", w.file), w.sims)
	checkAttrTable(c, run(c, "db", "attr", w.file, "--simid", id), []*sim{any})
	out = run(c, "db", "attr", w.file, "--unique")
	all := map[string]bool{}
	for _, s := range w.sims {
		for k := range s.attrs {
			all[k] = true
		}
		for k := range s.texts {
			all[k] = true
		}
	}
	lines := strings.Split(strings.TrimRight(out, "\n"), "\n")
	for i, l := range lines {
		if i == 0 {
			continue
		}
		if !all[l] {
			c.Fatalf("attr", "unknown or repeated attribute %q listed as unique", l)
		}
		delete(all, l)
	}
	if len(all) != 0 {
		c.Fatalf("attr", "attributes %v missing in the list of unique names", all)
	}
	name := cliNames[r.Intn(len(cliNames))]
	for k := range any.attrs {
		name = k
		break
	}
	for _, one := range []bool{false, true} {
		a := []string{"db", "attr", w.file, "--name", name}
		sims := w.sims
		if one {
			a = append(a, "--simid", id)
			sims = []*sim{any}
		}
		out = run(c, a...)
		got := map[int]string{}
		re := regexp.MustCompile(`(?m)^Sim id (\d+)\s+` + regexp.QuoteMeta(name) + `\s+= *(.*)$`)
		for _, m := range re.FindAllStringSubmatch(out, -1) {
			v, _ := strconv.Atoi(m[1])
			if _, dup := got[v]; dup {
				c.Fatalf("attr", "attribute %q of simulation %d shown twice", name, v)
			}
			got[v] = m[2]
		}
		for _, s := range sims {
			g, ok := got[s.id]
			delete(got, s.id)
			f, isF := s.attrs[name]
			t, isT := s.texts[name]
			switch {
			case isF && (!ok || !closeTxt(g, f)):
				c.Fatalf("attr", "attribute %q of simulation %d is %v, shown %q", name, s.id, f, out)
			case isT && (!ok || g != t):
				c.Fatalf("attr", "attribute %q of simulation %d is %q, shown %q", name, s.id, t, out)
			case !isF && !isT && ok:
				c.Fatalf("attr", "simulation %d has no attribute %q, shown %q", s.id, name, out)
			}
			c.Count("attributes_compared", 1)
		}
		if len(got) != 0 {
			c.Fatalf("attr", "attribute %q shown for other simulations: %v", name, got)
		}
	}
	// one comment
	out = run(c, "db", "comment", w.file, "--simid", id)
	if p := strings.SplitN(out, "\n", 2); len(p) != 2 || !strings.Contains(p[0], id) || squeeze(p[1]) != squeeze(any.comment) {
		c.Fatalf("comment", "comment of simulation %s is %q, shown %q", id, any.comment, out)
	}
	out = run(c, "db", "comment", w.file)
	cur, acc := 0, map[int]string{}
	for _, l := range strings.Split(out, "\n") {
		if p := cells(l); len(p) == 2 {
			if v, err := strconv.Atoi(p[0]); err == nil {
				cur = v
			} else if p[0] != "" {
				continue
			}
			acc[cur] += p[1]
		}
	}
	for id, t := range acc {
		s := w.byID(id)
		if s == nil || squeeze(t) != squeeze(s.comment) {
			c.Fatalf("comment", "comment of simulation %d shown as %q in %s", id, t, clip(out))
		}
	}
	if len(acc) > 0 {
		for _, s := range w.sims {
			if _, ok := acc[s.id]; s.hasCom && !ok {
				c.Fatalf("comment", "the comment of simulation %d is missing", s.id)
			}
		}
	} else if ord[0].hasCom && !strings.Contains(squeeze(out), squeeze(ord[0].comment)) {
		c.Fatalf("comment", "the comment of the newest simulation is not shown: %s", clip(out))
	}
	// time of creation
	for _, s := range []*sim{any, ord[0]} {
		a := []string{"db", "time", w.file}
		if s == any {
			a = append(a, "-i", id)
		}
		out = run(c, a...)
		if !strings.Contains(out, fmt.Sprint(s.id)) || !strings.Contains(out, s.created) {
			c.Fatalf("time", "simulation %d was created at %s, shown %q", s.id, s.created, out)
		}
	}
	// summary
	out = run(c, "db", "info", w.file)
	info := map[string]string{}
	last := ""
	for _, l := range strings.Split(out, "\n") {
		if p := cells(l); len(p) == 2 {
			if p[0] != "" {
				last = p[0]
			}
			info[last] += p[1]
		}
	}
	if info["Num calc."] != fmt.Sprint(len(w.sims)) {
		c.Fatalf("info", "%d simulations, shown %s", len(w.sims), clip(out))
	}
	d3 := append(append([]int{}, w.dims...), 1)
	if squeeze(info["Dims"]) != fmt.Sprintf("(%d,%d,%d)", d3[0], d3[1], d3[2]) {
		c.Fatalf("info", "domain %v, shown %q", w.dims, info["Dims"])
	}
	sets := map[string]map[string]bool{"Fields": {}, "Attributes": {}, "Timeseries": {}}
	for _, s := range w.sims {
		for _, k := range s.names {
			sets["Fields"][k] = true
		}
		for k := range s.attrs {
			sets["Attributes"][k] = true
		}
		for k := range s.texts {
			sets["Attributes"][k] = true
		}
		for k := range s.series {
			sets["Timeseries"][k] = true
		}
	}
	for what, set := range sets {
		rest := squeeze(info[what]) + ","
		for k := range set {
			if !strings.Contains(","+rest, ","+squeeze(k)+",") {
				c.Fatalf("info", "%s: %q is missing in %q", what, k, info[what])
			}
		}
		if len(set) == 0 && rest != "," {
			c.Fatalf("info", "%s: none expected, shown %q", what, info[what])
		}
	}
	if sum(w.file) != before {
		c.Fatalf("modified", "commands that only show something changed the database")
	}
	// a new comment
	text := words(c)
	out = run(c, "db", "comment", w.file, "--simid", id, "--new="+text)
	changed := any.hasCom
	if strings.Contains(out, "success") != changed {
		c.Fatalf("new", "simulation has a comment: %v, message %q", any.hasCom, out)
	}
	db := lib.OpenDB(w.file)
	defer db.Close()
	nc := 0
	for _, row := range lib.Rows(db, "SELECT simID, value FROM comments") {
		s := w.byID(lib.Int(row[0]))
		want := s.comment
		if s == any {
			want = text
		}
		if !s.hasCom || lib.Str(row[1]) != want {
			c.Fatalf("new", "comment of simulation %d is %q after changing that of %s", s.id, lib.Str(row[1]), id)
		}
		nc++
	}
	for _, s := range w.sims {
		if s.hasCom {
			nc--
		}
	}
	if nc != 0 {
		c.Fatalf("new", "number of comments changed by %d", nc)
	}
	c.Key("d%v s%d", w.dims, len(w.sims))
}

func readCSV(c *lib.Case, file string) [][]string {
	f, err := os.Open(file)
	if err != nil {
		c.Fatalf("export", "no file: %s", err)
	}
	defer f.Close()
	recs, err := csv.NewReader(f).ReadAll()
	if err != nil {
		c.Fatalf("export", "not a csv file: %s", err)
	}
	return recs
}

// checkFieldCSV compares an exported epoch
func checkFieldCSV(c *lib.Case, file string, w *world, s *sim, e int) {
	recs := readCSV(c, file)
	vals := s.fields[e]
	n := lib.Prod(w.dims)
	if len(recs) != n+1 {
		c.Fatalf("export", "%d rows, expected %d", len(recs)-1, n)
	}
	h := recs[0]
	if len(h) != 3+len(s.names) || h[0] != "X" || h[1] != "Y" || h[2] != "Z" {
		c.Fatalf("export", "header %q, fields %q", h, s.names)
	}
	seen := map[int]bool{}
	for _, rec := range recs[1:] {
		pos := make([]int, 3)
		for k := range pos {
			v, err := strconv.Atoi(rec[k])
			if err != nil {
				c.Fatalf("export", "position %q", rec[k])
			}
			pos[k] = v
		}
		if len(w.dims) == 2 && pos[2] != 0 {
			c.Fatalf("export", "position %v in a 2D domain", pos)
		}
		for k, d := range w.dims {
			if pos[k] < 0 || pos[k] >= d {
				c.Fatalf("export", "position %v outside the domain %v", pos, w.dims)
			}
		}
		node := lib.Idx(w.dims, pos[:len(w.dims)])
		if seen[node] {
			c.Fatalf("export", "position %v exported twice", pos)
		}
		seen[node] = true
		for i, nm := range s.names {
			col := -1
			for k := 3; k < len(h); k++ {
				if h[k] == nm {
					col = k
				}
			}
			if col < 0 {
				c.Fatalf("export", "field %q is missing in %q", nm, h)
			}
			if !closeTxt(rec[col], vals[i][node]) {
				c.Fatalf("export", "field %q at %v is %v, exported %q", nm, pos, vals[i][node], rec[col])
			}
			c.Count("values_compared", 1)
		}
	}
}

func export(c *lib.Case) {
	r := c.R
	w := mkWorld(c)
	before := sum(w.file)
	s := w.sims[r.Intn(len(w.sims))]
	args := []string{"db", "export", w.file}
	if r.Intn(3) == 0 {
		s = w.order()[0]
	} else {
		args = append(args, "--simid", fmt.Sprint(s.id))
	}
	var epochs []int
	for e := range s.fields {
		epochs = append(epochs, e)
	}
	sort.Ints(epochs)
	out := filepath.Join(c.Scratch(), "out.csv")
	typ := []string{"field", "fieldData", "fielddata", "fd"}[r.Intn(4)]
	// every epoch on its own
	for _, e := range epochs {
		run(c, append(args, "--type", typ, "--timestep", fmt.Sprint(e), "-o", out)...)
		checkFieldCSV(c, out, w, s, e)
		os.Remove(out)
	}
	run(c, append(args, "--type", typ, "--timestep", "-1", "-o", out)...)
	checkFieldCSV(c, out, w, s, epochs[len(epochs)-1])
	os.Remove(out)
	// an epoch that is not there
	o := run(c, append(args, "--type", typ, "--timestep", "1234", "-o", out)...)
	if _, err := os.Stat(out); err == nil || strings.Contains(o, "written") {
		c.Fatalf("export", "an epoch that does not exist was exported: %s", o)
	}
	// all epochs
	dir := filepath.Join(c.Scratch(), "all")
	lib.Must(os.Mkdir(dir, 0o755))
	run(c, append(args, "--type", typ, "--all", "-o", filepath.Join(dir, "set"))...)
	var want []string
	for _, e := range epochs {
		f := fmt.Sprintf("set%d.csv", e)
		want = append(want, f)
		checkFieldCSV(c, filepath.Join(dir, f), w, s, e)
	}
	sort.Strings(want)
	got := lib.ReadDirNames(dir)
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fatalf("export", "files %v, expected %v", got, want)
	}
	// time series
	run(c, append(args, "--type", []string{"timeseries", "ts"}[r.Intn(2)], "-o", out)...)
	recs := readCSV(c, out)
	if len(recs[0]) != len(s.series)+1 {
		c.Fatalf("series", "columns %q, expected the step and %d series", recs[0], len(s.series))
	}
	maxStep := 0
	for k, m := range s.series {
		col := -1
		for i := 1; i < len(recs[0]); i++ {
			if recs[0][i] == k {
				col = i
			}
		}
		if col < 0 {
			c.Fatalf("series", "series %q is missing in %q", k, recs[0])
		}
		for step, v := range m {
			if step > maxStep {
				maxStep = step
			}
			found := false
			for _, rec := range recs[1:] {
				if rec[0] == fmt.Sprint(step) {
					if found {
						c.Fatalf("series", "step %d exported twice", step)
					}
					found = true
					if !closeTxt(rec[col], v) {
						c.Fatalf("series", "series %q at step %d is %v, exported %q", k, step, v, rec[col])
					}
					c.Count("values_compared", 1)
				}
			}
			if !found {
				c.Fatalf("series", "step %d is missing", step)
			}
		}
		for _, rec := range recs[1:] {
			step, err := strconv.Atoi(rec[0])
			if err != nil {
				c.Fatalf("series", "timestep %q", rec[0])
			}
			if _, ok := m[step]; ok {
				continue
			}
			// nothing was stored, thus there is no number to show
			if v, err := strconv.ParseFloat(rec[col], 64); err == nil && !math.IsNaN(v) {
				c.Fatalf("series", "series %q has no value at step %d, exported %q", k, step, rec[col])
			}
			c.Count("absent_values", 1)
		}
	}
	if sum(w.file) != before {
		c.Fatalf("modified", "the export changed the database")
	}
	c.Key("d%v s%d e%d ts%d", w.dims, len(w.sims), len(epochs), len(s.series))
}

func writeCSV(c *lib.Case, name string, rows [][]string) string {
	f, err := os.Create(filepath.Join(c.Scratch(), name))
	lib.Must(err)
	w := csv.NewWriter(f)
	lib.Must(w.WriteAll(rows))
	lib.Must(f.Close())
	return f.Name()
}

func readPNG(c *lib.Case, file string) image.Image {
	f, err := os.Open(file)
	if err != nil {
		c.Fatalf("plot", "no image: %s", err)
	}
	defer f.Close()
	img, err := png.Decode(f)
	if err != nil {
		c.Fatalf("plot", "not an image: %s", err)
	}
	return img
}

func sameImg(a, b image.Image) bool {
	if a.Bounds() != b.Bounds() {
		return false
	}
	for y := a.Bounds().Min.Y; y < a.Bounds().Max.Y; y++ {
		for x := a.Bounds().Min.X; x < a.Bounds().Max.X; x++ {
			r1, g1, b1, a1 := a.At(x, y).RGBA()
			r2, g2, b2, a2 := b.At(x, y).RGBA()
			if r1 != r2 || g1 != g2 || b1 != b2 || a1 != a2 {
				return false
			}
		}
	}
	return true
}

// table draws a file with fields f0..; returns rows without header
func table(c *lib.Case, dims []int, nf int) [][]string {
	rows := [][]string{}
	for i := 0; i < lib.Prod(dims); i++ {
		p := lib.PosOf(dims, i)
		row := []string{fmt.Sprint(p[0]), fmt.Sprint(p[1]), "0"}
		if len(p) == 3 {
			row[2] = fmt.Sprint(p[2])
		}
		for k := 0; k < nf; k++ {
			row = append(row, fmt.Sprintf("%f", c.R.NormFloat64()))
		}
		rows = append(rows, row)
	}
	return rows
}

// changedAt returns the centre of the pixels that differ, in fractions of the image from the lower left
func changedAt(a, b image.Image) (x, y float64, n int) {
	bd := a.Bounds()
	for py := bd.Min.Y; py < bd.Max.Y; py++ {
		for px := bd.Min.X; px < bd.Max.X; px++ {
			r1, g1, b1, _ := a.At(px, py).RGBA()
			r2, g2, b2, _ := b.At(px, py).RGBA()
			if r1 != r2 || g1 != g2 || b1 != b2 {
				x += float64(px)
				y += float64(bd.Max.Y - 1 - py)
				n++
			}
		}
	}
	if n > 0 {
		x, y = x/float64(n), y/float64(n)
	}
	return
}

func contour(c *lib.Case) {
	r := c.R
	dims := []int{2 + r.Intn(7), 2 + r.Intn(7)}
	nf := 1 + r.Intn(3)
	head := []string{"X", "Y", "Z"}
	for k := 0; k < nf; k++ {
		head = append(head, fmt.Sprintf("f%d", k))
	}
	rows := table(c, dims, nf)
	k := r.Intn(nf)
	col := head[3+k]
	plot := func(name string, rows [][]string, h []string, args ...string) image.Image {
		f := writeCSV(c, name+".csv", append([][]string{h}, rows...))
		o := filepath.Join(c.Scratch(), name+".png")
		run(c, append([]string{"contour", "-f", f, "-o", o}, args...)...)
		return readPNG(c, o)
	}
	base := plot("base", rows, head, "-c", col)
	// the order of the rows is of no importance
	shuf := append([][]string{}, rows...)
	r.Shuffle(len(shuf), func(i, j int) { shuf[i], shuf[j] = shuf[j], shuf[i] })
	if !sameImg(base, plot("shuffled", shuf, head, "-c", col)) {
		c.Fatalf("contour", "the image depends on the order of the rows")
	}
	// a file with the selected field only
	var only [][]string
	for _, row := range rows {
		only = append(only, []string{row[0], row[1], row[2], row[3+k]})
	}
	h1 := []string{"X", "Y", "Z", col}
	if !sameImg(base, plot("only", only, h1)) {
		c.Fatalf("contour", "selecting column %s of %v gives another image than a file with that column alone", col, head)
	}
	// the value of a node is drawn at its position: exchange an ordinary value by another one and
	// look where the image changes. The range of values is pinned by two other nodes.
	n := lib.Prod(dims)
	if n >= 4 {
		p := r.Perm(n)
		mk := func(v string) [][]string {
			var out [][]string
			for i, row := range only {
				x := []string{row[0], row[1], row[2], row[3]}
				switch i {
				case p[0]:
					x[3] = "-10.0"
				case p[1]:
					x[3] = "10.0"
				case p[2]:
					x[3] = v
				}
				out = append(out, x)
			}
			return out
		}
		a, b := plot("a", mk("-8.0"), h1), plot("b", mk("8.0"), h1)
		x, y, cnt := changedAt(a, b)
		if cnt == 0 {
			c.Fatalf("contour", "the value of node %v is not in the image", lib.PosOf(dims, p[2]))
		}
		// calibrate with the corners (0,0) and (nx-1,ny-1): all nodes changed
		flip := func(rows [][]string, all bool) [][]string {
			var out [][]string
			for i, row := range rows {
				z := append([]string{}, row...)
				if i != p[0] && i != p[1] {
					z[3] = "-8.0"
					if all {
						z[3] = "8.0"
					}
				}
				out = append(out, z)
			}
			return out
		}
		a2, b2 := plot("c", flip(mk("0"), false), h1), plot("d", flip(mk("0"), true), h1)
		x0, x1, y0, y1 := bounds(a2, b2)
		pos := lib.PosOf(dims, p[2])
		// the bounding box of all changed nodes is the whole picture unless the two pinned nodes cut it
		if box := pinnedBox(dims, p[0], p[1]); box != nil {
			wx := (x1 - x0) / float64(box[1]-box[0]+1)
			wy := (y1 - y0) / float64(box[3]-box[2]+1)
			ex := x0 + (float64(pos[0]-box[0])+0.5)*wx
			ey := y0 + (float64(pos[1]-box[2])+0.5)*wy
			if math.Abs(ex-x) > 0.6*wx || math.Abs(ey-y) > 0.6*wy {
				c.Fatalf("contour", "node %v of %v is drawn at pixel (%.1f,%.1f) from the lower left, its place is (%.1f,%.1f)", pos, dims, x, y, ex, ey)
			}
			c.Count("nodes_located", 1)
		}
	}
	c.Notef("%v, %d fields, column %s", dims, nf, col)
	c.Key("contour %v f%d", dims, nf)
}

// pinnedBox is the bounding box (x0,x1,y0,y1) of all nodes but the two pinned ones
func pinnedBox(dims []int, a, b int) []int {
	box := []int{1 << 30, -1, 1 << 30, -1}
	for i := 0; i < lib.Prod(dims); i++ {
		if i == a || i == b {
			continue
		}
		p := lib.PosOf(dims, i)
		if p[0] < box[0] {
			box[0] = p[0]
		}
		if p[0] > box[1] {
			box[1] = p[0]
		}
		if p[1] < box[2] {
			box[2] = p[1]
		}
		if p[1] > box[3] {
			box[3] = p[1]
		}
	}
	return box
}

// bounds of the differing pixels, from the lower left
func bounds(a, b image.Image) (x0, x1, y0, y1 float64) {
	bd := a.Bounds()
	x0, y0, x1, y1 = 1e9, 1e9, -1, -1
	for py := bd.Min.Y; py < bd.Max.Y; py++ {
		for px := bd.Min.X; px < bd.Max.X; px++ {
			r1, g1, b1, _ := a.At(px, py).RGBA()
			r2, g2, b2, _ := b.At(px, py).RGBA()
			if r1 != r2 || g1 != g2 || b1 != b2 {
				fx, fy := float64(px), float64(bd.Max.Y-1-py)
				x0, x1 = math.Min(x0, fx), math.Max(x1, fx)
				y0, y1 = math.Min(y0, fy), math.Max(y1, fy)
			}
		}
	}
	return
}

func lineplot(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 2, 6, 100)
	nf := 1 + r.Intn(4)
	head := []string{"X", "Y", "Z"}
	for k := 0; k < nf; k++ {
		head = append(head, fmt.Sprintf("f%d", k))
	}
	rows := table(c, dims, nf)
	d3 := append(append([]int{}, dims...), 1)
	axis := r.Intn(len(dims))
	fixed := make([]int, 3)
	var lineArgs []string
	for k, nm := range []string{"x", "y", "z"} {
		fixed[k] = r.Intn(d3[k])
		if k != axis {
			lineArgs = append(lineArgs, "-"+nm, fmt.Sprint(fixed[k]))
		}
	}
	sel := r.Perm(nf)[:1+r.Intn(nf)]
	var names []string
	for _, k := range sel {
		names = append(names, head[3+k])
	}
	plot := func(name string, h []string, rows [][]string, args ...string) image.Image {
		f := writeCSV(c, name+".csv", append([][]string{h}, rows...))
		o := filepath.Join(c.Scratch(), name+".png")
		run(c, append([]string{"lineplot", "-f", f, "-o", o}, args...)...)
		return readPNG(c, o)
	}
	on := func(row []string) bool {
		for k := 0; k < 3; k++ {
			if k != axis && row[k] != fmt.Sprint(fixed[k]) {
				return false
			}
		}
		return true
	}
	dArg := []string{"-d", strings.Join(names, ",")}
	base := plot("base", head, rows, append(append([]string{}, lineArgs...), dArg...)...)
	// only the line and the selected columns, moved to the x-axis
	h1 := append([]string{"X", "Y", "Z"}, names...)
	var red, off [][]string
	for _, row := range rows {
		o := append([]string{}, row...)
		if on(row) {
			x := []string{row[axis], "0", "0"}
			for _, k := range sel {
				x = append(x, row[3+k])
			}
			red = append(red, x)
			for k := 0; k < nf; k++ {
				in := false
				for _, q := range sel {
					in = in || q == k
				}
				if !in {
					o[3+k] = "77.0"
				}
			}
		} else {
			for k := 0; k < nf; k++ {
				o[3+k] = "55.0"
			}
		}
		off = append(off, o)
	}
	if !sameImg(base, plot("red", h1, red, "-y", "0", "-z", "0")) {
		c.Fatalf("lineplot", "line %v of %v, fields %v: the plot differs from that of a file holding only this line and these fields", lineArgs, dims, names)
	}
	if !sameImg(base, plot("off", head, off, append(append([]string{}, lineArgs...), dArg...)...)) {
		c.Fatalf("lineplot", "line %v of %v, fields %v: the plot depends on other lines or fields", lineArgs, dims, names)
	}
	mod := make([][]string, len(red))
	for i := range red {
		mod[i] = append([]string{}, red[i]...)
	}
	hit := mod[r.Intn(len(mod))]
	hit[3+r.Intn(len(sel))] = "9.0"
	if sameImg(base, plot("mod", h1, mod, "-y", "0", "-z", "0")) {
		c.Fatalf("lineplot", "a changed value does not show in the plot")
	}
	if _, _, code := cli(c, "lineplot", "-f", filepath.Join(c.Scratch(), "base.csv"), "-x", "0"); code == 0 {
		c.Fatalf("lineplot", "a plane was accepted as a line")
	}
	c.Notef("%v along axis %d, fields %v of %v", dims, axis, names, head[3:])
	c.Key("line %v a%d", dims, axis)
}

// elast: the energy reported is that of the input file
func elast(c *lib.Case) {
	r := c.R
	if c.Index == 0 {
		run(c, "elast", "template", "-o", "t.json")
		b, err := os.ReadFile(filepath.Join(c.Scratch(), "t.json"))
		lib.Must(err)
		for _, k := range []string{"HalfA", "HalfB", "HalfC", "Misfit", "MatPropMatrix", "MatPropInc", "DomainSize", "ApplyPerturbation"} {
			if !bytes.Contains(b, []byte(`"`+k+`"`)) {
				c.Fatalf("template", "%s is missing in the template", k)
			}
		}
		c.Key("template")
		return
	}
	num := func() float64 { return math.Round(r.NormFloat64()*1000) / 100000 }
	sym := func() []float64 {
		b, p := 40+math.Round(r.Float64()*60), 0.1+math.Round(r.Float64()*30)/100
		s := elasticity.Shear(b, p)
		c11, c12 := b+4*s/3, b-2*s/3
		return []float64{c11, c12, c12, 0, 0, 0, c12, c11, c12, 0, 0, 0, c12, c12, c11, 0, 0, 0,
			0, 0, 0, s, 0, 0, 0, 0, 0, 0, s, 0, 0, 0, 0, 0, 0, s}
	}
	p := elasticity.StrainEnergyInput{HalfA: 1 + 2*r.Float64(), HalfB: 1 + 2*r.Float64(), HalfC: 1 + 2*r.Float64(),
		Misfit: []float64{num(), num(), num(), num(), num(), num()}, MatPropMatrix: sym(), DomainSize: 6 + r.Intn(5)}
	if r.Intn(2) == 0 {
		p.MatPropInc = sym()
		p.ApplyPerturbation = r.Intn(2) == 0
	}
	js := func(v []float64) string {
		var s []string
		for _, x := range v {
			s = append(s, strconv.FormatFloat(x, 'g', -1, 64))
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
	inc := "null"
	if p.MatPropInc != nil {
		inc = js(p.MatPropInc)
	}
	text := fmt.Sprintf(`{"ApplyPerturbation": %v, "DomainSize": %d, "HalfC": %v, "HalfB": %v, "HalfA": %v, "Misfit": %s, "MatPropMatrix": %s, "MatPropInc": %s}`,
		p.ApplyPerturbation, p.DomainSize, p.HalfC, p.HalfB, p.HalfA, js(p.Misfit), js(p.MatPropMatrix), inc)
	f := filepath.Join(c.Scratch(), "in.json")
	lib.Must(os.WriteFile(f, []byte(text), 0o644))
	o, e, code := cli(c, "elast", "energy", "-i", f)
	if code != 0 {
		c.Fatalf("energy", "exit code %d: %s", code, clip(e))
	}
	m := regexp.MustCompile(`(?m)inclusion: *(\S+)\s*$`).FindStringSubmatch(o + e)
	if m == nil {
		c.Fatalf("energy", "no energy reported: %s", clip(o+e))
	}
	want := elasticity.CalculateStrainEnergy(p)
	if !closeTxt(m[1], want) {
		c.Fatalf("energy", "the energy is %v, reported %s", want, m[1])
	}
	// damaged input
	bad := text[:len(text)-1-r.Intn(len(text)-2)]
	if r.Intn(2) == 0 {
		bad = strings.Replace(text, `"HalfA": `, `"HalfA": "x`, 1)
		bad = strings.Replace(bad, `, "Misfit"`, `", "Misfit"`, 1)
	}
	lib.Must(os.WriteFile(f, []byte(bad), 0o644))
	o, e, code = cli(c, "elast", "energy", "-i", f)
	if code == 0 {
		c.Fatalf("energy", "damaged input %q was accepted: %s", clip(bad), clip(o+e))
	}
	c.Notef("%s", text)
	c.Key("N%d inc%v pert%v", p.DomainSize, p.MatPropInc != nil, p.ApplyPerturbation)
}

// an export that could not be written is not reported as written
func failures(c *lib.Case) {
	w := mkWorld(c)
	out := []string{"/dev/full", filepath.Join(c.Scratch(), "no", "such", "dir.csv")}[c.Index%2]
	a := []string{"db", "export", w.file, "-o", out, "--type", "ts"}
	if c.Index%4 >= 2 {
		e := 0
		for k := range w.order()[0].fields {
			e = k
		}
		a = []string{"db", "export", w.file, "-o", out, "--type", "field", "--timestep", fmt.Sprint(e)}
	}
	o, _, code := cli(c, a...)
	if code == 0 && strings.Contains(o, "written") {
		c.Fatalf("failed", "the export to %s was reported as written: %s", out, o)
	}
	if strings.TrimSpace(o) == "" && code == 0 {
		c.Fatalf("failed", "the export to %s failed silently", out)
	}
	c.Key("f%d", c.Index%4)
}

// damaged: one page of the database file is damaged. Whatever the program shows must be
// what was stored, or the damage must be reported
func damaged(c *lib.Case) {
	r := c.R
	w := mkWorld(c)
	s := w.sims[r.Intn(len(w.sims))]
	// enough rows for several pages in every table
	db := lib.OpenDB(w.file)
	tx, err := db.Begin()
	lib.Must(err)
	for i := 0; i < 120+r.Intn(300); i++ {
		for _, q := range []string{
			"INSERT INTO simAttributes (key, value, simID) VALUES ('extra' || ?, 1.5, ?)",
			"INSERT INTO simTextAttributes (key, value, simID) VALUES ('more' || ?, 'some text', ?)",
			"INSERT INTO timeseries (key, value, timestep, simID) VALUES ('e', 2.25, ?, ?)"} {
			_, err := tx.Exec(q, i, s.id)
			lib.Must(err)
		}
		_, err := tx.Exec("INSERT INTO comments (simID, value) VALUES (?, ?)", 1000+i, fmt.Sprintf("comment %d %s", i, strings.Repeat("word ", 10)))
		lib.Must(err)
	}
	lib.Must(tx.Commit())
	db.Close()
	good, err := os.ReadFile(w.file)
	lib.Must(err)
	size := int(good[16])<<8 + int(good[17])
	if size == 1 {
		size = 65536
	}
	pages := len(good) / size
	e := 0
	for k := range s.fields {
		if k > e || e == 0 {
			e = k
		}
	}
	id := fmt.Sprint(s.id)
	out := filepath.Join(c.Scratch(), "out.csv")
	commands := [][]string{
		{"db", "list", w.file, "-m", "1000"}, {"db", "list", w.file, "-c", "comment", "-m", "1000"},
		{"db", "attr", w.file}, {"db", "attr", w.file, "-u"}, {"db", "attr", w.file, "-i", id}, {"db", "attr", w.file, "-n", "extra7"}, {"db", "attr", w.file, "-n", "more90"},
		{"db", "comment", w.file}, {"db", "comment", w.file, "-i", "1100"}, {"db", "time", w.file}, {"db", "time", w.file, "-i", id}, {"db", "info", w.file},
		{"db", "export", w.file, "-t", "ts", "-i", id, "-o", out}, {"db", "export", w.file, "-t", "fd", "-i", id, "-s", fmt.Sprint(e), "-o", out}, {"db", "export", w.file, "-t", "fd", "-i", id, "-s", "-1", "-o", out}}
	one := func(args []string) (string, string, int) {
		os.Remove(out)
		o, se, code := cli(c, args...)
		tokens := strings.Fields(strings.ReplaceAll(o, "-", " "))
		if args[1] != "list" && args[1] != "comment" {
			sort.Strings(tokens)
		}
		b, _ := os.ReadFile(out)
		return strings.Join(tokens, " ") + "\n" + string(b), o + se, code
	}
	for k := 0; k < 6; k++ {
		args := commands[r.Intn(len(commands))]
		lib.Must(os.WriteFile(w.file, good, 0o644))
		want, raw, code := one(args)
		if code != 0 {
			c.Fatalf("exit", "gopf %q ended with code %d: %s", args, code, clip(raw))
		}
		for l := 0; l < 4; l++ {
			// the first byte of a page is its kind; 0 is not a kind of page
			bad := append([]byte(nil), good...)
			p := 1 + r.Intn(pages-1)
			bad[p*size] = 0
			lib.Must(os.WriteFile(w.file, bad, 0o644))
			got, raw, code := one(args)
			c.Count("damaged_reads", 1)
			if code != 0 || strings.Contains(raw, "malformed") {
				c.Count("damage_reported", 1)
				continue
			}
			if got != want {
				c.Fatalf("damaged", "page %d of %d is damaged, and gopf %q silently shows something else than what was stored: %s", p+1, pages, args, clip(raw))
			}
			c.Count("damage_not_met", 1)
		}
	}
	c.Key("p%d s%d", pages, len(w.sims))
}

func main() {
	lib.Main(lib.Prop{ID: "C16", Level: "exploration", CPULimit: 200,
		Rule: "The real program is run as a process on generated databases (1-27 simulations, hostile names and values, ties in the creation time, missing comments and attributes) and csv files; its output and the files it writes are parsed and compared with what was stored: listings, attributes, comments, times, summary, exports, and the database file is unchanged by reading commands; with a damaged page every command shows the same as before or reports the damage. Plots are judged by their pixels: independent of row order and of data not asked for, equal to the plot of a reduced file, every node at its own position. Non-trivial: all outputs of a database compared; classes are (domain, simulations, epochs).",
		Groups: []lib.Group{
			{Name: "query", Quick: 60, Thorough: 900, Run: query},
			{Name: "export", Quick: 60, Thorough: 900, Run: export},
			{Name: "contour", Quick: 24, Thorough: 400, Run: contour},
			{Name: "lineplot", Quick: 24, Thorough: 400, Run: lineplot},
			{Name: "elast", Quick: 24, Thorough: 300, Run: elast},
			{Name: "failures", Quick: 8, Thorough: 40, Run: failures},
			{Name: "damaged", Quick: 24, Thorough: 300, Run: damaged},
		}})
}
