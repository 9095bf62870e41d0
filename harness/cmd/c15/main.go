// C15: files hold what was written.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/csv"
	"encoding/xml"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verif/lib"
)

func decode(c *lib.Case, file string) []float64 {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Fatalf("missing", "file not written: %s", err)
	}
	if len(b)%8 != 0 {
		c.Fatalf("size", "%s has %d bytes", filepath.Base(file), len(b))
	}
	out := make([]float64, len(b)/8)
	for i := range out {
		out[i] = math.Float64frombits(binary.BigEndian.Uint64(b[8*i:]))
	}
	return out
}

func sameBits(c *lib.Case, what string, got, want []float64) {
	if len(got) != len(want) {
		c.Fatalf("binary", "%s: %d values, written were %d", what, len(got), len(want))
	}
	for i := range want {
		if !lib.SameFloat(got[i], want[i]) || (want[i] == 0 && math.Signbit(got[i]) != math.Signbit(want[i])) {
			c.Fatalf("binary", "%s: value %d is %v, written was %v", what, i, got[i], want[i])
		}
	}
	c.Count("values_compared", len(want))
}

func safeNames(c *lib.Case, n int) []string {
	all := []string{"conc", "conc2", "eta", "con", "phi_1", "temp.x", "A", "a-b", "with space", "ünï"}
	var out []string
	for _, i := range c.R.Perm(len(all))[:n] {
		out = append(out, all[i])
	}
	return out
}

func mkVals(c *lib.Case, nf, n int) [][]float64 {
	v := make([][]float64, nf)
	for i := range v {
		v[i] = lib.HostileFloats(c.R, n)
	}
	return v
}

// raw binary files
func raw(c *lib.Case) {
	r := c.R
	dir := c.Scratch()
	f := filepath.Join(dir, "a.bin")
	rounds := 1 + r.Intn(3)
	for k := 0; k < rounds; k++ {
		// later rounds overwrite the file, with more or fewer values
		n := r.Intn(200)
		if r.Intn(10) == 0 {
			n = 5000 + r.Intn(20000)
		}
		v := lib.HostileFloats(r, n)
		if n > 0 && r.Intn(2) == 0 {
			v[r.Intn(n)] = math.Copysign(0, -1)
		}
		in := append([]float64{}, v...)
		pf.SaveFloat64(f, v)
		sameBits(c, "argument of the save", v, in)
		sameBits(c, "file", decode(c, f), in)
		sameBits(c, "loaded", pf.LoadFloat64(f), in)
		if n > 0 {
			fl := pf.NewField("conc", n, lib.ToC(in))
			for i := range fl.Data {
				fl.Data[i] = complex(in[i], r.NormFloat64())
			}
			fl.SaveReal(f)
			sameBits(c, "field file", decode(c, f), in)
			sameBits(c, "field loaded", pf.LoadFloat64(f), in)
		}
		c.Notef("round %d: %d values", k, n)
		c.Key("n%d", n/20)
	}
	if len(lib.ReadDirNames(dir)) != 1 {
		c.Fatalf("files", "files in the directory: %v", lib.ReadDirNames(dir))
	}
}

// callbacks writing one file per field and epoch
func callbacks(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 6, 100)
	n := lib.Prod(dims)
	nf := 1 + r.Intn(4)
	names := safeNames(c, nf)
	dir := c.Scratch()
	prefix := filepath.Join(dir, []string{"run", "my_file", "a.b"}[r.Intn(3)])
	fio := pf.NewFloat64IO(prefix)
	uio := pf.NewUint8IO(prefix + "u8")
	cio := pf.CsvIO{Prefix: prefix, DomainSize: dims}
	epochs := 1 + r.Intn(3)
	start := r.Intn(3)
	hist := map[int][][]float64{}
	for e := start; e < start+epochs; e++ {
		v := mkVals(c, nf, n)
		for i := range v {
			if r.Intn(3) == 0 {
				k := r.NormFloat64()
				for j := range v[i] {
					v[i][j] = k
				}
			}
		}
		s := lib.FakeSolver(names, v)
		fio.SaveFields(s, e)
		uio.SaveFields(s, e)
		cio.SaveFields(s, e)
		for i := range v {
			sameBits(c, "field after saving", lib.Re(s.Model.Fields[i].Data), v[i])
		}
		hist[e] = v
	}
	c.Notef("dims %v fields %v epochs %d..%d", dims, names, start, start+epochs-1)
	// all epochs are still there
	for e, v := range hist {
		for i, nm := range names {
			sameBits(c, "float64", decode(c, fmt.Sprintf("%s_%s_%d.bin", prefix, nm, e)), v[i])
			b, err := os.ReadFile(fmt.Sprintf("%s_%s_%d.bin", prefix+"u8", nm, e))
			if err != nil || len(b) != n {
				c.Fatalf("uint8", "uint8 file: %v, %d bytes for %d nodes", err, len(b), n)
			}
			checkU8(c, b, v[i])
		}
		checkCSV(c, fmt.Sprintf("%s_%d.csv", prefix, e), dims, names, v)
	}
	want := epochs*nf*2 + epochs
	if k := len(lib.ReadDirNames(dir)); k != want {
		c.Fatalf("files", "%d files written, expected %d", k, want)
	}
	c.Key("%v-%d-%d", dims, nf, epochs)
}

func checkU8(c *lib.Case, b []byte, v []float64) {
	mn, mx := math.Inf(1), math.Inf(-1)
	for _, x := range v {
		if math.IsNaN(x) || math.Abs(x) > 1e100 {
			return // no meaningful grey scale
		}
		mn, mx = math.Min(mn, x), math.Max(mx, x)
	}
	if mx-mn < 1e-9 {
		// a uniform field has one grey value
		for i := range b {
			if b[i] != b[0] && mx-mn < 1e-11 {
				c.Fatalf("uint8", "uniform field: values %d and %d", b[0], b[i])
			}
		}
		return
	}
	for i, x := range v {
		w := 255 * (x - mn) / (mx - mn)
		if math.Abs(float64(b[i])-w) > 1.0001 {
			c.Fatalf("uint8", "node %d: %g in [%g, %g] stored as %d, expected %.2f", i, x, mn, mx, b[i], w)
		}
		if (x == mn && b[i] != 0) || (x == mx && b[i] < 254) {
			c.Fatalf("uint8", "node %d: %g in [%g, %g] stored as %d", i, x, mn, mx, b[i])
		}
	}
	c.Count("grey_values", len(v))
}

func closeTxt(got, want float64) bool {
	if math.IsNaN(want) || math.IsInf(want, 0) {
		return lib.SameFloat(got, want)
	}
	// six decimals
	return math.Abs(got-want) <= 5.01e-7+1e-14*math.Abs(want)
}

func checkCSV(c *lib.Case, file string, dims []int, names []string, v [][]float64) {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Fatalf("csv", "csv file: %s", err)
	}
	recs, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
	if err != nil {
		c.Fatalf("csv", "csv file does not parse: %s", err)
	}
	head := append([]string{"X", "Y", "Z"}, names...)
	if len(recs) != 1+lib.Prod(dims) || strings.Join(recs[0], "|") != strings.Join(head, "|") {
		c.Fatalf("csv", "%d records, header %q, expected %q", len(recs), recs[0], head)
	}
	for i, rec := range recs[1:] {
		p := append(lib.PosOf(dims, i), 0)[:3]
		for d := 0; d < 3; d++ {
			if rec[d] != strconv.Itoa(p[d]) {
				c.Fatalf("csv", "row %d is at %v, expected %v", i, rec[:3], p)
			}
		}
		for f := range names {
			x, err := strconv.ParseFloat(rec[3+f], 64)
			if err != nil || !closeTxt(x, v[f][i]) {
				c.Fatalf("csv", "row %d of %q is %s, expected %v", i, names[f], rec[3+f], v[f][i])
			}
		}
	}
	got := pf.LoadCSV(file)
	if len(got) != len(names) {
		c.Fatalf("csv", "%d fields loaded, expected %d", len(got), len(names))
	}
	for f := range got {
		if got[f].Name != names[f] || len(got[f].Data) != lib.Prod(dims) {
			c.Fatalf("csv", "field %d loaded as %q with %d nodes", f, got[f].Name, len(got[f].Data))
		}
		for i, x := range got[f].Data {
			if !closeTxt(real(x), v[f][i]) || imag(x) != 0 {
				c.Fatalf("csv", "node %d of %q loaded as %v, written was %v", i, names[f], x, v[f][i])
			}
		}
		c.Count("csv_values", len(got[f].Data))
	}
}

type xItem struct {
	Format     string `xml:"Format,attr"`
	Dimensions string `xml:"Dimensions,attr"`
	Precision  int    `xml:"Precision,attr"`
	Endian     string `xml:"Endian,attr"`
	DataType   string `xml:"DataType,attr"`
	Value      string `xml:",chardata"`
}

type xGrid struct {
	Grids []xGrid `xml:"Grid"`
	Attrs []struct {
		Name string `xml:"Name,attr"`
		Item xItem  `xml:"DataItem"`
	} `xml:"Attribute"`
}

type xDoc struct {
	Domain struct {
		Topology struct {
			Type       string `xml:"TopologyType,attr"`
			Dimensions string `xml:"Dimensions,attr"`
		} `xml:"Topology"`
		Grid xGrid `xml:"Grid"`
	} `xml:"Domain"`
}

// the description for paraview leads to the values
func xdmf(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 6, 100)
	n := lib.Prod(dims)
	nf := 1 + r.Intn(3)
	names := safeNames(c, nf)
	dir := c.Scratch()
	prefix := filepath.Join(dir, "run")
	fio := pf.NewFloat64IO(prefix)
	epochs := r.Intn(4)
	var hist [][][]float64
	for e := 0; e < epochs; e++ {
		v := mkVals(c, nf, n)
		fio.SaveFields(lib.FakeSolver(names, v), e)
		hist = append(hist, v)
	}
	file := filepath.Join(dir, "run.xdmf")
	if r.Intn(2) == 0 {
		// an older, longer file is replaced
		os.WriteFile(file, bytes.Repeat([]byte("<junk/>\n"), 20000), 0o644)
	}
	pf.WriteXDMF(file, names, prefix, epochs, dims)
	c.Notef("dims %v fields %v epochs %d", dims, names, epochs)
	b, err := os.ReadFile(file)
	if err != nil {
		c.Fatalf("xdmf", "%s", err)
	}
	var doc xDoc
	if err := xml.Unmarshal(b, &doc); err != nil {
		c.Fatalf("xdmf", "not XML: %s", err)
	}
	if bytes.Contains(b, []byte("junk")) {
		c.Fatalf("xdmf", "remains of an older file")
	}
	if len(doc.Domain.Grid.Grids) != epochs {
		c.Fatalf("xdmf", "%d time steps described, expected %d", len(doc.Domain.Grid.Grids), epochs)
	}
	if doc.Domain.Topology.Type != fmt.Sprintf("%dDCoRectMesh", len(dims)) {
		c.Fatalf("xdmf", "topology %s", doc.Domain.Topology.Type)
	}
	for e, g := range doc.Domain.Grid.Grids {
		if len(g.Attrs) != nf {
			c.Fatalf("xdmf", "%d fields described, expected %d", len(g.Attrs), nf)
		}
		for k, a := range g.Attrs {
			if a.Name != names[k] || a.Item.Format != "Binary" || a.Item.Precision != 8 || a.Item.Endian != "Big" || a.Item.DataType != "Float" {
				c.Fatalf("xdmf", "attribute %d: %+v", k, a)
			}
			if a.Item.Dimensions != doc.Domain.Topology.Dimensions {
				c.Fatalf("xdmf", "array is %s, the mesh %s", a.Item.Dimensions, doc.Domain.Topology.Dimensions)
			}
			got := decode(c, strings.TrimSpace(a.Item.Value))
			var sh []int
			for _, s := range strings.Fields(a.Item.Dimensions) {
				x, _ := strconv.Atoi(s)
				sh = append(sh, x)
			}
			if len(sh) != len(dims) || lib.Prod(sh) != len(got) {
				c.Fatalf("xdmf", "array is %v, the file has %d values", sh, len(got))
			}
			// row major: the last index varies fastest. 2D: (x, y), 3D: (z, x, y)
			for i := range got {
				p := make([]int, len(dims))
				if len(dims) == 2 {
					p[0], p[1] = i/sh[1], i%sh[1]
				} else {
					p[2], p[0], p[1] = i/(sh[1]*sh[2]), i/sh[2]%sh[1], i%sh[2]
				}
				for d := range p {
					if p[d] >= dims[d] {
						c.Fatalf("xdmf", "node %v is outside of %v", p, dims)
					}
				}
				if !lib.SameFloat(got[i], hist[e][k][pfutil.NodeIdx(dims, p)]) {
					c.Fatalf("xdmf", "node %v of %s differs", p, names[k])
				}
			}
			c.Count("xdmf_values", len(got))
		}
	}
	c.Key("%v-%d-%d", dims, nf, epochs)
}

// grids
func grid(c *lib.Case) {
	r := c.R
	dims := lib.Dims2or3(r, 1, 6, 100)
	g := pfutil.NewGrid(dims)
	for i := range g.Data {
		g.Data[i] = r.NormFloat64()
	}
	f := filepath.Join(c.Scratch(), "grid.csv")
	g.SaveCsv(f)
	b, err := os.ReadFile(f)
	if err != nil {
		c.Fatalf("grid", "%s", err)
	}
	recs, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
	if err != nil || len(recs) != 1+len(g.Data) {
		c.Fatalf("grid", "%v, %d records", err, len(recs))
	}
	head := []string{"x", "y", "z"}[:len(dims)]
	if strings.Join(recs[0], ",") != strings.Join(append(head, "value"), ",") {
		c.Fatalf("grid", "header %v", recs[0])
	}
	seen := map[int]bool{}
	for _, rec := range recs[1:] {
		p := make([]int, len(dims))
		for d := range p {
			p[d], _ = strconv.Atoi(rec[d])
		}
		k := lib.Idx(dims, p)
		v, _ := strconv.ParseFloat(rec[len(dims)], 64)
		if seen[k] || !closeTxt(v, g.Data[k]) {
			c.Fatalf("grid", "row %v, expected %v", rec, g.Data[k])
		}
		seen[k] = true
	}
	c.Notef("dims %v", dims)
	c.Count("grid_values", len(g.Data))
	c.Key("%v", dims)
}

var writers = map[string]func(dir, file string){
	"float64": func(dir, file string) { pf.SaveFloat64(file, make([]float64, 3000)) },
	"field":   func(dir, file string) { pf.NewField("conc", 3000, nil).SaveReal(file) },
	"csv": func(dir, file string) {
		d := []pf.CsvData{{Name: "conc", Data: &pfutil.RealSlice{Data: make([]float64, 3000)}}}
		pf.SaveCsv(file, d, []int{60, 50})
	},
	"xdmf": func(dir, file string) { pf.WriteXDMF(file, []string{"conc", "eta"}, "x", 400, []int{60, 50}) },
	"grid": func(dir, file string) { g := pfutil.NewGrid([]int{60, 50}); g.SaveCsv(file) },
	"float64io": func(dir, file string) {
		os.Symlink(file, filepath.Join(dir, "p_conc_0.bin"))
		io := pf.NewFloat64IO(filepath.Join(dir, "p"))
		io.SaveFields(lib.FakeSolver([]string{"conc"}, [][]float64{make([]float64, 3000)}), 0)
	},
	"uint8io": func(dir, file string) {
		os.Symlink(file, filepath.Join(dir, "p_conc_0.bin"))
		io := pf.NewUint8IO(filepath.Join(dir, "p"))
		io.SaveFields(lib.FakeSolver([]string{"conc"}, [][]float64{make([]float64, 3000)}), 0)
	},
	"csvio": func(dir, file string) {
		os.Symlink(file, filepath.Join(dir, "p_0.csv"))
		io := pf.CsvIO{Prefix: filepath.Join(dir, "p"), DomainSize: []int{60, 50}}
		io.SaveFields(lib.FakeSolver([]string{"conc"}, [][]float64{make([]float64, 3000)}), 0)
	},
}

var readers = map[string]func(file string) int{
	"float64": func(file string) int { return len(pf.LoadFloat64(file)) },
	"csv": func(file string) int {
		f := pf.LoadCSV(file)
		if len(f) == 0 {
			return 0
		}
		return len(f[len(f)-1].Data)
	},
}

func child(args []string) {
	if args[0] == "write" {
		writers[args[1]](args[2], args[3])
		fmt.Println("written")
		os.Exit(0)
	}
	fmt.Printf("read %d\n", readers[args[1]](args[2]))
	os.Exit(0)
}

func spawn(c *lib.Case, args ...string) (string, string, int) {
	cmd := exec.Command("/proc/self/exe", append([]string{"--special"}, args...)...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() < 0 {
			c.Inconclusive("child: %s", err)
		}
		return so.String(), se.String(), ee.ExitCode()
	} else if err != nil {
		c.Inconclusive("child: %s", err)
	}
	return so.String(), se.String(), 0
}

// no failed write or read goes unnoticed
func failures(c *lib.Case) {
	var ws []string
	for _, k := range []string{"float64", "field", "csv", "xdmf", "grid", "float64io", "uint8io", "csvio"} {
		ws = append(ws, k)
	}
	dir := c.Scratch()
	k := c.Index % (2 * len(ws))
	if c.Index >= 2*len(ws) {
		k = -1
	}
	if k >= 0 {
		w := ws[k/2]
		target := "/dev/full"
		if k%2 == 1 {
			target = filepath.Join(dir, "missing", "dir", "file")
		}
		c.Notef("writer %s to %s", w, target)
		out, se, code := spawn(c, "write", w, dir, target)
		if code == 0 || strings.TrimSpace(se) == "" {
			c.Fatalf("silent", "writing %s to %s failed without a word (exit %d, output %q)", w, target, code, out)
		}
		c.Count("failed_writes_reported", 1)
		c.Key("%s-%d", w, k%2)
		return
	}
	bad := []struct{ kind, content string }{
		{"csv", "X,Y,Z,conc\n0,0,0,abc\n"},
		{"csv", "X,Y,Z,conc\n0,0,0,1.0\n0,1,0\n"},
		{"csv", ""},
		{"csv", "X,Y,Z,conc\n0,0,0,1.0\n0,1,0,1.0,7\n"},
		{"csv", "missing"},
		{"float64", "missing"},
	}
	b := bad[(c.Index-2*len(ws))%len(bad)]
	f := filepath.Join(dir, "in")
	if b.content != "missing" {
		lib.Must(os.WriteFile(f, []byte(b.content), 0o644))
	}
	c.Notef("reader %s of %q", b.kind, b.content)
	out, se, code := spawn(c, "read", b.kind, f)
	if code == 0 || strings.TrimSpace(se) == "" {
		c.Fatalf("silent", "reading %q as %s: exit %d, output %q", b.content, b.kind, code, out)
	}
	c.Count("failed_reads_reported", 1)
	c.Key("%s-%q", b.kind, b.content)
}

// misuse of the csv writer
func misuse(c *lib.Case) {
	d := []pf.CsvData{{Name: "conc", Data: &pfutil.RealSlice{Data: make([]float64, 12)}}}
	var dims []int
	if c.Index%2 == 1 {
		dims = []int{3, 5}
	}
	f := filepath.Join(c.Scratch(), "x.csv")
	if pan, _ := lib.MustPanic(func() { pf.SaveCsv(f, d, dims) }); !pan {
		c.Fatalf("misuse", "12 values accepted for the domain %v", dims)
	}
	if lib.FileSize(f) > 0 {
		c.Fatalf("misuse", "refused data was written")
	}
	c.Count("misuse_refused", 1)
	c.Key("%d", c.Index%2)
}

func main() {
	lib.Main(lib.Prop{ID: "C15", Level: "exploration", CPULimit: 100,
		Special: child,
		Rule:    "Random fields (extreme values, uniform fields, several names, 2D/3D domains, several epochs, overwritten files) written by every writer; files are decoded independently and with the library's readers and compared value by value (bitwise for binary files, six decimals for text, grey scale for uint8), XDMF descriptions are parsed and followed to the values; every writer on a full device and in a missing directory, and every reader on damaged input, must fail loudly. Non-trivial: values compared; classes are (domain, fields, epochs) or (writer, fault).",
		Groups: []lib.Group{
			{Name: "raw", Quick: 400, Thorough: 8000, Run: raw},
			{Name: "callbacks", Quick: 400, Thorough: 8000, Run: callbacks},
			{Name: "xdmf", Quick: 300, Thorough: 6000, Run: xdmf},
			{Name: "grid", Quick: 150, Thorough: 3000, Run: grid},
			{Name: "failures", Quick: 22, Thorough: 22, Run: failures},
			{Name: "misuse", Quick: 4, Thorough: 4, Run: misuse},
		}})
}
