package lib

import (
	"database/sql"
	"fmt"
	"math"
	"math/rand"

	"github.com/davidkleiven/gopf/pf"
	_ "github.com/mattn/go-sqlite3" // sqlite
)

// OpenDB opens a database file.
func OpenDB(file string) *sql.DB {
	db, err := sql.Open("sqlite3", file)
	Must(err)
	return db
}

// DBNames are field/attribute names, some of them hostile to SQL or to prefix matching.
var DBNames = []string{"conc", "conc2", "con", "eta1", "eta", "phi", "Eta", "it's", "a\"b", "x;DROP TABLE fields", "名前", "with space", "a%b_c", "?", "value", "name", "--c", "c'||'d", "1", "tab\tname"}

// FieldNames draws distinct field names.
func FieldNames(r *rand.Rand, n int) []string {
	var out []string
	for _, i := range r.Perm(len(DBNames))[:n] {
		// names that start with a reserved prefix of the equation parser are refused by the library
		if DBNames[i][0] == '-' {
			out = append(out, "dash"+DBNames[i])
			continue
		}
		out = append(out, DBNames[i])
	}
	return out
}

// HostileFloats draws values with extreme members.
func HostileFloats(r *rand.Rand, n int) []float64 {
	out := make([]float64, n)
	sp := []float64{0, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, -1e-310, 1, -1, 1e15, 123456789012345678, 0.1, 1.0 / 3, 2147483648, 9007199254740993, 4294967296, -7}
	mode := r.Intn(4)
	for i := range out {
		switch {
		case mode == 0 && r.Intn(3) == 0:
			out[i] = sp[r.Intn(len(sp))]
		case mode == 1:
			out[i] = float64(r.Intn(5))
		case mode == 2:
			out[i] = r.NormFloat64() * math.Pow(10, float64(r.Intn(40)-20))
		default:
			out[i] = r.NormFloat64()
		}
	}
	return out
}

// SameFloat treats NaN as equal to NaN.
func SameFloat(a, b float64) bool {
	return a == b || (math.IsNaN(a) && math.IsNaN(b))
}

// FakeSolver is a solver that only carries fields.
func FakeSolver(names []string, vals [][]float64) *pf.Solver {
	m := pf.NewModel()
	for i, n := range names {
		m.AddField(pf.NewField(n, len(vals[i]), ToC(vals[i])))
	}
	return &pf.Solver{Model: &m}
}

// Rows runs a query and returns all rows as values.
func Rows(db *sql.DB, q string, args ...interface{}) [][]interface{} {
	rows, err := db.Query(q, args...)
	Must(err)
	defer rows.Close()
	cols, err := rows.Columns()
	Must(err)
	var out [][]interface{}
	for rows.Next() {
		v := make([]interface{}, len(cols))
		p := make([]interface{}, len(cols))
		for i := range v {
			p[i] = &v[i]
		}
		Must(rows.Scan(p...))
		out = append(out, v)
	}
	Must(rows.Err())
	return out
}

// Str and Flt convert column values.
func Str(v interface{}) string {
	switch x := v.(type) {
	case []byte:
		return string(x)
	case string:
		return x
	case nil:
		return "<null>"
	}
	return fmt.Sprint(v)
}

// Flt converts a column value; NULL is NaN.
func Flt(v interface{}) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case int64:
		return float64(x)
	case nil:
		return math.NaN()
	}
	return math.NaN()
}

// Int converts a column value.
func Int(v interface{}) int {
	switch x := v.(type) {
	case int64:
		return int(x)
	case float64:
		return int(x)
	}
	return -1 << 40
}
