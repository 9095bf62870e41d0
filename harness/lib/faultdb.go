package lib

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"os"
	"sync"
	"syscall"

	sqlite3 "github.com/mattn/go-sqlite3"
)

// Fault injects one fault at the At-th database operation (counted from 1). Kind is one of
// "none", "err", "kill-before", "kill-after".
type Fault struct {
	mu    sync.Mutex
	Kind  string
	At    int
	N     int
	Salt  int
	Fired string
	Trace []string
}

// Injected are the injected errors: one of no particular type, and those sqlite reports when
// another program holds a lock, the disk is full, the file cannot be written or is damaged.
var Injected = []error{
	errors.New("disk I/O error (injected)"),
	sqlite3.Error{Code: sqlite3.ErrBusy},
	sqlite3.Error{Code: sqlite3.ErrLocked},
	sqlite3.Error{Code: sqlite3.ErrFull},
	sqlite3.Error{Code: sqlite3.ErrIoErr},
	sqlite3.Error{Code: sqlite3.ErrReadonly},
	sqlite3.Error{Code: sqlite3.ErrConstraint, ExtendedCode: sqlite3.ErrConstraintUnique},
	sqlite3.Error{Code: sqlite3.ErrInterrupt},
}

func (f *Fault) op(name string, do func() error) error {
	f.mu.Lock()
	f.N++
	n := f.N
	f.Trace = append(f.Trace, name)
	f.mu.Unlock()
	if n == f.At {
		f.Fired = name
		switch f.Kind {
		case "err":
			return Injected[(n+f.Salt)%len(Injected)]
		case "kill-before":
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		case "kill-after":
			do()
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		}
	}
	return do()
}

type fDriver struct {
	f *Fault
	d driver.Driver
}

func (d *fDriver) Open(name string) (driver.Conn, error) {
	c, err := d.d.Open(name)
	if err != nil {
		return nil, err
	}
	return &fConn{d.f, c}, nil
}

type fConn struct {
	f *Fault
	c driver.Conn
}

func (c *fConn) Prepare(q string) (driver.Stmt, error) {
	var s driver.Stmt
	err := c.f.op("prepare", func() (e error) { s, e = c.c.Prepare(q); return })
	if err != nil {
		return nil, err
	}
	return &fStmt{c.f, s}, nil
}
func (c *fConn) Close() error { return c.c.Close() }
func (c *fConn) Begin() (driver.Tx, error) {
	var t driver.Tx
	//lint:ignore SA1019 interface
	err := c.f.op("begin", func() (e error) { t, e = c.c.Begin(); return })
	if err != nil {
		return nil, err
	}
	return &fTx{c.f, t}, nil
}

// BeginTx passes options through
func (c *fConn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	return c.Begin()
}

type fTx struct {
	f *Fault
	t driver.Tx
}

func (t *fTx) Commit() error {
	tried := false
	err := t.f.op("commit", func() error { tried = true; return t.t.Commit() })
	if !tried {
		// a failed commit leaves nothing behind
		t.t.Rollback()
	}
	return err
}
func (t *fTx) Rollback() error { return t.t.Rollback() }

type fStmt struct {
	f *Fault
	s driver.Stmt
}

func (s *fStmt) Close() error  { return s.s.Close() }
func (s *fStmt) NumInput() int { return s.s.NumInput() }
func (s *fStmt) Exec(a []driver.Value) (driver.Result, error) {
	var r driver.Result
	//lint:ignore SA1019 interface
	err := s.f.op("exec", func() (e error) { r, e = s.s.Exec(a); return })
	return r, err
}
func (s *fStmt) Query(a []driver.Value) (driver.Rows, error) {
	var r driver.Rows
	//lint:ignore SA1019 interface
	err := s.f.op("query", func() (e error) { r, e = s.s.Query(a); return })
	if err != nil {
		return nil, err
	}
	return &fRows{s.f, r}, nil
}

type fRows struct {
	f *Fault
	r driver.Rows
}

func (r *fRows) Columns() []string { return r.r.Columns() }
func (r *fRows) Close() error      { return r.r.Close() }
func (r *fRows) Next(dest []driver.Value) error {
	return r.f.op("next", func() error { return r.r.Next(dest) })
}

var faultReg sync.Once
var faultDrv = &fDriver{d: &sqlite3.SQLiteDriver{}}

// OpenFaultDB opens a database whose operations pass through f (one at a time per process).
func OpenFaultDB(file string, f *Fault) *sql.DB {
	faultReg.Do(func() { sql.Register("faulty", faultDrv) })
	faultDrv.f = f
	db, err := sql.Open("faulty", file)
	Must(err)
	return db
}
