// Package pq replaces github.com/lib/pq in the instrumented tracker: a "postgres" driver over one in-memory
// table whose every call the explorer can make fail.
package pq

import (
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"strings"
	"time"

	"github.com/crimist/trakx/zzv/vs"
)

// Row is one backup row.
type Row struct {
	Bytes []byte
	TS    int64
	Null  bool
}

var (
	Rows      []Row
	Table     bool
	Faults    bool // every call may fail (one deviation each)
	Bad       bool // faults are driver.ErrBadConn
	OpenRows  int  // result sets handed out and not closed
	OpenConns int
	Calls     []string
	Unknown   []string
	BeforeSel func(n int) // called before the n-th SELECT is answered
	Sels      int
	DSN       string
	Faulted   int                    // calls which failed
	FailNow   func(what string) bool // fails the call
)

func init() {
	vs.OnReset(Reset)
	sql.Register("postgres", drv{})
}

func Reset() {
	Rows, Table, Faults, Bad, OpenRows, OpenConns, Calls, Unknown, BeforeSel, Sels, DSN = nil, false, false, false, 0, 0, nil, nil, nil, 0, ""
	Faulted, FailNow = 0, nil
}

var ErrFault = errors.New("pq: injected failure")

func fault(what string) error {
	vs.CheckDead()
	vs.Point("pg " + what)
	Calls = append(Calls, what)
	if FailNow != nil && FailNow(what) {
		return ErrFault
	}
	if Faults && vs.Env(2) == 1 {
		vs.Tracef("database fault at %s", what)
		Faulted++
		if Bad {
			return driver.ErrBadConn
		}
		return ErrFault
	}
	return nil
}

type drv struct{}

func (drv) Open(name string) (driver.Conn, error) {
	DSN = name
	if err := fault("connect"); err != nil {
		return nil, err
	}
	OpenConns++
	return &conn{}, nil
}

type conn struct{ closed bool }

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	if err := fault("prepare"); err != nil {
		return nil, err
	}
	return &stmt{q: q}, nil
}
func (c *conn) Close() error {
	if !c.closed {
		c.closed = true
		OpenConns--
	}
	return nil
}
func (c *conn) Begin() (driver.Tx, error) {
	if err := fault("begin"); err != nil {
		return nil, err
	}
	return &tx{snap: append([]Row(nil), Rows...)}, nil
}

type tx struct{ snap []Row }

func (t *tx) Commit() error   { return fault("commit") }
func (t *tx) Rollback() error { Rows = t.snap; return nil }

type stmt struct{ q string }

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }

func norm(q string) string {
	return strings.ToUpper(strings.Join(strings.Fields(strings.TrimSuffix(strings.TrimSpace(q), ";")), " "))
}

func (s *stmt) run(args []driver.Value) (cols []string, rows [][]driver.Value, n int64, err error) {
	q := norm(s.q)
	switch {
	case strings.HasPrefix(q, "CREATE TABLE"):
		if err := fault("create"); err != nil {
			return nil, nil, 0, err
		}
		Table = true
	case strings.HasPrefix(q, "INSERT INTO TRAKX"):
		if err := fault("insert"); err != nil {
			return nil, nil, 0, err
		}
		r := Row{TS: vs.Now(), Null: true}
		for i := 0; i < len(Rows); i++ { // no two inserts at the same instant
			if Rows[i].TS == r.TS {
				r.TS += int64(time.Microsecond)
				i = -1
			}
		}
		for _, a := range args {
			switch a := a.(type) {
			case []byte:
				if a != nil {
					r.Bytes = append([]byte{}, a...)
					r.Null = false
				}
			case time.Time:
				r.TS = a.UnixNano()
			}
		}
		Rows = append(Rows, r)
		n = 1
	case strings.HasPrefix(q, "SELECT") && strings.Contains(q, "FROM TRAKX"):
		Sels++
		if BeforeSel != nil {
			BeforeSel(Sels)
		}
		if err := fault("select"); err != nil {
			return nil, nil, 0, err
		}
		list := strings.Split(q[len("SELECT"):strings.Index(q, " FROM ")], ",")
		for i := range list {
			cols = append(cols, strings.ToLower(strings.TrimSpace(list[i])))
		}
		rs := append([]Row(nil), Rows...)
		if i := strings.Index(q, "ORDER BY TS"); i >= 0 {
			desc := strings.HasPrefix(strings.TrimSpace(q[i+len("ORDER BY TS"):]), "DESC")
			for i := 1; i < len(rs); i++ {
				for j := i; j > 0; j-- {
					if (desc && rs[j].TS > rs[j-1].TS) || (!desc && rs[j].TS < rs[j-1].TS) {
						rs[j], rs[j-1] = rs[j-1], rs[j]
					}
				}
			}
		}
		if strings.Contains(q, "LIMIT 1") && len(rs) > 1 {
			rs = rs[:1]
		}
		for _, r := range rs {
			var row []driver.Value
			for _, c := range cols {
				switch c {
				case "bytes":
					if r.Null {
						row = append(row, nil)
					} else {
						row = append(row, append([]byte{}, r.Bytes...))
					}
				case "ts":
					row = append(row, time.Unix(0, r.TS).UTC())
				case "count(*)":
					rows = [][]driver.Value{{int64(len(Rows))}}
					return cols, rows, 0, nil
				default:
					row = append(row, nil)
				}
			}
			rows = append(rows, row)
		}
	case strings.HasPrefix(q, "DELETE FROM TRAKX"):
		if err := fault("delete"); err != nil {
			return nil, nil, 0, err
		}
	default:
		Unknown = append(Unknown, s.q)
		if err := fault("other"); err != nil {
			return nil, nil, 0, err
		}
	}
	return
}

type result int64

func (r result) LastInsertId() (int64, error) { return 0, errors.New("not supported") }
func (r result) RowsAffected() (int64, error) { return int64(r), nil }

func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	_, _, n, err := s.run(args)
	if err != nil {
		return nil, err
	}
	return result(n), nil
}

func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	cols, rows, _, err := s.run(args)
	if err != nil {
		return nil, err
	}
	OpenRows++
	return &rowset{cols: cols, rows: rows}, nil
}

type rowset struct {
	cols   []string
	rows   [][]driver.Value
	closed bool
}

func (r *rowset) Columns() []string { return r.cols }
func (r *rowset) Close() error {
	if !r.closed {
		r.closed = true
		OpenRows--
	}
	return nil
}
func (r *rowset) Next(dest []driver.Value) error {
	if len(r.rows) == 0 {
		return io.EOF
	}
	if err := fault("fetch"); err != nil {
		return err
	}
	copy(dest, r.rows[0])
	r.rows = r.rows[1:]
	return nil
}
