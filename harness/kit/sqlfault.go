package kit

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"sync"

	"codeberg.org/emersion/soju/database"
)

// SQLFault counts the steps (statements, begins, commits) the SQLite driver
// performs and makes one of them fail, or everything from one on fail (as if
// the process died there: uncommitted work is lost).
type SQLFault struct {
	mu    sync.Mutex
	n     int
	at    int // step to fail, 0 for none
	crash bool
	hit   bool
	Log   []string
}

var sqlFault = &SQLFault{}

// ErrSQL is the injected failure.
var ErrSQL = errors.New("injected database failure")

// Arm resets the counter and plans a failure.
func (f *SQLFault) Arm(at int, crash bool) {
	f.mu.Lock()
	f.n, f.at, f.crash, f.hit, f.Log = 0, at, crash, false, nil
	f.mu.Unlock()
}

// Steps returns the number of steps since Arm, and whether the failure hit.
func (f *SQLFault) Steps() (int, bool) { f.mu.Lock(); defer f.mu.Unlock(); return f.n, f.hit }

func (f *SQLFault) step(what string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	if len(f.Log) < 200 {
		f.Log = append(f.Log, what)
	}
	if f.at != 0 && (f.n == f.at || (f.crash && f.n > f.at)) {
		f.hit = true
		return ErrSQL
	}
	return nil
}

type faultDriver struct{ d driver.Driver }

func (d faultDriver) Open(name string) (driver.Conn, error) {
	c, err := d.d.Open(name)
	if err != nil {
		return nil, err
	}
	return &faultConn{c}, nil
}

type faultConn struct{ c driver.Conn }

func (c *faultConn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}

func (c *faultConn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	if err := sqlFault.step("prepare"); err != nil {
		return nil, err
	}
	s, err := c.c.(driver.ConnPrepareContext).PrepareContext(ctx, q)
	if err != nil {
		return nil, err
	}
	return &faultStmt{s, q}, nil
}

func (c *faultConn) Close() error { return c.c.Close() }
func (c *faultConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *faultConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := sqlFault.step("begin"); err != nil {
		return nil, err
	}
	tx, err := c.c.(driver.ConnBeginTx).BeginTx(ctx, o)
	if err != nil {
		return nil, err
	}
	return &faultTx{tx}, nil
}

func (c *faultConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := sqlFault.step("exec " + q); err != nil {
		return nil, err
	}
	return c.c.(driver.ExecerContext).ExecContext(ctx, q, args)
}

func (c *faultConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err := sqlFault.step("query " + q); err != nil {
		return nil, err
	}
	return c.c.(driver.QueryerContext).QueryContext(ctx, q, args)
}

func (c *faultConn) Ping(ctx context.Context) error {
	if p, ok := c.c.(driver.Pinger); ok {
		return p.Ping(ctx)
	}
	return nil
}

type faultTx struct{ tx driver.Tx }

func (t *faultTx) Commit() error {
	if err := sqlFault.step("commit"); err != nil {
		t.tx.Rollback()
		return err
	}
	return t.tx.Commit()
}
func (t *faultTx) Rollback() error { return t.tx.Rollback() }

type faultStmt struct {
	s driver.Stmt
	q string
}

func (s *faultStmt) Close() error  { return s.s.Close() }
func (s *faultStmt) NumInput() int { return s.s.NumInput() }
func (s *faultStmt) Exec(args []driver.Value) (driver.Result, error) {
	return nil, errors.New("not supported")
}
func (s *faultStmt) Query(args []driver.Value) (driver.Rows, error) {
	return nil, errors.New("not supported")
}
func (s *faultStmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	if err := sqlFault.step("exec " + s.q); err != nil {
		return nil, err
	}
	return s.s.(driver.StmtExecContext).ExecContext(ctx, args)
}
func (s *faultStmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	if err := sqlFault.step("query " + s.q); err != nil {
		return nil, err
	}
	return s.s.(driver.StmtQueryContext).QueryContext(ctx, args)
}

var sqlFaultOnce sync.Once

// UseSQLFault makes databases opened from now on go through the
// fault-injecting driver.
func UseSQLFault() *SQLFault {
	sqlFaultOnce.Do(func() {
		db, err := sql.Open("sqlite3", ":memory:")
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		sql.Register("sqlite3-verif", faultDriver{db.Driver()})
		db.Close()
		database.VerifSetSqliteDriver("sqlite3-verif")
	})
	return sqlFault
}
