// Package file is a model of a migrations folder and of the database it is applied to, in place of golang-migrate's
// file source and database drivers. golang-migrate itself is the real one.
package file

import (
	"database/sql"
	"io"
	"io/fs"
	"strconv"
	"strings"

	"github.com/golang-migrate/migrate/v4/database"
	"github.com/golang-migrate/migrate/v4/source"
)

// Model state, set by the harness.
var (
	Versions []uint // the folder's migrations, ascending
	URL      string // as opened
	Kind     string // driver asked for
	DB       *sql.DB

	V      int // version recorded in the database
	Dirty  bool
	Locked bool
	Runs   []string // migrations run
	Sets   int      // changes of the recorded version
	Ops    []string

	FailAt int // the n-th operation fails (0: none)
	Err    error
	Fired  bool
)

func Reset() {
	Versions, URL, Kind, DB, V, Dirty, Locked, Runs, Sets, Ops, FailAt, Err, Fired = nil, "", "", nil, database.NilVersion, false, false, nil, 0, nil, 0, nil, false
}

func op(name string) error {
	Ops = append(Ops, name)
	if len(Ops) == FailAt {
		Fired = true
		return Err
	}
	return nil
}

// Source

type File struct{}

func init() { source.Register("file", &File{}) }

func (f *File) Open(url string) (source.Driver, error) {
	if err := op("source"); err != nil {
		return nil, err
	}
	URL = url
	return &File{}, nil
}

func (f *File) Close() error { return nil }

func missing(v uint) error {
	return &fs.PathError{Op: "version", Path: strconv.Itoa(int(v)), Err: fs.ErrNotExist}
}

func find(v uint) int {
	for i, x := range Versions {
		if x == v {
			return i
		}
	}
	return -1
}

func (f *File) First() (uint, error) {
	if err := op("first"); err != nil {
		return 0, err
	}
	if len(Versions) == 0 {
		return 0, missing(0)
	}
	return Versions[0], nil
}

func (f *File) Prev(v uint) (uint, error) {
	if err := op("prev"); err != nil {
		return 0, err
	}
	if i := find(v); i > 0 {
		return Versions[i-1], nil
	}
	return 0, missing(v)
}

func (f *File) Next(v uint) (uint, error) {
	if err := op("next"); err != nil {
		return 0, err
	}
	if i := find(v); i >= 0 && i+1 < len(Versions) {
		return Versions[i+1], nil
	}
	return 0, missing(v)
}

func body(dir string, v uint) (io.ReadCloser, string, error) {
	if err := op("read"); err != nil {
		return nil, "", err
	}
	if find(v) < 0 {
		return nil, "", missing(v)
	}
	s := dir + strconv.Itoa(int(v))
	return io.NopCloser(strings.NewReader(s)), s, nil
}

func (f *File) ReadUp(v uint) (io.ReadCloser, string, error)   { return body("up", v) }
func (f *File) ReadDown(v uint) (io.ReadCloser, string, error) { return body("down", v) }

// Database

type Base struct{}

func Open(kind string, db *sql.DB) (database.Driver, error) {
	if err := op("instance"); err != nil {
		return nil, err
	}
	Kind, DB = kind, db
	return Base{}, nil
}

func (Base) Open(url string) (database.Driver, error) { return Base{}, nil }
func (Base) Close() error                             { return nil }

func (Base) Lock() error {
	if err := op("lock"); err != nil {
		return err
	}
	if Locked {
		return database.ErrLocked
	}
	Locked = true
	return nil
}

func (Base) Unlock() error {
	if err := op("unlock"); err != nil {
		return err
	}
	Locked = false
	return nil
}

func (Base) Run(r io.Reader) error {
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	if err := op("run"); err != nil {
		return err
	}
	Runs = append(Runs, string(b))
	return nil
}

func (Base) SetVersion(v int, dirty bool) error {
	if err := op("set"); err != nil {
		return err
	}
	V, Dirty = v, dirty
	Sets++
	return nil
}

func (Base) Version() (int, bool, error) {
	if err := op("version"); err != nil {
		return 0, false, err
	}
	return V, Dirty, nil
}

func (Base) Drop() error { return op("drop") }

// OnlyUnlock tells that the one thing that failed is giving back the lock at the very end, when the database already was
// where it should be and nothing ran: whether that is reported is not specified (golang-migrate joins the failure
// with ErrNoChange).
func OnlyUnlock(forced bool, target int) bool {
	locks := 1
	if forced {
		locks = 2
	}
	for _, o := range Ops {
		if o == "lock" {
			locks--
		}
	}
	return Fired && locks == 0 && len(Ops) == FailAt && Ops[FailAt-1] == "unlock" && len(Runs) == 0 && V == target && !Dirty
}
