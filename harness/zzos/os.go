// Package os is a model of the file operations of package os for checking the generator: files are kept in memory and
// operations fail as the harness decides.
package os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strconv"
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_TRUNC  = os.O_TRUNC

	ModePerm = os.ModePerm
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	PathError = fs.PathError
)

var (
	ErrNotExist = fs.ErrNotExist
	ErrExist    = fs.ErrExist
	Stdout      = io.Writer(io.Discard)
	Stderr      = io.Writer(io.Discard)
)

// FS is the file system.
var (
	Data   = map[string][]byte{}
	Dirs   = map[string]bool{}
	Names  []string // files in the order they were created
	Opened int      // files not closed
	Fault  func(op, name string) error
)

// ErrFault is what a failing operation returns.
var ErrFault = errors.New("injected fault")

func fault(op, name string) error {
	if Fault != nil {
		if err := Fault(op, name); err != nil {
			return &fs.PathError{Op: op, Path: name, Err: err}
		}
	}
	return nil
}

func dir(name string) string {
	for i := len(name) - 1; i > 0; i-- {
		if name[i] == '/' {
			return name[:i]
		}
	}
	return "."
}

func MkdirAll(name string, _ FileMode) error {
	if Dirs[name] {
		return nil
	}
	if err := fault("mkdir", name); err != nil {
		return err
	}
	Dirs[name] = true
	return nil
}

func Mkdir(name string, m FileMode) error { return MkdirAll(name, m) }

// File is an open file.
type File struct {
	name   string
	pos    int
	add    bool // opened with O_APPEND
	closed bool
}

func OpenFile(name string, flag int, _ FileMode) (*File, error) {
	if err := fault("open", name); err != nil {
		return nil, err
	}
	_, ok := Data[name]
	if !ok && (flag&O_CREATE == 0 || !Dirs[dir(name)] && dir(name) != ".") {
		return nil, &fs.PathError{Op: "open", Path: name, Err: ErrNotExist}
	}
	if !ok {
		Names = append(Names, name)
	}
	if !ok || flag&O_TRUNC != 0 {
		Data[name] = nil
	}
	Opened++
	return &File{name: name, add: flag&O_APPEND != 0}, nil
}

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func WriteFile(name string, b []byte, m FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if err1 := f.Close(); err == nil {
		err = err1
	}
	return err
}

func (f *File) Name() string { return f.name }
func (f *File) Write(b []byte) (int, error) {
	if err := fault("write", f.name); err != nil {
		return 0, err
	}
	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.add {
		f.pos = len(Data[f.name])
	}
	end := f.pos + len(b)
	if end > len(Data[f.name]) {
		Data[f.name] = append(Data[f.name][:f.pos:f.pos], b...)
	} else {
		copy(Data[f.name][f.pos:], b)
	}
	f.pos = end
	return len(b), nil
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Sync() error                       { return nil }
func (f *File) Close() error {
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	Opened--
	return fault("close", f.name)
}

func Rename(from, to string) error {
	if err := fault("rename", to); err != nil {
		return err
	}
	b, ok := Data[from]
	if !ok {
		return &fs.PathError{Op: "rename", Path: from, Err: ErrNotExist}
	}
	drop(from)
	if _, ok := Data[to]; !ok {
		Names = append(Names, to)
	}
	Data[to] = b
	return nil
}

func drop(name string) {
	delete(Data, name)
	var l []string
	for _, n := range Names {
		if n != name {
			l = append(l, n)
		}
	}
	Names = l
}

func Remove(name string) error {
	if _, ok := Data[name]; !ok {
		return &fs.PathError{Op: "remove", Path: name, Err: ErrNotExist}
	}
	drop(name)
	return nil
}

func ReadFile(name string) ([]byte, error) {
	b, ok := Data[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: ErrNotExist}
	}
	return append([]byte(nil), b...), nil
}

var temps int

func CreateTemp(dir, pattern string) (*File, error) {
	temps++
	i := len(pattern)
	for k := len(pattern) - 1; k >= 0; k-- {
		if pattern[k] == '*' {
			i = k
			break
		}
	}
	name := pattern[:i] + "tmp" + strconv.Itoa(temps)
	if i < len(pattern) {
		name += pattern[i+1:]
	}
	if dir == "" {
		dir = "tmp"
		Dirs[dir] = true
	}
	return OpenFile(dir+"/"+name, O_RDWR|O_CREATE|O_EXCL, 0600)
}

func Chmod(string, FileMode) error { return nil }

func IsNotExist(err error) bool { return errors.Is(err, ErrNotExist) }
