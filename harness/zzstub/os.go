package zzstub

import (
	"os"
	"strings"
	"syscall"
	"time"
)

// Unsupported ends the path as not encodable (engine intrinsic).
func Unsupported(msg string) { panic(msg) }

// The only files a harness may name are missing ones, and the working directory.
func noFile(op, name string) error {
	if strings.HasPrefix(name, "/nonexistent/") {
		return &os.PathError{Op: op, Path: name, Err: syscall.ENOENT}
	}
	Unsupported("file access: " + name)
	return nil
}

type dirInfo struct{}

func (dirInfo) Name() string       { return "." }
func (dirInfo) Size() int64        { return 4096 }
func (dirInfo) Mode() os.FileMode  { return os.ModeDir | 0o755 }
func (dirInfo) ModTime() time.Time { return time.Time{} }
func (dirInfo) IsDir() bool        { return true }
func (dirInfo) Sys() any           { return nil }

func OsStat(name string) (os.FileInfo, error) {
	if name == "." { // the working directory
		return dirInfo{}, nil
	}
	return nil, noFile("stat", name)
}
func OsReadFile(name string) ([]byte, error) { return nil, noFile("open", name) }
func OsOpen(name string) (*os.File, error)   { return nil, noFile("open", name) }
