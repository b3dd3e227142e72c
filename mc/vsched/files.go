//go:build go1.22

package verifsched

import (
	"errors"
	"io/fs"
	"os"
)

// FileHook, if set, is called in a session at every point of the program where it
// could be interrupted with a different state of the disk: after each operation that
// changes a file, and between the pieces of a write.
var FileHook func(op, name string)

// FileFail is the number of the operation that fails (0: none). A write that fails
// has stored the first half of its data.
var FileFail int

// fileOps counts the operations since ResetFiles
var fileOps int

// FileOps is the number of operations since ResetFiles
func FileOps() int { return fileOps }

// ResetFiles starts counting
func ResetFiles() { fileOps = 0 }

var errFull = errors.New("no space left on device")

func filePoint(op, name string) {
	if FileHook != nil {
		FileHook(op, name)
	}
}

// fileFails counts an operation and tells whether it fails
func fileFails() bool {
	fileOps++
	return fileOps == FileFail
}

// WriteFile is os.WriteFile
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	if FileHook == nil || !Active() {
		return os.WriteFile(name, data, perm)
	}
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = F(f).Write(data)
	if err2 := f.Close(); err == nil {
		err = err2
	}
	return err
}

// Create is os.Create
func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// OpenFile is os.OpenFile
func OpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	if FileHook == nil || !Active() || flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) == 0 {
		return os.OpenFile(name, flag, perm)
	}
	if fileFails() {
		return nil, &fs.PathError{Op: "open", Path: name, Err: errFull}
	}
	f, err := os.OpenFile(name, flag, perm)
	filePoint("opened", name)
	return f, err
}

// Rename is os.Rename
func Rename(a, b string) error {
	if FileHook == nil || !Active() {
		return os.Rename(a, b)
	}
	if fileFails() {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: errFull}
	}
	filePoint("before renaming", a)
	err := os.Rename(a, b)
	filePoint("renamed", b)
	return err
}

// Remove is os.Remove
func Remove(name string) error {
	err := os.Remove(name)
	if Active() {
		filePoint("removed", name)
	}
	return err
}

// RemoveAll is os.RemoveAll
func RemoveAll(name string) error {
	err := os.RemoveAll(name)
	if Active() {
		filePoint("removed", name)
	}
	return err
}

// Truncate is os.Truncate
func Truncate(name string, n int64) error {
	err := os.Truncate(name, n)
	if Active() {
		filePoint("truncated", name)
	}
	return err
}

// Link is os.Link
func Link(a, b string) error {
	err := os.Link(a, b)
	if Active() {
		filePoint("linked", b)
	}
	return err
}

// File is *os.File
type File struct{ *os.File }

// F wraps a file
func F(f *os.File) File { return File{f} }

// Write is (*os.File).Write
func (f File) Write(b []byte) (int, error) {
	if FileHook == nil || !Active() || f.File == nil {
		return f.File.Write(b)
	}
	fail := fileFails()
	n := 0
	for _, end := range []int{1, len(b) / 2, len(b) - 1, len(b)} {
		if end <= n || end > len(b) {
			continue
		}
		m, err := f.File.Write(b[n:end])
		n += m
		if err != nil {
			return n, err
		}
		filePoint("wrote a part of", f.Name())
		if fail && end >= len(b)/2 {
			return n, &fs.PathError{Op: "write", Path: f.Name(), Err: errFull}
		}
	}
	return n, nil
}

// WriteString is (*os.File).WriteString
func (f File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt is (*os.File).WriteAt
func (f File) WriteAt(b []byte, off int64) (int, error) {
	n, err := f.File.WriteAt(b, off)
	if Active() {
		filePoint("wrote to", f.Name())
	}
	return n, err
}

// Truncate is (*os.File).Truncate
func (f File) Truncate(n int64) error {
	err := f.File.Truncate(n)
	if Active() {
		filePoint("truncated", f.Name())
	}
	return err
}

// Close is (*os.File).Close
func (f File) Close() error {
	err := f.File.Close()
	if Active() && f.File != nil {
		filePoint("closed", f.Name())
	}
	return err
}
