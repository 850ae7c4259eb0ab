// Package simos stands in for package os (and io/ioutil) in the instrumented
// copy of plainkv: files are those of the simulated machine. The build
// replaces the identifiers declared here and leaves the rest of package os.
package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/roy2220/fsm/simdisk"
	"github.com/roy2220/fsm/simhook"
)

// File is an open file with a position.
type File struct {
	*simdisk.File
	pos int64
	app bool
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	simhook.Y()
	f, err := simdisk.OpenFile(clean(name), flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{File: f, app: flag&os.O_APPEND != 0}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	for i := 0; ; i++ {
		n := filepath.Join(dir, pattern+string(rune('0'+i%10))+string(rune('a'+i/10%26)))
		if _, err := Stat(n); err != nil {
			return OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		}
	}
}

func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

func clean(name string) string { return filepath.Clean(name) }

func (f *File) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	n, err := f.ReadAt(b, f.pos)
	f.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

func (f *File) Write(b []byte) (int, error) {
	if f.app {
		f.pos = f.Ino.Size()
	}
	n, err := f.WriteAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

// Fd is a descriptor of the host, good for what has no effect on the file.
func (f *File) Fd() uintptr { return f.Ino.Fd() }

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.Ino.Size()
	}
	if off < 0 {
		return 0, &os.PathError{Op: "seek", Path: f.Name(), Err: syscall.EINVAL}
	}
	f.pos = off
	return off, nil
}

func (f *File) Stat() (os.FileInfo, error)    { return info{f.Ino.Name, f.Ino.Size()}, nil }
func (f *File) Chmod(m os.FileMode) error     { return nil }
func (f *File) SetDeadline(t time.Time) error { return os.ErrNoDeadline }
func (f *File) Chown(uid, gid int) error      { return nil }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	var t int64
	b := make([]byte, 32768)
	for {
		n, err := r.Read(b)
		if n > 0 {
			m, werr := f.Write(b[:n])
			t += int64(m)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

type info struct {
	name string
	size int64
}

func (i info) Name() string       { return filepath.Base(i.name) }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return 0644 }
func (i info) ModTime() time.Time { return time.Unix(1600000000, 0) }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.name == y.name
}

func Stat(name string) (os.FileInfo, error) {
	simhook.Y()
	if err := simdisk.Cur.Try("stat", "stat", name); err != nil {
		return nil, err
	}
	ino := simdisk.Cur.Files[clean(name)]
	if ino == nil {
		return nil, &os.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return info{clean(name), ino.Size()}, nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func Remove(name string) error {
	simhook.Y()
	if err := simdisk.Cur.Try("remove", "remove", name); err != nil {
		return err
	}
	if simdisk.Cur.Files[clean(name)] == nil {
		return &os.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
	}
	simdisk.Cur.Unlink(clean(name))
	simdisk.Cur.Done("remove")
	return nil
}

func RemoveAll(name string) error {
	if err := Remove(name); err != nil && !errors.Is(err, os.ErrNotExist) {
		return err
	}
	return nil
}

func Rename(from, to string) error {
	simhook.Y()
	w := simdisk.Cur
	if err := w.Try("rename", "rename", from); err != nil {
		return err
	}
	ino := w.Files[clean(from)]
	if ino == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if clean(from) != clean(to) {
		w.Unlink(clean(to))
		delete(w.Files, clean(from))
		w.Files[clean(to)] = ino
		ino.Name = clean(to)
	}
	w.Done("rename")
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b := make([]byte, f.Ino.Size())
	if len(b) == 0 {
		return b, nil
	}
	n, err := f.ReadAt(b, 0)
	if err == io.EOF {
		err = nil
	}
	return b[:n], err
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err2 := f.Close(); err == nil {
		err = err2
	}
	return err
}

func Chmod(name string, m os.FileMode) error {
	_, err := Stat(name)
	return err
}

func Mkdir(name string, m os.FileMode) error    { return nil }
func MkdirAll(name string, m os.FileMode) error { return nil }

func Link(from, to string) error    { return unsupported("link", from, to) }
func Symlink(from, to string) error { return unsupported("symlink", from, to) }

func unsupported(op, from, to string) error {
	return &os.LinkError{Op: op, Old: from, New: to, Err: syscall.EPERM}
}
