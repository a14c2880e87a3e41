// Package symfs is the file system of the symbolic runs: in memory, empty but
// for the scratch directory, standing in for the functions of package os
// listed in Replace. A native run uses the real file system, in a scratch
// directory of its own.
package symfs

import (
	"io"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/wujiu2020/strip/zz_verif/sym"
)

// Replace: "function of package os = function of this package"; read by the engine.
const Replace = `
os.OpenFile = OpenFile
os.openFileNolog = OpenFile
os.ReadDir = List
os.Stat = Stat
os.Lstat = Stat
os.Mkdir = Mkdir
os.Remove = Remove
os.RemoveAll = RemoveAll
os.Rename = Rename
os.Chtimes = Chtimes
(*os.File).Read = Read
(*os.File).ReadAt = ReadAt
(*os.File).Write = Write
(*os.File).WriteAt = WriteAt
(*os.File).WriteString = WriteString
(*os.File).Seek = Seek
(*os.File).Stat = FileStat
(*os.File).Close = Close
(*os.File).Name = Name
(*os.File).Readdir = Readdir
(*os.File).ReadDir = ReadDir
(*os.File).Readdirnames = Readdirnames
(*os.File).ReadFrom = ReadFrom
(*os.File).WriteTo = WriteTo
(*os.File).Sync = Sync
(*os.File).Truncate = Truncate
(*os.File).Chmod = Chmod
`

type node struct {
	name   string
	dir    bool
	data   []byte
	kids   []*node
	parent *node
	mode   os.FileMode
	mtime  time.Time
}

type handle struct {
	n       *node
	name    string
	off     int
	append_ bool
	closed  bool
}

var (
	root    = mkroot()
	handles = map[*os.File]*handle{}
)

func mkroot() *node {
	r := &node{dir: true, mode: 0755 | os.ModeDir}
	r.parent = r
	for _, n := range []string{"scratch", "tmp"} {
		r.kids = append(r.kids, &node{name: n, dir: true, mode: 0755 | os.ModeDir, parent: r})
	}
	return r
}

// Dir is the scratch directory, the working directory.
func Dir() string {
	if sym.Symbolic() {
		return "/scratch"
	}
	d, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	return d
}

// File creates a file, and its directories, in the scratch directory.
func File(name, data string) {
	p := Dir() + "/" + name
	if i := strings.LastIndex(name, "/"); i >= 0 {
		if err := os.MkdirAll(Dir()+"/"+name[:i], 0755); err != nil {
			panic(err)
		}
	}
	if err := os.WriteFile(p, []byte(data), 0644); err != nil {
		panic(err)
	}
	when := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	os.Chtimes(p, when, when)
}

// Mkdirs creates a directory in the scratch directory.
func Mkdirs(name string) {
	if err := os.MkdirAll(Dir()+"/"+name, 0755); err != nil {
		panic(err)
	}
}

// Open is the number of files below the scratch or temporary directories that are open.
func Open() int {
	n := 0
	if sym.Symbolic() {
		for _, h := range handles {
			if !h.closed {
				n++
			}
		}
		return n
	}
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, fd := range fds {
		to, err := os.Readlink("/proc/self/fd/" + fd.Name())
		if err == nil && strings.HasPrefix(to, Dir()+"/") {
			n++
		}
	}
	return n
}

func perr(op, name string, e syscall.Errno) error { return &os.PathError{Op: op, Path: name, Err: e} }

// walk finds the node of a path; when only the last part is missing, its parent and name.
func walk(name string) (n, parent *node, last string, e syscall.Errno) {
	if name == "" {
		return nil, nil, "", syscall.ENOENT
	}
	if strings.IndexByte(name, 0) >= 0 {
		return nil, nil, "", syscall.EINVAL
	}
	n = root
	if name[0] != '/' {
		n, _, _, _ = walk("/scratch")
	}
	parts := strings.Split(name, "/")
	for i, p := range parts {
		if p == "" && i == 0 {
			continue
		}
		if !n.dir {
			return nil, nil, "", syscall.ENOTDIR
		}
		if p == "" || p == "." {
			continue
		}
		if p == ".." {
			n = n.parent
			continue
		}
		if len(p) > 255 {
			return nil, nil, "", syscall.ENAMETOOLONG
		}
		var next *node
		for _, k := range n.kids {
			if k.name == p {
				next = k
				break
			}
		}
		if next == nil {
			rest := i == len(parts)-1
			if rest {
				return nil, n, p, syscall.ENOENT
			}
			return nil, nil, "", syscall.ENOENT
		}
		n = next
	}
	return n, n.parent, n.name, 0
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	n, parent, last, e := walk(name)
	if e == syscall.ENOENT && parent != nil && flag&os.O_CREATE != 0 {
		n = &node{name: last, parent: parent, mode: perm, mtime: time.Now()}
		parent.kids = append(parent.kids, n)
	} else if e != 0 {
		return nil, perr("open", name, e)
	} else if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	f := new(os.File)
	handles[f] = &handle{n: n, name: name, append_: flag&os.O_APPEND != 0}
	return f, nil
}

func List(name string) ([]os.DirEntry, error) {
	f, err := OpenFile(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer Close(f)
	return ReadDir(f, -1)
}

type info struct{ n *node }

func (i info) Name() string               { return i.n.name }
func (i info) Size() int64                { return int64(len(i.n.data)) }
func (i info) Mode() os.FileMode          { return i.n.mode }
func (i info) ModTime() time.Time         { return i.n.mtime }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) Sys() interface{}           { return nil }
func (i info) Type() os.FileMode          { return i.n.mode & os.ModeType }
func (i info) Info() (os.FileInfo, error) { return i, nil }

func Stat(name string) (os.FileInfo, error) {
	n, _, _, e := walk(name)
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	return info{n}, nil
}

func Mkdir(name string, perm os.FileMode) error {
	_, parent, last, e := walk(name)
	if e == 0 {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if e != syscall.ENOENT || parent == nil {
		return perr("mkdir", name, e)
	}
	parent.kids = append(parent.kids, &node{name: last, dir: true, parent: parent, mode: perm | os.ModeDir, mtime: time.Now()})
	return nil
}

func unlink(n *node) {
	kids := []*node{}
	for _, k := range n.parent.kids {
		if k != n {
			kids = append(kids, k)
		}
	}
	n.parent.kids = kids
}

func Remove(name string) error {
	n, _, _, e := walk(name)
	if e == 0 && len(n.kids) > 0 {
		e = syscall.ENOTEMPTY
	}
	if e != 0 {
		return perr("remove", name, e)
	}
	unlink(n)
	return nil
}

func RemoveAll(name string) error {
	n, _, _, e := walk(name)
	if e == 0 {
		unlink(n)
	}
	return nil
}

func Rename(from, to string) error {
	n, _, _, e := walk(from)
	if e != 0 {
		return perr("rename", from, e)
	}
	t, parent, last, e := walk(to)
	if e != 0 && parent == nil {
		return perr("rename", to, e)
	}
	if t != nil {
		unlink(t)
	}
	unlink(n)
	n.name, n.parent = last, parent
	parent.kids = append(parent.kids, n)
	return nil
}

func Chtimes(name string, _, mtime time.Time) error {
	n, _, _, e := walk(name)
	if e != 0 {
		return perr("chtimes", name, e)
	}
	n.mtime = mtime
	return nil
}

func use(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		return nil, nil // one of the standard streams
	}
	if h.closed {
		return nil, &os.PathError{Op: op, Path: h.name, Err: os.ErrClosed}
	}
	return h, nil
}

func Read(f *os.File, b []byte) (int, error) {
	h, err := use(f, "read")
	if err != nil {
		return 0, err
	}
	if h == nil {
		return 0, io.EOF
	}
	if h.n.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= len(h.n.data) {
		return 0, io.EOF
	}
	k := copy(b, h.n.data[h.off:])
	h.off += k
	return k, nil
}

func ReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := use(f, "read")
	if err != nil {
		return 0, err
	}
	if h.n.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	k := 0
	if int(off) < len(h.n.data) {
		k = copy(b, h.n.data[off:])
	}
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}

func Write(f *os.File, b []byte) (int, error) {
	h, err := use(f, "write")
	if err != nil {
		return 0, err
	}
	if h == nil {
		return len(b), nil
	}
	if h.append_ {
		h.off = len(h.n.data)
	}
	h.n.data = append(h.n.data[:h.off:h.off], append(append([]byte{}, b...), after(h.n.data, h.off+len(b))...)...)
	h.off += len(b)
	return len(b), nil
}

func after(b []byte, i int) []byte {
	if i >= len(b) {
		return nil
	}
	return b[i:]
}

func WriteAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := use(f, "write")
	if err != nil {
		return 0, err
	}
	old := h.off
	h.off = int(off)
	k, err := Write(f, b)
	h.off = old
	return k, err
}

func WriteString(f *os.File, s string) (int, error) { return Write(f, []byte(s)) }

func Seek(f *os.File, off int64, whence int) (int64, error) {
	h, err := use(f, "seek")
	if err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(h.off)
	case io.SeekEnd:
		off += int64(len(h.n.data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = int(off)
	return off, nil
}

func FileStat(f *os.File) (os.FileInfo, error) {
	h, err := use(f, "stat")
	if err != nil {
		return nil, err
	}
	return info{h.n}, nil
}

func Close(f *os.File) error {
	h, err := use(f, "close")
	if err != nil || h == nil {
		return err
	}
	h.closed = true
	return nil
}

func Name(f *os.File) string {
	if h := handles[f]; h != nil {
		return h.name
	}
	return "/dev/stderr"
}

func list(f *os.File, n int) ([]*node, error) {
	h, err := use(f, "readdirent")
	if err != nil {
		return nil, err
	}
	if !h.n.dir {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	kids := append([]*node{}, h.n.kids...)
	sort.Slice(kids, func(i, j int) bool { return kids[i].name < kids[j].name })
	if h.off > len(kids) {
		h.off = len(kids)
	}
	kids = kids[h.off:]
	if n > 0 {
		if len(kids) == 0 {
			return nil, io.EOF
		}
		if len(kids) > n {
			kids = kids[:n]
		}
	}
	h.off += len(kids)
	return kids, nil
}

func Readdir(f *os.File, n int) ([]os.FileInfo, error) {
	kids, err := list(f, n)
	r := []os.FileInfo{}
	for _, k := range kids {
		r = append(r, info{k})
	}
	return r, err
}

func ReadDir(f *os.File, n int) ([]os.DirEntry, error) {
	kids, err := list(f, n)
	r := []os.DirEntry{}
	for _, k := range kids {
		r = append(r, info{k})
	}
	return r, err
}

func Readdirnames(f *os.File, n int) ([]string, error) {
	kids, err := list(f, n)
	r := []string{}
	for _, k := range kids {
		r = append(r, k.name)
	}
	return r, err
}

type plain struct{ f *os.File }

func (p plain) Read(b []byte) (int, error)  { return Read(p.f, b) }
func (p plain) Write(b []byte) (int, error) { return Write(p.f, b) }

func ReadFrom(f *os.File, r io.Reader) (int64, error) { return io.Copy(plain{f}, r) }
func WriteTo(f *os.File, w io.Writer) (int64, error)  { return io.Copy(w, plain{f}) }
func Sync(f *os.File) error                           { _, err := use(f, "sync"); return err }
func Chmod(f *os.File, _ os.FileMode) error           { _, err := use(f, "chmod"); return err }

func Truncate(f *os.File, n int64) error {
	h, err := use(f, "truncate")
	if err != nil {
		return err
	}
	d := make([]byte, n)
	copy(d, h.n.data)
	h.n.data = d
	return nil
}
