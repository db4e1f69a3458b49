//sym:into ripsrc/verifsym

package verifsym

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A file system in memory. It takes the place of package os under the checker,
// and natively too when a replay needs faults at chosen operations.

type fnode struct {
	dir  bool
	data []byte
	kids []*fnode
	name string
	mode os.FileMode
}

// VFile is an open file.
type VFile struct {
	node   *fnode
	name   string
	pos    int
	closed bool
	wr, rd bool
	app    bool
	std    int
	dirPos int
}

type fsState struct {
	mu      sync.Mutex
	root    *fnode
	temp    int
	ops     int
	fault   int // what may go wrong: 0 nothing, 1 one operation fails, 2 everything stops at one operation
	armed   bool
	hit     bool
	frozen  bool
	failing string
	log     []string // what was written to, renamed or removed while faults could happen
	out     []byte
	cwd     string // below /work where not set
}

var vfs fsState

func fsRoot() *fnode {
	if vfs.root == nil {
		vfs.root = &fnode{dir: true, mode: 0755 | os.ModeDir}
		mkdirAll("/tmp", 0777)
		mkdirAll("/work", 0777)
	}
	return vfs.root
}

// FSFault arms one fault at any single operation from now on.
func FSFault(kind int) {
	vfs.fault, vfs.armed, vfs.hit, vfs.frozen, vfs.log = kind, true, false, false, nil
}

// FSCalm ends fault injection; what was stopped works again.
func FSCalm() { vfs.armed, vfs.frozen = false, false }

// FSHit tells whether the fault happened, and at which kind of operation.
func FSHit() (bool, string) { return vfs.hit, vfs.failing }

// FSTouched tells whether something at or below a path was changed while
// faults could happen.
func FSTouched(p string) bool {
	p = absPath(p)
	for _, l := range vfs.log {
		if l == p || strings.HasPrefix(l, p+"/") {
			return true
		}
	}
	return false
}

// fsOp counts one operation and decides whether it goes wrong.
func fsOp(op, path string) (partial bool, err error) {
	vfs.ops++
	if vfs.frozen {
		return false, &os.PathError{Op: op, Path: path, Err: syscall.EIO}
	}
	if vfs.armed && !vfs.hit {
		n := 2
		if op == "write" {
			n = 3
		}
		k := Choose("fault", n)
		if k > 0 {
			vfs.hit = true
			vfs.failing = op + " " + filepath.Base(path)
			if vfs.fault == 2 {
				vfs.frozen = true
			}
			return k == 2, &os.PathError{Op: op, Path: path, Err: syscall.EIO}
		}
	}
	if vfs.armed && op != "read" && op != "stat" && op != "close" {
		vfs.log = append(vfs.log, absPath(path))
	}
	return false, nil
}

func workDir() string {
	if vfs.cwd != "" {
		return vfs.cwd
	}
	return "/work"
}

// Chdir makes a directory the current one.
func Chdir(p string) {
	if Symbolic() || vosOn {
		vfs.cwd = absPath(p)
		return
	}
	if err := os.Chdir(p); err != nil {
		panic(err)
	}
}

func absPath(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = workDir() + "/" + p
	}
	return filepath.Clean(p)
}

func splitPath(p string) []string {
	p = strings.Trim(absPath(p), "/")
	if p == "" {
		return nil
	}
	return strings.Split(p, "/")
}

func (n *fnode) kid(name string) *fnode {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

func (n *fnode) add(k *fnode) {
	i := sort.Search(len(n.kids), func(i int) bool { return n.kids[i].name >= k.name })
	n.kids = append(n.kids, nil)
	copy(n.kids[i+1:], n.kids[i:])
	n.kids[i] = k
}

func (n *fnode) del(name string) {
	for i, k := range n.kids {
		if k.name == name {
			n.kids = append(append([]*fnode{}, n.kids[:i]...), n.kids[i+1:]...)
			return
		}
	}
}

func lookup(p string) (*fnode, error) {
	n := fsRoot()
	for _, c := range splitPath(p) {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		n = n.kid(c)
		if n == nil {
			return nil, syscall.ENOENT
		}
	}
	return n, nil
}

func lookupParent(p string) (*fnode, string, error) {
	cs := splitPath(p)
	if len(cs) == 0 {
		return nil, "", syscall.EINVAL
	}
	n := fsRoot()
	for _, c := range cs[:len(cs)-1] {
		if !n.dir {
			return nil, "", syscall.ENOTDIR
		}
		n = n.kid(c)
		if n == nil {
			return nil, "", syscall.ENOENT
		}
	}
	if !n.dir {
		return nil, "", syscall.ENOTDIR
	}
	return n, cs[len(cs)-1], nil
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &os.PathError{Op: op, Path: p, Err: err}
}

func mkdirAll(p string, perm os.FileMode) error {
	n := fsRoot0()
	for _, c := range splitPath(p) {
		k := n.kid(c)
		if k == nil {
			k = &fnode{dir: true, name: c, mode: perm | os.ModeDir}
			n.add(k)
		}
		if !k.dir {
			return perr("mkdir", p, syscall.ENOTDIR)
		}
		n = k
	}
	return nil
}

func fsRoot0() *fnode {
	if vfs.root == nil {
		return fsRoot()
	}
	return vfs.root
}

func VMkdirAll(p string, perm os.FileMode) error {
	if _, err := fsOp("mkdir", p); err != nil {
		return err
	}
	return mkdirAll(p, perm)
}

func VMkdir(p string, perm os.FileMode) error {
	if _, err := fsOp("mkdir", p); err != nil {
		return err
	}
	d, name, err := lookupParent(p)
	if err != nil {
		return perr("mkdir", p, err)
	}
	if d.kid(name) != nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	d.add(&fnode{dir: true, name: name, mode: perm | os.ModeDir})
	return nil
}

func VOpenFile(p string, flag int, perm os.FileMode) (*VFile, error) {
	if _, err := fsOp("open", p); err != nil {
		return nil, err
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	f := &VFile{name: p, rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}
	n, err := lookup(p)
	if err == nil {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", p, syscall.EEXIST)
		}
		if n.dir && f.wr {
			return nil, perr("open", p, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && f.wr {
			n.data = nil
		}
		f.node = n
		return f, nil
	}
	if flag&os.O_CREATE == 0 || err != syscall.ENOENT {
		return nil, perr("open", p, err)
	}
	d, name, err := lookupParent(p)
	if err != nil {
		return nil, perr("open", p, err)
	}
	n = &fnode{name: name, mode: perm}
	d.add(n)
	f.node = n
	return f, nil
}

func (f *VFile) Name() string { return f.name }

func (f *VFile) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std > 0 {
		if f.std == 1 {
			vfs.out = append(vfs.out, b...)
		}
		return len(b), nil
	}
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	part, err := fsOp("write", f.name)
	if err != nil {
		if part && len(b) > 1 {
			f.put(b[:len(b)/2])
			return len(b) / 2, err
		}
		return 0, err
	}
	if !f.wr {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	f.put(b)
	return len(b), nil
}

func (f *VFile) put(b []byte) {
	n := f.node
	if f.app {
		f.pos = len(n.data)
	}
	if f.pos == len(n.data) {
		n.data = append(n.data, b...)
	} else {
		for len(n.data) < f.pos+len(b) {
			n.data = append(n.data, 0)
		}
		copy(n.data[f.pos:], b)
	}
	f.pos += len(b)
}

func (f *VFile) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std > 0 {
		return 0, io.EOF
	}
	if f.closed {
		return 0, perr("read", f.name, os.ErrClosed)
	}
	if _, err := fsOp("read", f.name); err != nil {
		return 0, err
	}
	if f.node.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.node.data) {
		return 0, io.EOF
	}
	n := copy(b, f.node.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *VFile) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std > 0 {
		return nil
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	if f.wr {
		if _, err := fsOp("close", f.name); err != nil {
			return err
		}
	}
	return nil
}

func (f *VFile) Sync() error {
	if f.closed {
		return perr("sync", f.name, os.ErrClosed)
	}
	_, err := fsOp("sync", f.name)
	return err
}

func (f *VFile) Truncate(n int64) error {
	if _, err := fsOp("truncate", f.name); err != nil {
		return err
	}
	for int64(len(f.node.data)) < n {
		f.node.data = append(f.node.data, 0)
	}
	f.node.data = f.node.data[:n]
	return nil
}

func (f *VFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		f.pos = int(off)
	case 1:
		f.pos += int(off)
	case 2:
		f.pos = len(f.node.data) + int(off)
	}
	f.dirPos = 0
	return int64(f.pos), nil
}

func (f *VFile) ReadAt(b []byte, off int64) (int, error) {
	pos := f.pos
	f.pos = int(off)
	n, err := f.Read(b)
	f.pos = pos
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

func (f *VFile) WriteAt(b []byte, off int64) (int, error) {
	if f.app {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	pos := f.pos
	f.pos = int(off)
	n, err := f.Write(b)
	f.pos = pos
	return n, err
}

// ReadFrom and WriteTo do what io.Copy does without them.
func (f *VFile) ReadFrom(r io.Reader) (int64, error) {
	return copyAll(f, r)
}

func (f *VFile) WriteTo(w io.Writer) (int64, error) {
	return copyAll(w, f)
}

func copyAll(w io.Writer, r io.Reader) (int64, error) {
	buf := make([]byte, 512)
	var t int64
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := w.Write(buf[:n])
			t += int64(m)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func (f *VFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *VFile) Chmod(m os.FileMode) error         { return nil }
func (f *VFile) Fd() uintptr {
	if f.std > 0 {
		return uintptr(f.std % 3)
	}
	return 9
}

type vinfo struct {
	name string
	size int64
	mode os.FileMode
	node *fnode
}

func (i vinfo) Name() string               { return i.name }
func (i vinfo) Size() int64                { return i.size }
func (i vinfo) Mode() os.FileMode          { return i.mode }
func (i vinfo) ModTime() (t time.Time)     { return }
func (i vinfo) IsDir() bool                { return i.mode&os.ModeDir != 0 }
func (i vinfo) Sys() interface{}           { return nil }
func (i vinfo) Type() fs.FileMode          { return i.mode & os.ModeType }
func (i vinfo) Info() (fs.FileInfo, error) { return i, nil }
func (i vinfo) String() string             { return i.name }

func (n *fnode) info(name string) vinfo {
	return vinfo{name, int64(len(n.data)), n.mode, n}
}

func VStat(p string) (os.FileInfo, error) {
	if _, err := fsOp("stat", p); err != nil {
		return nil, err
	}
	n, err := lookup(p)
	if err != nil {
		return nil, perr("stat", p, err)
	}
	return n.info(filepath.Base(p)), nil
}

func (f *VFile) Stat() (os.FileInfo, error) {
	if f.std > 0 {
		return vinfo{f.name, 0, os.ModeDevice | os.ModeCharDevice, nil}, nil
	}
	return f.node.info(filepath.Base(f.name)), nil
}

func VRename(a, b string) error {
	if _, err := fsOp("rename", a); err != nil {
		return err
	}
	lerr := func(err error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: err} }
	n, err := lookup(a)
	if err != nil {
		return lerr(err)
	}
	sd, sname, err := lookupParent(a)
	if err != nil {
		return lerr(err)
	}
	dd, dname, err := lookupParent(b)
	if err != nil {
		return lerr(err)
	}
	if old := dd.kid(dname); old != nil {
		if old == n {
			return nil
		}
		switch {
		case old.dir && (!n.dir || len(old.kids) > 0):
			return lerr(syscall.EEXIST)
		case !old.dir && n.dir:
			return lerr(syscall.ENOTDIR)
		}
		dd.del(dname)
	}
	if vfs.armed {
		vfs.log = append(vfs.log, absPath(b))
	}
	sd.del(sname)
	// open files keep pointing at the node
	n.name = dname
	dd.add(n)
	return nil
}

func VRemove(p string) error {
	if _, err := fsOp("remove", p); err != nil {
		return err
	}
	d, name, err := lookupParent(p)
	if err != nil {
		return perr("remove", p, err)
	}
	n := d.kid(name)
	if n == nil {
		return perr("remove", p, syscall.ENOENT)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", p, syscall.ENOTEMPTY)
	}
	d.del(name)
	return nil
}

func VRemoveAll(p string) error {
	n, err := lookup(p)
	if err != nil {
		if err == syscall.ENOENT {
			return nil
		}
		return perr("unlinkat", p, err)
	}
	if n.dir {
		// what cannot be removed does not keep the rest
		var first error
		for _, k := range append([]*fnode{}, n.kids...) {
			if err := VRemoveAll(filepath.Join(p, k.name)); err != nil && first == nil {
				first = err
			}
		}
		if first != nil {
			return first
		}
	}
	return VRemove(p)
}

func dirInfos(p string) ([]vinfo, error) {
	if _, err := fsOp("open", p); err != nil {
		return nil, err
	}
	n, err := lookup(p)
	if err != nil {
		return nil, perr("open", p, err)
	}
	if !n.dir {
		return nil, perr("readdirent", p, syscall.ENOTDIR)
	}
	if n.mode&0400 == 0 {
		return nil, perr("open", p, syscall.EACCES)
	}
	var r []vinfo
	for _, k := range n.kids {
		r = append(r, k.info(k.name))
	}
	return r, nil
}

func VReadDirInfo(p string) ([]os.FileInfo, error) {
	is, err := dirInfos(p)
	var r []os.FileInfo
	for _, i := range is {
		r = append(r, i)
	}
	return r, err
}

func VReadDir(p string) ([]os.DirEntry, error) {
	is, err := dirInfos(p)
	var r []os.DirEntry
	for _, i := range is {
		r = append(r, i)
	}
	return r, err
}

func (f *VFile) Readdir(n int) ([]os.FileInfo, error) {
	is, err := VReadDirInfo(f.name)
	if err != nil {
		return nil, err
	}
	is = is[f.dirPos:]
	if n > 0 {
		if len(is) == 0 {
			return nil, io.EOF
		}
		if len(is) > n {
			is = is[:n]
		}
	}
	f.dirPos += len(is)
	return is, nil
}

func (f *VFile) Readdirnames(n int) ([]string, error) {
	is, err := f.Readdir(n)
	var r []string
	for _, i := range is {
		r = append(r, i.Name())
	}
	return r, err
}

func (f *VFile) ReadDir(n int) ([]os.DirEntry, error) {
	is, err := f.Readdir(n)
	var r []os.DirEntry
	for _, i := range is {
		r = append(r, i.(vinfo))
	}
	return r, err
}

func VReadFile(p string) ([]byte, error) {
	f, err := VOpenFile(p, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b := []byte{}
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		b = append(b, buf[:n]...)
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return b, err
		}
	}
}

func VWriteFile(p string, data []byte, perm os.FileMode) error {
	f, err := VOpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	vfs.temp++
	n := strconv.Itoa(vfs.temp)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return filepath.Join(dir, pattern[:i]+n+pattern[i+1:])
	}
	return filepath.Join(dir, pattern+n)
}

func VCreateTemp(dir, pattern string) (*VFile, error) {
	return VOpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func VMkdirTemp(dir, pattern string) (string, error) {
	p := tempName(dir, pattern)
	return p, VMkdir(p, 0700)
}

// --- for harnesses

// VTempDir is where temporary files go.
func VTempDir() string { return "/tmp" }

// VCreate opens a new file.
func VCreate(p string) (*VFile, error) {
	return VOpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// VOpen opens a file for reading.
func VOpen(p string) (*VFile, error) { return VOpenFile(p, os.O_RDONLY, 0) }

// VStd is one of the standard streams.
func VStd(n int) *VFile {
	return &VFile{name: []string{"", "/dev/stdout", "/dev/stderr", "/dev/stdin"}[n], std: n}
}

// TempDir is a fresh directory: a real one natively.
func TempDir() string {
	if Symbolic() || vosOn {
		fsRoot()
		p := tempName("", "sym")
		mkdirAll(p, 0777)
		return p
	}
	if gitMode {
		return "/nonexistent"
	}
	p, err := ioutil.TempDir("", "sym")
	if err != nil {
		panic(err)
	}
	return p
}

// vosOn tells that natively the code under test uses this file system.
var vosOn = os.Getenv("SYM_VOS") != ""

// MakeFile puts a file in place without counting as an operation.
func MakeFile(p string, data []byte) {
	if Symbolic() || vosOn {
		mkdirAll(filepath.Dir(p), 0777)
		d, name, _ := lookupParent(p)
		d.del(name)
		d.add(&fnode{name: name, data: data, mode: 0644})
		return
	}
	if gitMode {
		return
	}
	os.MkdirAll(filepath.Dir(p), 0777)
	if err := ioutil.WriteFile(p, data, 0644); err != nil {
		panic(err)
	}
}

// MakeDir makes a directory.
func MakeDir(p string) {
	if Symbolic() || vosOn {
		mkdirAll(p, 0777)
		return
	}
	if gitMode {
		return
	}
	if err := os.MkdirAll(p, 0777); err != nil {
		panic(err)
	}
}

// Exists tells whether a path exists.
func Exists(p string) bool {
	if Symbolic() || vosOn {
		_, err := lookup(p)
		return err == nil
	}
	_, err := os.Lstat(p)
	return err == nil
}

// MoveDir puts a directory (of the model) in the place of another one.
func MoveDir(a, b string) {
	vfs.armed, vfs.frozen = false, false
	VRemoveAll(b)
	VRename(a, b)
}

// ListDir names what is in a directory (of the model).
func ListDir(p string) []string {
	var r []string
	if n, err := lookup(p); err == nil {
		for _, k := range n.kids {
			r = append(r, k.name)
		}
	}
	return r
}

// CaptureStdout makes what is written to standard output from now on available.
func CaptureStdout() {
	if Symbolic() || gitMode {
		return
	}
	f, err := ioutil.TempFile("", "symout")
	if err != nil {
		panic(err)
	}
	captured = f.Name()
	os.Stdout = f
}

var captured string

// Stdout is what was written to standard output so far.
func Stdout() string {
	if captured != "" {
		b, _ := ioutil.ReadFile(captured)
		return string(b)
	}
	return string(vfs.out)
}

//sym:subst fmt.Print
func fmtPrint(a ...interface{}) (int, error) { return os.Stdout.Write([]byte(fmt.Sprint(a...))) }

//sym:subst fmt.Println
func fmtPrintln(a ...interface{}) (int, error) { return os.Stdout.Write([]byte(fmt.Sprintln(a...))) }

//sym:subst fmt.Printf
func fmtPrintf(f string, a ...interface{}) (int, error) {
	return os.Stdout.Write([]byte(fmt.Sprintf(f, a...)))
}

// --- the same in place of package os under the checker

type openEnt struct {
	f *os.File
	v *VFile
}

var openFiles []openEnt

func asOS(v *VFile, err error) (*os.File, error) {
	if err != nil {
		return nil, err
	}
	f := new(os.File)
	openFiles = append(openFiles, openEnt{f, v})
	return f, nil
}

func ofOS(f *os.File) *VFile {
	if f == nil {
		return nil
	}
	for _, e := range openFiles {
		if e.f == f {
			return e.v
		}
	}
	switch f {
	case os.Stdin:
		return &VFile{name: "/dev/stdin", std: 3}
	case os.Stdout:
		return &VFile{name: "/dev/stdout", std: 1}
	case os.Stderr:
		return &VFile{name: "/dev/stderr", std: 2}
	}
	return nil
}

//sym:subst os.NewFile
func osNewFile(fd uintptr, name string) *os.File { return new(os.File) }

//sym:subst os.Open
func osOpen(p string) (*os.File, error) { return asOS(VOpenFile(p, os.O_RDONLY, 0)) }

//sym:subst os.Create
func osCreate(p string) (*os.File, error) {
	return asOS(VOpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666))
}

//sym:subst os.OpenFile
func osOpenFile(p string, flag int, perm os.FileMode) (*os.File, error) {
	return asOS(VOpenFile(p, flag, perm))
}

//sym:subst io/ioutil.TempFile os.CreateTemp
func osTempFile(dir, pattern string) (*os.File, error) { return asOS(VCreateTemp(dir, pattern)) }

//sym:subst io/ioutil.TempDir os.MkdirTemp
func osTempDir(dir, pattern string) (string, error) { return VMkdirTemp(dir, pattern) }

//sym:subst os.TempDir
func osTmp() string { return "/tmp" }

//sym:subst os.Getwd
func osGetwd() (string, error) { return workDir(), nil }

//sym:subst io/ioutil.ReadFile os.ReadFile
func osReadFile(p string) ([]byte, error) { return VReadFile(p) }

//sym:subst io/ioutil.WriteFile os.WriteFile
func osWriteFile(p string, d []byte, perm os.FileMode) error { return VWriteFile(p, d, perm) }

//sym:subst io/ioutil.ReadDir
func ioReadDir(p string) ([]os.FileInfo, error) { return VReadDirInfo(p) }

//sym:subst os.ReadDir
func osReadDir(p string) ([]os.DirEntry, error) { return VReadDir(p) }

//sym:subst os.Mkdir
func osMkdir(p string, perm os.FileMode) error { return VMkdir(p, perm) }

//sym:subst os.MkdirAll
func osMkdirAll(p string, perm os.FileMode) error { return VMkdirAll(p, perm) }

//sym:subst os.Remove
func osRemove(p string) error { return VRemove(p) }

//sym:subst os.RemoveAll
func osRemoveAll(p string) error { return VRemoveAll(p) }

//sym:subst os.Rename
func osRename(a, b string) error { return VRename(a, b) }

//sym:subst os.Stat os.Lstat
func osStat(p string) (os.FileInfo, error) { return VStat(p) }

//sym:subst (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) { return ofOS(f).Write(b) }

//sym:subst (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return ofOS(f).Write([]byte(s)) }

//sym:subst (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) { return ofOS(f).Read(b) }

//sym:subst (*os.File).Close
func fileClose(f *os.File) error { return ofOS(f).Close() }

//sym:subst (*os.File).Name
func fileName(f *os.File) string { return ofOS(f).Name() }

//sym:subst (*os.File).Sync
func fileSync(f *os.File) error { return ofOS(f).Sync() }

//sym:subst (*os.File).Stat
func fileStat(f *os.File) (os.FileInfo, error) { return ofOS(f).Stat() }

//sym:subst (*os.File).Truncate
func fileTruncate(f *os.File, n int64) error { return ofOS(f).Truncate(n) }

//sym:subst (*os.File).Seek
func fileSeek(f *os.File, off int64, wh int) (int64, error) { return ofOS(f).Seek(off, wh) }

//sym:subst (*os.File).ReadAt
func fileReadAt(f *os.File, b []byte, off int64) (int, error) { return ofOS(f).ReadAt(b, off) }

//sym:subst (*os.File).WriteAt
func fileWriteAt(f *os.File, b []byte, off int64) (int, error) { return ofOS(f).WriteAt(b, off) }

//sym:subst (*os.File).ReadFrom
func fileReadFrom(f *os.File, r io.Reader) (int64, error) { return ofOS(f).ReadFrom(r) }

//sym:subst (*os.File).WriteTo
func fileWriteTo(f *os.File, w io.Writer) (int64, error) { return ofOS(f).WriteTo(w) }

//sym:subst (*os.File).Chmod
func fileChmod(f *os.File, m os.FileMode) error { return nil }

//sym:subst os.Chmod
func osChmod(p string, m os.FileMode) error { return VChmod(p, m) }

//sym:subst os.Truncate
func osTruncate(p string, n int64) error { return VTruncate(p, n) }

//sym:subst os.Chdir
func osChdir(p string) error { return VChdir(p) }

//sym:subst os.SameFile
func osSameFile(a, b os.FileInfo) bool { return VSameFile(a, b) }

//sym:subst path/filepath.EvalSymlinks
func evalLinks(p string) (string, error) { return VEvalSymlinks(p) }

//sym:subst (*os.File).Fd
func fileFd(f *os.File) uintptr {
	if v := ofOS(f); v != nil && v.std > 0 {
		return uintptr(v.std % 3)
	}
	return 9
}

//sym:subst (*os.File).Readdir
func fileReaddir(f *os.File, n int) ([]os.FileInfo, error) { return ofOS(f).Readdir(n) }

//sym:subst (*os.File).Readdirnames
func fileReaddirnames(f *os.File, n int) ([]string, error) { return ofOS(f).Readdirnames(n) }

//sym:subst (*os.File).ReadDir
func fileReadDir(f *os.File, n int) ([]os.DirEntry, error) { return ofOS(f).ReadDir(n) }

// What the stand-ins for os and path/filepath offer besides files: the model
// has no symbolic links and no permissions.

func VGetwd() (string, error) { return workDir(), nil }

func VChdir(p string) error {
	n, err := lookup(p)
	if err != nil {
		return perr("chdir", p, err)
	}
	if !n.dir {
		return perr("chdir", p, syscall.ENOTDIR)
	}
	Chdir(p)
	return nil
}

func VChmod(p string, m os.FileMode) error {
	if _, err := lookup(p); err != nil {
		return perr("chmod", p, err)
	}
	return nil
}

func VTruncate(p string, n int64) error {
	f, err := VOpenFile(p, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	if err := f.Truncate(n); err != nil {
		return err
	}
	return f.Close()
}

func VSameFile(a, b os.FileInfo) bool {
	x, ok := a.(vinfo)
	y, ok2 := b.(vinfo)
	return ok && ok2 && x.node == y.node
}

func VAbs(p string) (string, error) { return absPath(p), nil }

func VEvalSymlinks(p string) (string, error) {
	if _, err := lookup(p); err != nil {
		return "", perr("lstat", p, err)
	}
	return filepath.Clean(p), nil
}

func VWalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := VStat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, i.(vinfo), fn)
	}
	if err == filepath.SkipDir || err == errSkipAll {
		return nil
	}
	return err
}

var errSkipAll = filepath.SkipAll

func walkDir(p string, d vinfo, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := VReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(filepath.Join(p, e.Name()), e.(vinfo), fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func VWalk(root string, fn filepath.WalkFunc) error {
	i, err := VStat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, i, fn)
	}
	if err == filepath.SkipDir || err == errSkipAll {
		return nil
	}
	return err
}

func walk(p string, i os.FileInfo, fn filepath.WalkFunc) error {
	if !i.IsDir() {
		return fn(p, i, nil)
	}
	es, err := VReadDir(p)
	err1 := fn(p, i, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range es {
		n := filepath.Join(p, e.Name())
		k, err := VStat(n)
		if err != nil {
			if err := fn(n, k, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		err = walk(n, k, fn)
		if err != nil {
			if !k.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

func VGlob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := filepath.Split(pattern)
	dirs := []string{dir}
	if strings.ContainsAny(dir, "*?[\\") {
		ds, err := VGlob(strings.TrimSuffix(dir, "/"))
		if err != nil {
			return nil, err
		}
		dirs = ds
	}
	var res []string
	for _, d := range dirs {
		at := d
		if at == "" {
			at = "."
		}
		if !strings.ContainsAny(file, "*?[\\") {
			if _, err := lookup(filepath.Join(at, file)); err == nil {
				res = append(res, filepath.Join(d, file))
			}
			continue
		}
		es, err := VReadDir(at)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := filepath.Match(file, e.Name()); ok {
				res = append(res, filepath.Join(d, e.Name()))
			}
		}
	}
	return res, nil
}
