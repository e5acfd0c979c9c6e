package zzverif

// An in-memory file system that behaves like the operating system one of
// github.com/je4/filesystem (osfsrw): paths are joined lexically, Create makes
// parents, MkDir does not, and so on.  It logs every mutation (for crash
// prefixes), can inject faults at any operation and records every path outside
// of the mount it was opened on.

import (
	"fmt"
	"io"
	"io/fs"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"emperror.dev/errors"
	"github.com/je4/filesystem/v3/pkg/writefs"
)

type node struct {
	dir      bool
	data     []byte
	children map[string]*node
	mtime    time.Time
}

func newDir() *node { return &node{dir: true, children: map[string]*node{}, mtime: fixedTime} }

var fixedTime = time.Date(2024, 2, 29, 12, 13, 14, 123456789, time.UTC)

type wop struct {
	kind string // create write close mkdir rename remove
	path string
	to   string
	data []byte
}

type world struct {
	mu      sync.Mutex
	root    *node
	log     []wop
	logging bool
	escapes []string
	// hook is called before each operation; returning an error makes it fail.
	// For "write" n is the number of bytes that still reach the file.
	hook func(kind, p string, size int) (n int, err error)
	// writes are forbidden below these prefixes
	ops int
}

func newWorld() *world { return &world{root: newDir()} }

func (w *world) mount(p string) *memFS {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.mkdirAll(p)
	return &memFS{w: w, base: p, mount: p}
}

func split(p string) []string {
	p = strings.Trim(path.Clean("/"+p), "/")
	if p == "" {
		return nil
	}
	return strings.Split(p, "/")
}

func (w *world) lookup(p string) (*node, error) {
	n := w.root
	for _, c := range split(p) {
		if strings.ContainsRune(c, 0) {
			return nil, syscall.EINVAL
		}
		if len(c) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		m, ok := n.children[c]
		if !ok {
			return nil, syscall.ENOENT
		}
		n = m
	}
	if len(p) > 4095 {
		return nil, syscall.ENAMETOOLONG
	}
	return n, nil
}

func (w *world) mkdirAll(p string) error {
	n := w.root
	cur := ""
	for _, c := range split(p) {
		cur += "/" + c
		if strings.ContainsRune(c, 0) {
			return syscall.EINVAL
		}
		if len(c) > 255 {
			return syscall.ENAMETOOLONG
		}
		m, ok := n.children[c]
		if !ok {
			m = newDir()
			n.children[c] = m
			if w.logging {
				w.log = append(w.log, wop{kind: "mkdir", path: cur})
			}
		}
		if !m.dir {
			return syscall.ENOTDIR
		}
		n = m
	}
	if len(p) > 4095 {
		return syscall.ENAMETOOLONG
	}
	return nil
}

func (w *world) callHook(kind, p string, size int) (int, error) {
	w.ops++
	if w.hook == nil {
		return size, nil
	}
	return w.hook(kind, p, size)
}

// snapshot lists all files (path -> content) and folders (path + "/" -> "")
// below p, relative to p.
func (w *world) snapshot(p string) map[string]string {
	w.mu.Lock()
	defer w.mu.Unlock()
	res := map[string]string{}
	n, err := w.lookup(p)
	if err != nil {
		return res
	}
	var rec func(n *node, pre string)
	rec = func(n *node, pre string) {
		for name, c := range n.children {
			if c.dir {
				res[pre+name+"/"] = ""
				rec(c, pre+name+"/")
			} else {
				res[pre+name] = string(c.data)
			}
		}
	}
	if n.dir {
		rec(n, "")
	}
	return res
}

// files is snapshot without folders.
func (w *world) files(p string) map[string]string {
	s := w.snapshot(p)
	for k := range s {
		if strings.HasSuffix(k, "/") {
			delete(s, k)
		}
	}
	return s
}

func (w *world) clone() *world {
	w.mu.Lock()
	defer w.mu.Unlock()
	var rec func(n *node) *node
	rec = func(n *node) *node {
		c := &node{dir: n.dir, data: n.data[:len(n.data):len(n.data)], mtime: n.mtime}
		if n.dir {
			c.children = make(map[string]*node, len(n.children))
			for k, v := range n.children {
				c.children[k] = rec(v)
			}
		}
		return c
	}
	return &world{root: rec(w.root)}
}

// put writes a file directly (not logged, no faults).
func (w *world) put(p string, data []byte) {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.logging
	w.logging = false
	defer func() { w.logging = l }()
	if err := w.mkdirAll(path.Dir(p)); err != nil {
		panic(fmt.Sprintf("put %s: %v", p, err))
	}
	n, err := w.lookup(path.Dir(p))
	if err != nil {
		panic(err)
	}
	n.children[path.Base(p)] = &node{data: data, mtime: fixedTime}
}

func (w *world) get(p string) ([]byte, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	n, err := w.lookup(p)
	if err != nil || n.dir {
		return nil, false
	}
	return n.data, true
}

func (w *world) mkdir(p string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.logging
	w.logging = false
	_ = w.mkdirAll(p)
	w.logging = l
}

func (w *world) del(p string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	n, err := w.lookup(path.Dir(p))
	if err == nil && n.dir {
		delete(n.children, path.Base(p))
	}
}

// apply replays one logged mutation; limit >= 0 cuts a write.
func (w *world) apply(o wop, limit int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	switch o.kind {
	case "mkdir":
		_ = w.mkdirAll(o.path)
	case "create":
		_ = w.mkdirAll(path.Dir(o.path))
		if d, err := w.lookup(path.Dir(o.path)); err == nil && d.dir {
			d.children[path.Base(o.path)] = &node{mtime: fixedTime}
		}
	case "write":
		if n, err := w.lookup(o.path); err == nil && !n.dir {
			d := o.data
			if limit >= 0 && limit < len(d) {
				d = d[:limit]
			}
			n.data = append(n.data, d...) // clones have no spare capacity
		}
	case "remove":
		if d, err := w.lookup(path.Dir(o.path)); err == nil && d.dir {
			delete(d.children, path.Base(o.path))
		}
	case "rename":
		if d, err := w.lookup(path.Dir(o.path)); err == nil && d.dir {
			if n, ok := d.children[path.Base(o.path)]; ok {
				if e, err := w.lookup(path.Dir(o.to)); err == nil && e.dir {
					delete(d.children, path.Base(o.path))
					e.children[path.Base(o.to)] = n
				}
			}
		}
	}
}

// ---------------------------------------------------------------- memFS

type memFS struct {
	w        *world
	base     string
	mount    string
	noSeek   bool
	chunk    int // >0: reads return at most this many bytes
	readonly bool
}

func (m *memFS) full(op, name string) string {
	p := filepath.ToSlash(filepath.Join(m.base, name))
	if p != m.mount && !strings.HasPrefix(p, m.mount+"/") {
		m.w.escapes = append(m.w.escapes, op+" "+p)
	}
	return p
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func (m *memFS) String() string                       { return "memFS(" + m.base + ")" }
func (m *memFS) Fullpath(name string) (string, error) { return path.Join(m.base, name), nil }

func (m *memFS) Sub(dir string) (fs.FS, error) {
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	p := m.full("sub", dir)
	n, err := m.w.lookup(p)
	if err != nil {
		return nil, errors.Wrapf(perr("stat", p, err), "cannot stat directory '%s'", p)
	}
	if !n.dir {
		return nil, errors.Errorf("not a directory: %s", p)
	}
	c := *m
	c.base = p
	return &c, nil
}

type memInfo struct {
	name string
	n    *node
	size int64
}

func (i memInfo) Name() string { return i.name }
func (i memInfo) Size() int64  { return i.size }
func (i memInfo) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i memInfo) ModTime() time.Time         { return i.n.mtime }
func (i memInfo) IsDir() bool                { return i.n.dir }
func (i memInfo) Sys() any                   { return nil }
func (i memInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i memInfo) Info() (fs.FileInfo, error) { return i, nil }

type memFile struct {
	m    *memFS
	p    string
	n    *node
	data []byte
	off  int
}

func (f *memFile) Stat() (fs.FileInfo, error) {
	return memInfo{path.Base(f.p), f.n, int64(len(f.data))}, nil
}
func (f *memFile) Read(b []byte) (int, error) {
	f.m.w.mu.Lock()
	defer f.m.w.mu.Unlock()
	if f.n.dir {
		return 0, perr("read", f.p, syscall.EISDIR)
	}
	if n, err := f.m.w.callHook("read", f.p, len(b)); err != nil {
		_ = n
		return 0, perr("read", f.p, err)
	}
	if f.off >= len(f.data) {
		return 0, io.EOF
	}
	if f.m.chunk > 0 && len(b) > f.m.chunk {
		b = b[:f.m.chunk]
	}
	n := copy(b, f.data[f.off:])
	f.off += n
	return n, nil
}
func (f *memFile) Close() error { return nil }

type memSeekFile struct{ *memFile }

func (f memSeekFile) Seek(off int64, whence int) (int64, error) {
	f.m.w.mu.Lock()
	defer f.m.w.mu.Unlock()
	if _, err := f.m.w.callHook("seek", f.p, 0); err != nil {
		return 0, perr("seek", f.p, err)
	}
	switch whence {
	case 0:
		f.off = int(off)
	case 1:
		f.off += int(off)
	case 2:
		f.off = len(f.data) + int(off)
	}
	return int64(f.off), nil
}

type memDirFile struct {
	*memFile
}

func (f memDirFile) ReadDir(n int) ([]fs.DirEntry, error) {
	f.m.w.mu.Lock()
	defer f.m.w.mu.Unlock()
	if _, err := f.m.w.callHook("readdir", f.p, 0); err != nil {
		return nil, perr("readdirent", f.p, err)
	}
	return entries(f.n), nil
}

func entries(n *node) []fs.DirEntry {
	names := make([]string, 0, len(n.children))
	for k := range n.children {
		names = append(names, k)
	}
	sort.Strings(names)
	res := make([]fs.DirEntry, 0, len(names))
	for _, k := range names {
		c := n.children[k]
		res = append(res, memInfo{k, c, int64(len(c.data))})
	}
	return res
}

func (m *memFS) Open(name string) (fs.File, error) {
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	p := m.full("open", name)
	if _, err := m.w.callHook("open", p, 0); err != nil {
		return nil, errors.WithStack(perr("open", p, err))
	}
	n, err := m.w.lookup(p)
	if err != nil {
		return nil, errors.WithStack(perr("open", p, err))
	}
	f := &memFile{m: m, p: p, n: n, data: n.data}
	if n.dir {
		return memDirFile{f}, nil
	}
	if m.noSeek {
		return f, nil
	}
	return memSeekFile{f}, nil
}

func (m *memFS) Stat(name string) (fs.FileInfo, error) {
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	p := m.full("stat", name)
	if _, err := m.w.callHook("stat", p, 0); err != nil {
		return nil, errors.WithStack(perr("stat", p, err))
	}
	n, err := m.w.lookup(p)
	if err != nil {
		if err == syscall.ENOENT {
			return nil, errors.WithStack(fs.ErrNotExist)
		}
		return nil, errors.WithStack(perr("stat", p, err))
	}
	return memInfo{path.Base(p), n, int64(len(n.data))}, nil
}

func (m *memFS) ReadDir(name string) ([]fs.DirEntry, error) {
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	p := m.full("readdir", name)
	if _, err := m.w.callHook("readdir", p, 0); err != nil {
		return nil, errors.WithStack(perr("open", p, err))
	}
	n, err := m.w.lookup(p)
	if err != nil {
		if err == syscall.ENOENT {
			return nil, fs.ErrNotExist
		}
		return nil, errors.WithStack(perr("open", p, err))
	}
	if !n.dir {
		return nil, errors.WithStack(perr("readdirent", p, syscall.ENOTDIR))
	}
	return entries(n), nil
}

func (m *memFS) ReadFile(name string) ([]byte, error) {
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	p := m.full("readfile", name)
	if _, err := m.w.callHook("open", p, 0); err != nil {
		return nil, errors.WithStack(perr("open", p, err))
	}
	n, err := m.w.lookup(p)
	if err != nil {
		return nil, errors.WithStack(perr("open", p, err))
	}
	if n.dir {
		return nil, errors.WithStack(perr("read", p, syscall.EISDIR))
	}
	return append([]byte(nil), n.data...), nil
}

type memWriter struct {
	m      *memFS
	p      string
	n      *node
	closed bool
}

func (f *memWriter) Write(b []byte) (int, error) {
	f.m.w.mu.Lock()
	defer f.m.w.mu.Unlock()
	if f.closed {
		return 0, perr("write", f.p, fs.ErrClosed)
	}
	n, err := f.m.w.callHook("write", f.p, len(b))
	if n > len(b) {
		n = len(b)
	}
	if n > 0 {
		f.n.data = append(f.n.data, b[:n]...)
		if f.m.w.logging {
			f.m.w.log = append(f.m.w.log, wop{kind: "write", path: f.p, data: append([]byte(nil), b[:n]...)})
		}
	}
	if err != nil {
		return n, perr("write", f.p, err)
	}
	return n, nil
}

func (f *memWriter) Close() error {
	f.m.w.mu.Lock()
	defer f.m.w.mu.Unlock()
	if f.closed {
		return perr("close", f.p, fs.ErrClosed)
	}
	f.closed = true
	if _, err := f.m.w.callHook("close", f.p, 0); err != nil {
		return perr("close", f.p, err)
	}
	return nil
}

func (m *memFS) Create(name string) (writefs.FileWrite, error) {
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	p := m.full("create", name)
	if m.readonly {
		m.w.escapes = append(m.w.escapes, "create on read-only "+p)
		return nil, errors.Wrapf(perr("open", p, syscall.EROFS), "cannot create file '%s'", p)
	}
	if _, err := m.w.callHook("create", p, 0); err != nil {
		return nil, errors.Wrapf(perr("open", p, err), "cannot create file '%s'", p)
	}
	if err := m.w.mkdirAll(path.Dir(p)); err != nil {
		return nil, errors.Wrapf(perr("mkdir", p, err), "cannot create directory '%s'", path.Dir(p))
	}
	base := path.Base(p)
	if strings.ContainsRune(base, 0) {
		return nil, errors.Wrapf(perr("open", p, syscall.EINVAL), "cannot create file '%s'", p)
	}
	if len(base) > 255 || len(p) > 4095 {
		return nil, errors.Wrapf(perr("open", p, syscall.ENAMETOOLONG), "cannot create file '%s'", p)
	}
	d, err := m.w.lookup(path.Dir(p))
	if err != nil {
		return nil, errors.Wrapf(perr("open", p, err), "cannot create file '%s'", p)
	}
	if old, ok := d.children[base]; (ok && old.dir) || p == "/" {
		return nil, errors.Wrapf(perr("open", p, syscall.EISDIR), "cannot create file '%s'", p)
	}
	n := &node{mtime: fixedTime}
	d.children[base] = n
	if m.w.logging {
		m.w.log = append(m.w.log, wop{kind: "create", path: p})
	}
	return &memWriter{m: m, p: p, n: n}, nil
}

func (m *memFS) MkDir(name string) error {
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	p := m.full("mkdir", name)
	if m.readonly {
		if n, err := m.w.lookup(p); err == nil && n != nil {
			return errors.WithStack(perr("mkdir", p, syscall.EEXIST))
		}
		m.w.escapes = append(m.w.escapes, "mkdir on read-only "+p)
		return errors.WithStack(perr("mkdir", p, syscall.EROFS))
	}
	if _, err := m.w.callHook("mkdir", p, 0); err != nil {
		return errors.WithStack(perr("mkdir", p, err))
	}
	d, err := m.w.lookup(path.Dir(p))
	if err != nil {
		return errors.WithStack(perr("mkdir", p, err))
	}
	if !d.dir {
		return errors.WithStack(perr("mkdir", p, syscall.ENOTDIR))
	}
	base := path.Base(p)
	if strings.ContainsRune(base, 0) {
		return errors.WithStack(perr("mkdir", p, syscall.EINVAL))
	}
	if len(base) > 255 || len(p) > 4095 {
		return errors.WithStack(perr("mkdir", p, syscall.ENAMETOOLONG))
	}
	if _, ok := d.children[base]; ok || p == "/" {
		return errors.WithStack(perr("mkdir", p, syscall.EEXIST))
	}
	d.children[base] = newDir()
	if m.w.logging {
		m.w.log = append(m.w.log, wop{kind: "mkdir", path: p})
	}
	return nil
}

func (m *memFS) Rename(o, n string) error {
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	p, q := m.full("rename", o), m.full("rename", n)
	if m.readonly {
		m.w.escapes = append(m.w.escapes, "rename on read-only "+p)
		return errors.WithStack(perr("rename", p, syscall.EROFS))
	}
	if _, err := m.w.callHook("rename", p, 0); err != nil {
		return errors.WithStack(perr("rename", p, err))
	}
	d, err := m.w.lookup(path.Dir(p))
	if err != nil {
		return errors.WithStack(perr("rename", p, err))
	}
	e, err := m.w.lookup(path.Dir(q))
	if err != nil {
		return errors.WithStack(perr("rename", q, err))
	}
	x, ok := d.children[path.Base(p)]
	if !ok {
		return errors.WithStack(perr("rename", p, syscall.ENOENT))
	}
	delete(d.children, path.Base(p))
	e.children[path.Base(q)] = x
	if m.w.logging {
		m.w.log = append(m.w.log, wop{kind: "rename", path: p, to: q})
	}
	return nil
}

func (m *memFS) Remove(name string) error {
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	p := m.full("remove", name)
	if m.readonly {
		m.w.escapes = append(m.w.escapes, "remove on read-only "+p)
		return errors.WithStack(perr("remove", p, syscall.EROFS))
	}
	if _, err := m.w.callHook("remove", p, 0); err != nil {
		return errors.WithStack(perr("remove", p, err))
	}
	d, err := m.w.lookup(path.Dir(p))
	if err != nil {
		return errors.WithStack(perr("remove", p, err))
	}
	x, ok := d.children[path.Base(p)]
	if !ok {
		return errors.WithStack(perr("remove", p, syscall.ENOENT))
	}
	if x.dir && len(x.children) > 0 {
		return errors.WithStack(perr("remove", p, syscall.ENOTEMPTY))
	}
	delete(d.children, path.Base(p))
	if m.w.logging {
		m.w.log = append(m.w.log, wop{kind: "remove", path: p})
	}
	return nil
}

var (
	_ writefs.CreateFS    = &memFS{}
	_ writefs.ReadWriteFS = &memFS{}
	_ writefs.MkDirFS     = &memFS{}
	_ writefs.RenameFS    = &memFS{}
	_ writefs.RemoveFS    = &memFS{}
	_ fs.ReadDirFS        = &memFS{}
	_ fs.ReadFileFS       = &memFS{}
	_ fs.StatFS           = &memFS{}
	_ fs.SubFS            = &memFS{}
)

// diffSnap describes the difference of two snapshots ("" if equal).
func diffSnap(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		w, ok := b[k]
		switch {
		case !ok:
			out = append(out, "missing: "+k)
		case v != w:
			out = append(out, fmt.Sprintf("changed: %s: %s -> %s", k, short([]byte(v)), short([]byte(w))))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "extra: "+k)
		}
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = append(out[:12], fmt.Sprintf("... %d more", len(out)-12))
	}
	return strings.Join(out, "\n  ")
}
