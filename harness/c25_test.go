package zzverif

// C25: the same sessions give the same object on every kind of storage.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"time"

	"archive/zip"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/filesystem/v3/pkg/writefs"
	"github.com/je4/filesystem/v3/pkg/zipfs"
	"github.com/je4/filesystem/v3/pkg/zipfsrw"
	"github.com/je4/utils/v2/pkg/checksum"
	"pgregory.net/rapid"
)

// store is a kind of storage holding one storage root.
type store interface {
	open() (fs.FS, error)         // for a session
	close() error                 // after it
	read() (fs.FS, func(), error) // for reading only
	files() (map[string]string, error)
}

// memZip is a ZIP container in memory.
type memZip struct {
	data    []byte
	store   bool // without compression
	buf     *bytes.Buffer
	current interface {
		Close() error
		HasChanged() bool
	}
}

func (z *memZip) open() (fs.FS, error) {
	z.buf = &bytes.Buffer{}
	var r zipfs.OpenRawZipFS
	if z.data != nil {
		x, err := zipfs.NewFS(bytes.NewReader(z.data), int64(len(z.data)), "mem", logger)
		if err != nil {
			return nil, err
		}
		r = x
	}
	w, err := zipfsrw.NewFS(z.buf, r, z.store, "mem", logger)
	if err != nil {
		return nil, err
	}
	z.current = w
	return w, nil
}

func (z *memZip) close() error {
	if err := z.current.Close(); err != nil {
		return err
	}
	if z.current.HasChanged() {
		z.data = z.buf.Bytes()
	}
	return nil
}

func (z *memZip) read() (fs.FS, func(), error) {
	x, err := zipfs.NewFS(bytes.NewReader(z.data), int64(len(z.data)), "mem", logger)
	return x, func() {}, err
}

func (z *memZip) files() (map[string]string, error) { return zipFiles(z.data) }

// zipFiles reads a container with the standard library.
func zipFiles(data []byte) (map[string]string, error) {
	r, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, err
	}
	res := map[string]string{}
	for _, f := range r.File {
		if _, ok := res[f.Name]; ok {
			return nil, fmt.Errorf("the container has two entries %q", f.Name)
		}
		if strings.HasSuffix(f.Name, "/") {
			continue
		}
		rc, err := f.Open()
		if err != nil {
			return nil, err
		}
		var b bytes.Buffer
		if _, err := b.ReadFrom(rc); err != nil {
			return nil, fmt.Errorf("%s: %w", f.Name, err)
		}
		rc.Close()
		res[f.Name] = b.String()
	}
	return res, nil
}

// fileZip is a container on disk, opened as gocfl/cmd does.
type fileZip struct {
	dir     string
	base    fs.FS
	current fs.FS
}

func (z *fileZip) open() (fs.FS, error) {
	var err error
	if z.base, err = osfsrw.NewFS(z.dir, logger); err != nil {
		return nil, err
	}
	z.current, err = zipfsrw.NewFSFileChecksums(z.base, "store.zip", false, []checksum.DigestAlgorithm{checksum.DigestSHA512}, logger)
	return z.current, err
}
func (z *fileZip) close() error { return writefs.Close(z.current) }
func (z *fileZip) read() (fs.FS, func(), error) {
	base, err := osfsrw.NewFS(z.dir, logger)
	if err != nil {
		return nil, nil, err
	}
	x, err := zipfs.NewFSFile(base, "store.zip", logger)
	if err != nil {
		return nil, nil, err
	}
	return x, func() { x.Close() }, nil
}
func (z *fileZip) files() (map[string]string, error) {
	b, err := os.ReadFile(filepath.Join(z.dir, "store.zip"))
	if err != nil {
		return nil, err
	}
	return zipFiles(b)
}

// folder is a folder on disk.
type folder struct{ dir string }

func (f *folder) open() (fs.FS, error) { return osfsrw.NewFS(f.dir, logger) }
func (f *folder) close() error         { return nil }
func (f *folder) read() (fs.FS, func(), error) {
	x, err := osfsrw.NewFS(f.dir, logger)
	return x, func() {}, err
}
func (f *folder) files() (map[string]string, error) {
	res := map[string]string{}
	err := filepath.WalkDir(f.dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(f.dir, p)
		res[filepath.ToSlash(rel)] = string(b)
		return err
	})
	return res, err
}

var createdRe = regexp.MustCompile(`(?i)"created":\s*"[^"]*"`)

// comparable leaves out what depends on the time of the session.
func comparable(files map[string]string) map[string]string {
	res := map[string]string{}
	for f, c := range files {
		base := f[strings.LastIndex(f, "/")+1:]
		switch {
		case base == "inventory.json":
			c = createdRe.ReplaceAllString(c, "")
		case strings.HasPrefix(base, "inventory.json."):
			if i := strings.IndexAny(c, " \t"); i > 0 {
				c = strings.Repeat("0", i) + c[i:]
			}
		}
		res[f] = c
	}
	return res
}

// flatten drops the folders from a snapshot.
func flatten(snap map[string]string) map[string]string {
	res := map[string]string{}
	for f, c := range snap {
		if !strings.HasSuffix(f, "/") {
			res[strings.TrimPrefix(f, "/")] = c
		}
	}
	return res
}

// genPlainPath draws paths none of which is a prefix of another one, as the
// ZIP file systems tell files and folders apart by the prefixes of names.
func genPlainPath(t *rapid.T, label string) string {
	var p string
	for n := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, label+"Depth"); n > 0; n-- {
		p += rapid.SampledFrom([]string{"da", "db", "d c", "dü", "d=e"}).Draw(t, label+"Dir") + "/"
	}
	return p + rapid.SampledFrom([]string{"fa.txt", "fb.txt", "fc", "f d.md", "fé.bin", "f=1.x", "f日本", "FA.txt", ".hidden", "g'\"&.txt"}).Draw(t, label)
}

func TestC25(t *testing.T) {
	prefixNames(t)
	runCheck(t, "storages", 900, 20000, func(t *rapid.T) {
		cfg := genCfg(t)
		tmp, err := os.MkdirTemp("", "zzverif-c25-")
		if err != nil {
			infra("%v", err)
		}
		defer os.RemoveAll(tmp)
		kinds := []string{"zip"}
		if rapid.Bool().Draw(t, "folder") {
			kinds = append(kinds, "folder")
		}
		if rapid.IntRange(0, 3).Draw(t, "zipFile") == 0 {
			kinds = append(kinds, "zip file")
		}
		source := rapid.SampledFrom([]string{"mem", "mem", "folder", "zip"}).Draw(t, "source")
		withMeta := source == "folder" && rapid.Bool().Draw(t, "filesystem")
		if withMeta {
			cfg.Exts = append(cfg.Exts, ext("NNNN-filesystem", "folders", "", "storageType", rapid.SampledFrom([]string{"area", "path", "extension"}).Draw(t, "storageType"),
				"storageName", "metadata", "compress", rapid.SampledFrom([]string{"none", "gzip", "brotli"}).Draw(t, "compress")))
		}
		h, err := newHist(cfg)
		if err != nil {
			t.Fatalf("creating the storage root (%s): %v", cfg, err)
		}
		stores := map[string]store{}
		hs := map[string]*hist{}
		opened := map[string]bool{}
		fail := func(format string, a ...any) {
			t.Helper()
			t.Fatalf("%s\n  source %s\n  config %s\n  history:\n  %s", cut(fmt.Sprintf(format, a...), 2500), source, cfg, strings.Join(h.log, "\n  "))
		}
		for _, k := range kinds {
			switch k {
			case "zip":
				stores[k] = &memZip{store: rapid.Bool().Draw(t, "uncompressed")}
			case "zip file":
				stores[k] = &fileZip{dir: filepath.Join(tmp, "z")}
				os.Mkdir(filepath.Join(tmp, "z"), 0o755)
			case "folder":
				stores[k] = &folder{dir: filepath.Join(tmp, "f")}
				os.Mkdir(filepath.Join(tmp, "f"), 0o755)
			}
			x := &hist{cfg: cfg, w: newWorld(), f: h.f, models: map[string]*model{}, folders: map[string]string{}}
			if x.fsys, err = stores[k].open(); err != nil {
				fail("%s: opening: %v", k, err)
			}
			if err := x.createRoot(); err != nil {
				fail("%s: creating the storage root: %v", k, err)
			}
			opened[k] = true
			hs[k] = x
		}
		var ss []*session
		n := rapid.IntRange(1, 5).Draw(t, "sessions")
		versions := 0
		for i := 0; i < n; i++ {
			id := rapid.SampledFrom(cfg.IDs).Draw(t, "object")
			s := genSessionPaths(t, id, h.models[id].head(), genPlainPath)
			// the folders are prepared once for all storages
			srcs := map[int]fs.FS{}
			for k, st := range s.Steps {
				if st.Kind != "folder" || source == "mem" {
					continue
				}
				if source == "folder" {
					dir := filepath.Join(tmp, fmt.Sprintf("s%d-%d", i, k))
					os.MkdirAll(dir, 0o755)
					for _, p := range sortedKeys(st.Tree) {
						f := filepath.Join(dir, p)
						os.MkdirAll(filepath.Dir(f), 0o755)
						if err := os.WriteFile(f, []byte(st.Tree[p].bytes()), 0o644); err != nil {
							infra("%v", err)
						}
						// reading the file does not change such a time
						os.Chtimes(f, time.Now().Add(time.Hour), time.Now().Add(-time.Hour))
					}
					if srcs[k], err = osfsrw.NewFS(dir, logger); err != nil {
						infra("%v", err)
					}
				} else if len(st.Tree) == 0 {
					srcs[k] = s.source(st) // an empty container has no root folder
				} else {
					var b bytes.Buffer
					w := zip.NewWriter(&b)
					for _, p := range sortedKeys(st.Tree) {
						f, err := w.Create(p)
						if err == nil {
							_, err = f.Write([]byte(st.Tree[p].bytes()))
						}
						if err != nil {
							infra("%v", err)
						}
					}
					if err := w.Close(); err != nil {
						infra("%v", err)
					}
					if srcs[k], err = zipfs.NewFS(bytes.NewReader(b.Bytes()), int64(b.Len()), "source", logger); err != nil {
						infra("%v", err)
					}
				}
			}
			if source != "mem" {
				h.src = func(s *session, k int) fs.FS { return srcs[k] }
			}
			ss = append(ss, s)
			h.log = append(h.log, s.String())
			before := h.models[id]
			for _, k := range kinds {
				x := hs[k]
				x.models = map[string]*model{id: before}
				x.src = h.src
				if !opened[k] {
					if x.fsys, err = stores[k].open(); err != nil {
						fail("%s: opening before session %d: %v", k, i, err)
					}
					if err := x.reload(); err != nil {
						fail("%s: loading the storage root before session %d: %v", k, i, err)
					}
				}
				y := *s
				y.Reload = false
				if err := x.run(&y); err != nil {
					fail("%s: session %d: %v", k, i, err)
				}
				if err := stores[k].close(); err != nil {
					fail("%s: closing after session %d: %v", k, i, err)
				}
				opened[k] = false
			}
			next, ver := h.expect(s)
			if err := h.run(s); err != nil {
				fail("memory: session %d: %v", i, err)
			}
			created, complaint := h.settle(s, next, ver)
			if complaint != "" {
				break // reported by other checks
			}
			if created {
				versions++
			}
			want := flatten(h.w.snapshot(rootDir))
			for _, k := range kinds {
				got, err := stores[k].files()
				if err != nil {
					fail("%s: after session %d: %v", k, i, err)
				}
				if d := filesDiff(comparable(got), comparable(want)); d != "" {
					fail("%s differs from memory after session %d: %s", k, i, d)
				}
				if _, pr := checkRoot(got, true); len(pr) > 0 && k != "folder" {
					fail("%s is not conformant after session %d:\n  %s", k, i, joinProblems(pr))
				}
			}
		}
		// reading
		for _, k := range kinds {
			ro, done, err := stores[k].read()
			if err != nil {
				fail("%s: opening for reading: %v", k, err)
			}
			if e := validate(ro, h.f); len(e) > 0 {
				fail("%s: validation reports %v", k, e)
			}
			x := &hist{cfg: cfg, f: h.f, fsys: ro}
			if err := x.reload(); err != nil {
				fail("%s: loading the storage root: %v", k, err)
			}
			for _, id := range sortedKeys(h.models) {
				for v, want := range h.models[id].versions {
					got, err := x.extract(id, vname(v+1), "", false)
					if err != nil {
						fail("%s: extracting %s of %q: %v", k, vname(v+1), id, err)
					}
					if d := filesDiff(got, want); d != "" && !withMeta {
						fail("%s: %s of %q extracts wrongly: %s", k, vname(v+1), id, d)
					}
				}
				m1, e1 := x.sr.ExtractMeta("", id)
				if err := h.reload(); err != nil {
					fail("%v", err)
				}
				m2, e2 := h.sr.ExtractMeta("", id)
				if e1 != nil || e2 != nil {
					fail("%s: ExtractMeta: %v, memory: %v", k, e1, e2)
				}
				b1, _ := json.Marshal(m1)
				b2, _ := json.Marshal(m2)
				b1, b2 = createdRe.ReplaceAll(b1, nil), createdRe.ReplaceAll(b2, nil)
				if !bytes.Equal(b1, b2) {
					fail("%s: metadata\n  %s\nmemory:\n  %s", k, b1, b2)
				}
			}
			done()
		}
		d := describe(cfg, ss)
		classes := []string{"source " + source, fmt.Sprintf("versions=%d", versions)}
		for _, k := range kinds {
			classes = append(classes, k)
		}
		if withMeta {
			classes = append(classes, "filesystem metadata")
		}
		count("storages", j(d)+source+j(kinds), versions >= 2, d, classes...)
	})
}

// prefixNames is the deterministic part of C25: names which are prefixes of each other, which the
// ZIP file systems of the filesystem library confuse.
func prefixNames(t *testing.T) {
	for _, c := range []struct {
		name, known string
		want        []string // codes validation reports because of it
		sessions    []*session
	}{
		{"folders", "in a ZIP container the files of folder 'd2' are taken for files of folder 'd' (ReadDir of github.com/je4/filesystem v3.0.12 compares names without separator)", []string{"E024"},
			[]*session{{ID: "obj", Msg: "m", User: "u", Addr: "mailto:u", Steps: []step{{Kind: "folder", Tree: map[string]blob{"d/a": {Size: 5, Tag: 1}, "d2/x": {Size: 6, Tag: 2}}}}}}},
		{"objects", "in a ZIP container the files of object 'obj2' are taken for files of object 'obj' (ReadDir of github.com/je4/filesystem v3.0.12 compares names without separator)", []string{"E001", "E046"},
			[]*session{
				{ID: "obj", Msg: "m", User: "u", Addr: "mailto:u", Steps: []step{{Kind: "folder", Tree: map[string]blob{"a": {Size: 5, Tag: 1}}}}},
				{ID: "obj2", Msg: "m", User: "u", Addr: "mailto:u", Steps: []step{{Kind: "folder", Tree: map[string]blob{"a": {Size: 5, Tag: 1}}}}}}},
		{"versions", "", nil,
			func() (l []*session) {
				for i := 0; i < 10; i++ {
					l = append(l, &session{ID: "obj", Msg: "m", User: "u", Addr: "mailto:u", Steps: []step{{Kind: "folder", Tree: map[string]blob{"a": {Size: 5 + i, Tag: 1}}}}})
				}
				return
			}()},
	} {
		c := c
		once(t, c.name, func(t *testing.T) {
			cfg := &histCfg{Version: "1.1", Layout: layouts()[2].exts, Digest: "sha512", Exts: []extCfg{initialExt, objManager}}
			h, err := newHist(cfg)
			if err != nil {
				t.Fatal(err)
			}
			z := &memZip{}
			x := &hist{cfg: cfg, w: newWorld(), f: h.f, models: map[string]*model{}, folders: map[string]string{}}
			for i, s := range c.sessions {
				if x.fsys, err = z.open(); err != nil {
					t.Fatal(err)
				}
				if i == 0 {
					err = x.createRoot()
				} else {
					err = x.reload()
				}
				if err != nil {
					t.Fatal(err)
				}
				x.models = map[string]*model{s.ID: h.models[s.ID]}
				if err := x.run(s); err != nil {
					t.Fatal(err)
				}
				if err := z.close(); err != nil {
					t.Fatal(err)
				}
				next, ver := h.expect(s)
				if err := h.run(s); err != nil {
					t.Fatal(err)
				}
				if _, complaint := h.settle(s, next, ver); complaint != "" {
					t.Fatal(complaint)
				}
			}
			got, err := z.files()
			if err != nil {
				t.Fatal(err)
			}
			if d := filesDiff(comparable(got), comparable(flatten(h.w.snapshot(rootDir)))); d != "" {
				t.Fatalf("the container differs from memory: %s", d)
			}
			ro, _, err := z.read()
			if err != nil {
				t.Fatal(err)
			}
			e := validate(ro, h.f)
			if len(e) > 0 {
				var codes []string
				for _, x := range e {
					codes = append(codes, strings.Fields(x)[0])
				}
				if j(codes) != j(c.want) {
					t.Fatalf("validation reports %v", e)
				}
				knownFinding(c.known)
			}
			count("prefixes", c.name, true, nil)
		})
	}
}
