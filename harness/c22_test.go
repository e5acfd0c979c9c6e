package zzverif

// C22: metadata of the source file system is recorded and readable.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"pgregory.net/rapid"
)

// srcFile is a file or folder of a folder on disk.
type srcFile struct {
	Blob  blob
	Dir   bool
	Link  string // target of a symbolic link
	Mode  os.FileMode
	MTime time.Time
}

func (s srcFile) String() string {
	switch {
	case s.Dir:
		return fmt.Sprintf("folder %v", s.MTime.UTC())
	case s.Link != "":
		return "-> " + s.Link
	}
	return fmt.Sprintf("%s %v %v", s.Blob, s.Mode, s.MTime.UTC())
}

// fsLine is what has to be recorded about a file.
type fsLine struct {
	Version, Path, Attr, Symlink string
	MTime                        int64
	Size                         uint64
	Folder                       bool
}

func (l fsLine) String() string {
	return fmt.Sprintf("%s %q %s link=%q mtime=%d size=%d folder=%v", l.Version, l.Path, l.Attr, l.Symlink, l.MTime, l.Size, l.Folder)
}

func genTime(t *rapid.T) time.Time {
	sec := rapid.OneOf(rapid.Int64Range(0, 4102444800), rapid.SampledFrom([]int64{0, 1, 951782400, 1711846799, 1729990800, 4294967296})).Draw(t, "sec")
	ns := rapid.SampledFrom([]int64{0, 1, 999999999, 123456789, 500000000}).Draw(t, "nsec")
	return time.Unix(sec, ns)
}

// genSource draws a tree; taken tells which logical paths are not free.
func genSource(t *rapid.T, taken func(string) bool) map[string]srcFile {
	tree := map[string]srcFile{}
	free := func(p string) bool {
		if taken(p) {
			return false
		}
		for q, s := range tree {
			if q == p || strings.HasPrefix(p, q+"/") && !s.Dir || strings.HasPrefix(q, p+"/") {
				return false
			}
		}
		return true
	}
	for n := rapid.IntRange(0, 6).Draw(t, "files"); n > 0; n-- {
		p := genPath(t, "path")
		if rapid.IntRange(0, 11).Draw(t, "keepName") == 0 {
			p = path.Join(path.Dir(p), ".keep")
		}
		if !free(p) || len(p) > 200 {
			continue
		}
		s := srcFile{MTime: genTime(t), Mode: rapid.SampledFrom([]os.FileMode{0o644, 0o600, 0o755, 0o444, 0o777, 0o400}).Draw(t, "mode")}
		switch rapid.IntRange(0, 9).Draw(t, "what") {
		case 0:
			s.Dir = path.Base(p) != ".keep" // an empty folder
			if !s.Dir {
				s.Blob = genBlob(t)
			}
		case 1:
			var files []string
			for _, q := range sortedKeys(tree) {
				if !tree[q].Dir && tree[q].Link == "" {
					files = append(files, q)
				}
			}
			if len(files) > 0 {
				to := rapid.SampledFrom(files).Draw(t, "link")
				s.Link = strings.Repeat("../", strings.Count(p, "/")) + to
				s.Blob = tree[to].Blob
			} else {
				s.Blob = genBlob(t)
			}
		default:
			s.Blob = genBlob(t)
		}
		tree[p] = s
	}
	if !taken("many") {
		many := genMany(t)
		for i, p := range sortedKeys(many) {
			if !taken(p) {
				tree[p] = srcFile{MTime: time.Unix(int64(i)*1000, int64(i)), Mode: 0o644, Blob: many[p]}
			}
		}
	}
	// folders of the files
	for _, p := range sortedKeys(tree) {
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			if _, ok := tree[d]; !ok {
				tree[d] = srcFile{Dir: true, MTime: genTime(t)}
			}
		}
	}
	tree["."] = srcFile{Dir: true, MTime: genTime(t)}
	return tree
}

func writeSource(dir string, tree map[string]srcFile) {
	chk := func(err error) {
		if err != nil {
			infra("writing a source folder: %v", err)
		}
	}
	names := sortedKeys(tree)
	for _, p := range names {
		f := filepath.Join(dir, p)
		s := tree[p]
		if s.Dir {
			chk(os.MkdirAll(f, 0o755))
			continue
		}
		chk(os.MkdirAll(filepath.Dir(f), 0o755))
		if s.Link != "" {
			chk(os.Symlink(s.Link, f))
			continue
		}
		chk(os.WriteFile(f, []byte(s.Blob.bytes()), 0o644))
		chk(os.Chmod(f, s.Mode))
		chk(os.Chtimes(f, s.MTime, s.MTime))
	}
	// the deepest folders first
	sort.Slice(names, func(i, j int) bool { return len(names[i]) > len(names[j]) })
	for _, p := range names {
		if tree[p].Dir {
			chk(os.Chtimes(filepath.Join(dir, p), tree[p].MTime, tree[p].MTime))
		}
	}
}

func TestC22(t *testing.T) {
	runCheck(t, "filesystem metadata", 700, 20000, func(t *rapid.T) {
		tmp, err := os.MkdirTemp("", "zzverif-c22-")
		if err != nil {
			infra("%v", err)
		}
		defer os.RemoveAll(tmp)
		typ := rapid.SampledFrom([]string{"area", "path", "extension"}).Draw(t, "storageType")
		if rapid.IntRange(0, 7).Draw(t, "typeCase") == 0 {
			typ = strings.ToUpper(typ[:1]) + typ[1:]
		}
		compress := rapid.SampledFrom([]string{"none", "gzip", "brotli"}).Draw(t, "compress")
		folders := rapid.SampledFrom([]string{"", "", ".keep", "_folder_"}).Draw(t, "folders")
		sub := rapid.IntRange(0, 2).Draw(t, "subpath") > 0
		areas := map[string]string{"": "", "content": ""}
		var storage string
		cfg := &histCfg{Version: rapid.SampledFrom([]string{"1.0", "1.1"}).Draw(t, "version"), Layout: layouts()[2].exts, Digest: rapid.SampledFrom([]string{"sha512", "sha256"}).Draw(t, "digest")}
		cfg.Exts = []extCfg{initialExt, objManager}
		switch strings.ToLower(typ) {
		case "area":
			storage = rapid.SampledFrom([]string{"metadata", "content"}).Draw(t, "storageName")
		case "path":
			storage = rapid.SampledFrom([]string{"fsmeta", "md/sub", "", "with space", "data"}).Draw(t, "storageName")
		default:
			storage = rapid.SampledFrom([]string{"fsmeta", "md/sub", "", "data"}).Draw(t, "storageName")
		}
		if sub {
			data := rapid.SampledFrom([]string{"data", "content", "x/y"}).Draw(t, "contentFolder")
			areas = map[string]string{"": data, "content": data, "metadata": "meta"}
			cfg.Exts = append(cfg.Exts, ext("NNNN-content-subpath", "subPath", map[string]any{
				"content": map[string]any{"path": data, "description": "c"}, "metadata": map[string]any{"path": "meta", "description": "m"}}))
		}
		switch rapid.IntRange(0, 2).Draw(t, "contentPath") {
		case 1:
			cfg.Exts = append(cfg.Exts, dclean(true))
		case 2:
			cfg.Exts = append(cfg.Exts, ext("NNNN-direct-path-layout"))
		}
		fsExt := ext("NNNN-filesystem", "folders", folders, "storageType", typ, "storageName", storage, "compress", compress)
		cfg.Exts = append(cfg.Exts, fsExt)
		var log []string
		fail := func(format string, a ...any) {
			t.Helper()
			t.Fatalf("config %s, areas %s, extensions %v, sessions\n  %s\n%s", j(fsExt), j(areas), extNames(cfg.Exts), strings.Join(log, "\n  "), cut(fmt.Sprintf(format, a...), 1500))
		}
		h, err := newHist(cfg)
		if err != nil {
			fail("%v", err)
		}
		const id = "obj"
		recorded := map[string][]fsLine{} // content -> lines
		stored := map[string]bool{}       // contents of the manifest
		cur := map[string]string{}        // logical path -> content
		versions, withLines := 0, 0
		links, dirs, later := false, false, false
		for k := genLength(t); k > 0; k-- {
			echo := rapid.IntRange(0, 3).Draw(t, "echo") == 0
			next := map[string]string{}
			for p, c := range cur {
				next[p] = c
			}
			newStored := map[string]bool{}
			lines := map[string][]fsLine{}
			touched := map[string]bool{}
			taken := func(area, p string) bool {
				q := cleanJoin(areas[area], p)
				for l := range next {
					if l != q && conflicts(l, q) {
						return true
					}
				}
				for l := range touched {
					if conflicts(l, q) {
						return true
					}
				}
				return touched[q]
			}
			ver := fmt.Sprintf("v%d", versions+1)
			o, err := h.open(id)
			if err != nil {
				fail("%v", err)
			}
			if _, err := o.StartUpdate(newWorld().mount("/none"), "m", "u", "mailto:u", echo); err != nil {
				fail("StartUpdate: %v", err)
			}
			var desc []string
			log = append(log, "")
			note := func(s string) {
				desc = append(desc, s)
				log[len(log)-1] = fmt.Sprintf("echo=%v %s", echo, strings.Join(desc, "; "))
			}
			put := func(area, p, content string, dedup bool) (q string, added bool) {
				q = cleanJoin(areas[area], p)
				touched[q] = true
				old, ok := next[q]
				next[q] = content
				if dedup && (ok && old == content || stored[content] || newStored[content]) {
					return q, false
				}
				newStored[content] = true
				return q, true
			}
			steps := rapid.IntRange(0, 3).Draw(t, "steps")
			for i := 0; i < steps; i++ {
				area := rapid.SampledFrom(sortedKeys(areas)).Draw(t, "area")
				dedup := rapid.Bool().Draw(t, "dedup")
				kind := rapid.SampledFrom([]string{"folder", "folder", "folder", "data", "reader", "delete", "rename"}).Draw(t, "kind")
				if (kind == "delete" || kind == "rename") && (echo || len(cur) == 0) {
					kind = "folder"
				}
				switch kind {
				case "folder":
					tree := genSource(t, func(p string) bool { return taken(area, p) || folders != "" && taken(area, p+"/"+folders) })
					if folders != "" {
						// the files of the folders have to be free as well
						for _, p := range sortedKeys(tree) {
							if tree[p].Dir && touched[cleanJoin(areas[area], path.Join(p, folders))] {
								tree = map[string]srcFile{}
								break
							}
						}
						if len(tree) == 0 {
							continue
						}
					}
					dir := filepath.Join(tmp, fmt.Sprintf("s%d-%d", k, i))
					writeSource(dir, tree)
					var d []string
					for _, p := range sortedKeys(tree) {
						d = append(d, fmt.Sprintf("%q %s", p, tree[p]))
					}
					note(fmt.Sprintf("folder area=%q dedup=%v {%s}", area, dedup, strings.Join(d, ", ")))
					src, err := osfsrw.NewFS(dir, logger)
					if err != nil {
						infra("%v", err)
					}
					// the model: as fs.WalkDir does
					var walk func(p string)
					walk = func(p string) {
						s := tree[p]
						f := filepath.Join(dir, p)
						if s.Dir {
							if folders != "" {
								kp := path.Join(p, folders)
								q := cleanJoin(areas[area], kp)
								content := ""
								if own, ok := tree[kp]; ok && !own.Dir {
									content = own.Blob.bytes()
								} else {
									q, _ = put(area, kp, "", true)
									dirs = true
								}
								fi, err := os.Stat(f)
								if err != nil {
									infra("%v", err)
								}
								lines[content] = append(lines[content], fsLine{Version: ver, Path: q, Attr: fi.Mode().Perm().String(), MTime: s.MTime.UnixNano(), Folder: true})
							}
							var kids []string
							for c := range tree {
								if c != "." && path.Dir(c) == p {
									kids = append(kids, c)
								}
							}
							sort.Strings(kids)
							for _, c := range kids {
								walk(c)
							}
							return
						}
						q, added := put(area, p, s.Blob.bytes(), dedup)
						if !added {
							return
						}
						l := fsLine{Version: ver, Path: q, Attr: s.Mode.Perm().String(), MTime: s.MTime.UnixNano(), Size: uint64(len(s.Blob.bytes()))}
						if s.Link != "" {
							links = true
							to := tree[path.Join(path.Dir(p), s.Link)]
							l.Symlink, l.Attr, l.MTime = s.Link, os.FileMode(0o777).String(), to.MTime.UnixNano()
						}
						lines[s.Blob.bytes()] = append(lines[s.Blob.bytes()], l)
					}
					walk(".")
					if err := o.AddFolder(src, nil, dedup, area); err != nil {
						fail("AddFolder: %v", err)
					}
				case "data", "reader":
					p := genPath(t, "path")
					if taken(area, p) || folders != "" && taken(area, p+"/"+folders) {
						continue
					}
					b := genBlob(t)
					note(fmt.Sprintf("%s area=%q dedup=%v %q=%s", kind, area, dedup, p, b))
					if kind == "data" {
						put(area, p, b.bytes(), dedup)
						err = o.AddData([]byte(b.bytes()), p, dedup, area, false, false)
					} else {
						put(area, p, b.bytes(), false)
						_, err = o.AddReader(io.NopCloser(bytes.NewReader([]byte(b.bytes()))), []string{p}, area, false, false)
					}
					if err != nil {
						fail("%s: %v", kind, err)
					}
				default:
					q := rapid.SampledFrom(sortedKeys(cur)).Draw(t, "existing")
					c, ok := next[q]
					if !ok || touched[q] {
						continue
					}
					if kind == "delete" {
						note(fmt.Sprintf("delete %q", q))
						delete(next, q)
						touched[q] = true
						if err := o.DeleteFile(q, digestOf(cfg.Digest, []byte(c))); err != nil {
							fail("DeleteFile: %v", err)
						}
						continue
					}
					to := cleanJoin(areas[""], "renamed", fmt.Sprintf("%d", len(touched)))
					if _, ok := next[to]; ok || touched[to] {
						continue
					}
					note(fmt.Sprintf("rename %q to %q", q, to))
					delete(next, q)
					next[to] = c
					touched[q], touched[to] = true, true
					if err := o.RenameFile(q, to, digestOf(cfg.Digest, []byte(c))); err != nil {
						fail("RenameFile: %v", err)
					}
				}
			}
			if echo {
				base := areas[""]
				for q := range next {
					if !touched[q] && (base == "" || strings.HasPrefix(q, base+"/")) {
						delete(next, q)
					}
				}
			}
			note("end")
			peek := rapid.Bool().Draw(t, "peek")
			if peek {
				if _, err := o.GetMetadata(); err != nil {
					fail("metadata before the end of the update: %v", err)
				}
			}
			if err := o.EndUpdate(); err != nil {
				fail("EndUpdate: %v", err)
			}
			if peek {
				if _, err := o.GetMetadata(); err != nil {
					fail("metadata after the update: %v", err)
				}
			}
			if err := o.Close(); err != nil {
				fail("Close: %v", err)
			}
			inv, _, err := h.inventory(id)
			if err != nil && versions == 0 && len(next) == 0 && !sub {
				continue // nothing was stored
			}
			if err != nil {
				fail("%v", err)
			}
			switch v := vnum(inv.head); v {
			case versions + 1:
				versions++
				for c, l := range lines {
					recorded[c] = append(recorded[c], l...)
					withLines++
				}
				for c := range newStored {
					stored[c] = true
				}
				cur = next
			case versions:
				if !sameState(cur, next) {
					fail("no version was created")
				}
			default:
				fail("head is %s after %d versions", inv.head, versions)
			}
			// the state is what was added and the files of extensions
			got := map[string]string{}
			for d, ps := range inv.versions[inv.head].state {
				for _, p := range ps {
					got[p] = d
				}
			}
			for p, c := range cur {
				if got[p] != digestOf(cfg.Digest, []byte(c)) {
					fail("%s: %q has %s, not the content added", inv.head, p, short([]byte(got[p])))
				}
				delete(got, p)
			}
			for p := range got {
				if b := path.Base(p); !(strings.HasPrefix(b, "filesystem_v") || sub && b == "README.md") {
					fail("%s: unexpected file %q", inv.head, p)
				}
			}
			if k == 1 || rapid.Bool().Draw(t, "look") {
				later = later || versions > 1 && withLines > 0
				if err := h.reload(); err != nil {
					fail("%v", err)
				}
				if msg := checkLines(h, id, cfg.Digest, recorded); msg != "" {
					fail("after %s: %s", inv.head, msg)
				}
			}
		}
		if versions > 0 {
			if errs := validate(h.fsys, h.f); len(errs) > 0 {
				fail("validation: %v", errs)
			}
		}
		cl := []string{strings.ToLower(typ) + " " + compress}
		if links {
			cl = append(cl, "symbolic link")
		}
		if dirs {
			cl = append(cl, "folder files")
		}
		if later {
			cl = append(cl, "read in a later version")
		}
		if sub {
			cl = append(cl, "areas")
		}
		count("filesystem metadata", j(fsExt)+j(areas)+strings.Join(log, "\n"), withLines > 0, map[string]any{"config": fsExt, "sessions": log}, cl...)
	})
}

// checkLines compares the extracted metadata with what was recorded.
func checkLines(h *hist, id, alg string, recorded map[string][]fsLine) string {
	md, err := h.sr.ExtractMeta("", id)
	if err != nil {
		return fmt.Sprintf("ExtractMeta: %v", err)
	}
	om := md.Objects[id]
	if om == nil {
		return "no metadata"
	}
	want := map[string][]string{}
	for c, ls := range recorded {
		for _, l := range ls {
			l.Size *= map[bool]uint64{true: 0, false: 1}[l.Folder]
			d := digestOf(alg, []byte(c))
			want[d] = append(want[d], l.String())
		}
	}
	for d, fm := range om.Files {
		raw, err := json.Marshal(fm.Extension["NNNN-filesystem"])
		if err != nil {
			return err.Error()
		}
		var got map[string][]struct {
			Path string `json:"path"`
			Meta struct {
				MTime        time.Time `json:"mTime"`
				Attr         string    `json:"attr"`
				Symlink      string    `json:"symlink"`
				OS           string    `json:"os"`
				StateVersion string    `json:"stateVersion"`
				Size         uint64    `json:"size"`
				SysStat      struct{ Mode uint32 }
			} `json:"meta"`
		}
		if err := json.Unmarshal(raw, &got); err != nil {
			return fmt.Sprintf("metadata of %s: %v", d, err)
		}
		var l []string
		for v, lines := range got {
			for _, x := range lines {
				if v != x.Meta.StateVersion || x.Meta.OS != "linux" {
					return fmt.Sprintf("metadata of %s: version %q / %q, os %q", d, v, x.Meta.StateVersion, x.Meta.OS)
				}
				f := fsLine{Version: v, Path: x.Path, Attr: x.Meta.Attr, Symlink: x.Meta.Symlink, MTime: x.Meta.MTime.UnixNano(), Size: x.Meta.Size}
				if f.Folder = x.Meta.SysStat.Mode&0o170000 == 0o040000; f.Folder {
					f.Size = 0 // the size of a folder is up to the file system
				}
				l = append(l, f.String())
			}
		}
		sort.Strings(l)
		sort.Strings(want[d])
		if j(l) != j(want[d]) {
			return fmt.Sprintf("metadata of %s %q is\n  %s\ninstead of\n  %s", d[:8], fm.InternalName, strings.Join(l, "\n  "), strings.Join(want[d], "\n  "))
		}
		delete(want, d)
	}
	for d := range want {
		return "no metadata of " + d
	}
	return ""
}
