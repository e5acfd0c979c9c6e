package zzverif

import (
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"pgregory.net/rapid"
)

// Recording extensions: fakeBase offers no hook, the others some or all.

type fakeCalls struct {
	mu sync.Mutex
	l  []string
}

func (c *fakeCalls) add(f string, a ...any) {
	c.mu.Lock()
	c.l = append(c.l, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

type fakeBase struct {
	name  string
	calls *fakeCalls
	fail  map[string]bool // hooks which return an error
	empty map[string]bool // path hooks which return ""
	need  bool
	fsys  fs.FS
}

func (f *fakeBase) GetName() string                   { return f.name }
func (f *fakeBase) SetFS(fsys fs.FS, create bool)     { f.fsys = fsys }
func (f *fakeBase) GetFS() fs.FS                      { return f.fsys }
func (f *fakeBase) SetParams(map[string]string) error { return nil }
func (f *fakeBase) WriteConfig() error                { return nil }
func (f *fakeBase) GetConfig() any                    { return map[string]string{"extensionName": f.name} }
func (f *fakeBase) IsRegistered() bool                { return true }
func (f *fakeBase) Terminate() error                  { f.calls.add("Terminate %s", f.name); return nil }
func (f *fakeBase) call(hook string) error {
	f.calls.add("%s %s", hook, f.name)
	if f.fail[hook] {
		return fmt.Errorf("%s of %s fails", hook, f.name)
	}
	return nil
}
func (f *fakeBase) path(hook, p string) (string, error) {
	if err := f.call(hook); err != nil {
		return "", err
	}
	if f.empty[hook] {
		return "", nil
	}
	return p + "/" + f.name, nil
}

type fakeRoot struct{ *fakeBase }

func (f fakeRoot) WriteLayout(fs.FS) error { return f.call("WriteLayout") }
func (f fakeRoot) BuildStorageRootPath(_ ocfl.StorageRoot, id string) (string, error) {
	return f.path("BuildStorageRootPath", id)
}

type fakeContentPath struct{ *fakeBase }

func (f fakeContentPath) BuildObjectManifestPath(_ ocfl.Object, p, _ string) (string, error) {
	return f.path("BuildObjectManifestPath", p)
}

type fakeStatePath struct{ *fakeBase }

func (f fakeStatePath) BuildObjectStatePath(_ ocfl.Object, p, _ string) (string, error) {
	return f.path("BuildObjectStatePath", p)
}

type fakeExtractPath struct{ *fakeBase }

func (f fakeExtractPath) BuildObjectExtractPath(_ ocfl.Object, p, _ string) (string, error) {
	if err := f.call("BuildObjectExtractPath"); err != nil {
		return "", err
	}
	return p + "/" + f.name, nil
}

type fakeContentChange struct{ *fakeBase }

func (f fakeContentChange) AddFileBefore(ocfl.Object, fs.FS, string, string, string, bool) error {
	return f.call("AddFileBefore")
}
func (f fakeContentChange) UpdateFileBefore(ocfl.Object, fs.FS, string, string, string, bool) error {
	return f.call("UpdateFileBefore")
}
func (f fakeContentChange) DeleteFileBefore(ocfl.Object, string, string) error {
	return f.call("DeleteFileBefore")
}
func (f fakeContentChange) AddFileAfter(ocfl.Object, fs.FS, []string, string, string, string, bool) error {
	return f.call("AddFileAfter")
}
func (f fakeContentChange) UpdateFileAfter(ocfl.Object, fs.FS, string, string, string, bool) error {
	return f.call("UpdateFileAfter")
}
func (f fakeContentChange) DeleteFileAfter(ocfl.Object, string, string) error {
	return f.call("DeleteFileAfter")
}

type fakeObjectChange struct{ *fakeBase }

func (f fakeObjectChange) UpdateObjectBefore(ocfl.Object) error { return f.call("UpdateObjectBefore") }
func (f fakeObjectChange) UpdateObjectAfter(ocfl.Object) error  { return f.call("UpdateObjectAfter") }

type fakeFixity struct{ *fakeBase }

func (f fakeFixity) GetFixityDigests() []digestAlg {
	_ = f.call("GetFixityDigests")
	return []digestAlg{digestAlg("x-" + f.name), "md5"}
}

type fakeMeta struct{ *fakeBase }

func (f fakeMeta) GetMetadata(ocfl.Object) (map[string]any, error) {
	if err := f.call("GetMetadata"); err != nil {
		return nil, err
	}
	return map[string]any{"d1": f.name + "1", "only " + f.name: 1}, nil
}

type fakeArea struct{ *fakeBase }

func (f fakeArea) GetAreaPath(_ ocfl.Object, area string) (string, error) {
	if err := f.call("GetAreaPath"); err != nil {
		return "", err
	}
	if f.empty["GetAreaPath"] {
		return "", nil
	}
	return area + "/" + f.name, nil
}

type fakeStream struct{ *fakeBase }

func (f fakeStream) StreamObject(_ ocfl.Object, r io.Reader, _ []string, _ string) error {
	if err := f.call("StreamObject"); err != nil {
		return err
	}
	d, err := io.ReadAll(r)
	if err != nil || string(d) != "streamed" {
		f.calls.add("StreamObject %s read %q %v", f.name, d, err)
	}
	return nil
}

type fakeNewVersion struct{ *fakeBase }

func (f fakeNewVersion) NeedNewVersion(ocfl.Object) (bool, error) {
	if err := f.call("NeedNewVersion"); err != nil {
		return false, err
	}
	return f.need, nil
}
func (f fakeNewVersion) DoNewVersion(ocfl.Object) error { return f.call("DoNewVersion") }

type fakePaths struct { // as NNNN-content-subpath
	*fakeBase
	fakeContentPath
	fakeStatePath
	fakeExtractPath
	fakeArea
}

func (f fakePaths) GetName() string                     { return f.fakeBase.GetName() }
func (f fakePaths) SetFS(fsys fs.FS, create bool)       { f.fakeBase.SetFS(fsys, create) }
func (f fakePaths) GetFS() fs.FS                        { return f.fakeBase.GetFS() }
func (f fakePaths) SetParams(m map[string]string) error { return nil }
func (f fakePaths) WriteConfig() error                  { return nil }
func (f fakePaths) GetConfig() any                      { return f.fakeBase.GetConfig() }
func (f fakePaths) IsRegistered() bool                  { return true }
func (f fakePaths) Terminate() error                    { return f.fakeBase.Terminate() }

type fakeRootPaths struct { // as NNNN-direct-clean-path-layout
	*fakeBase
	fakeRoot
	fakeContentPath
}

func (f fakeRootPaths) GetName() string                     { return f.fakeBase.GetName() }
func (f fakeRootPaths) SetFS(fsys fs.FS, create bool)       { f.fakeBase.SetFS(fsys, create) }
func (f fakeRootPaths) GetFS() fs.FS                        { return f.fakeBase.GetFS() }
func (f fakeRootPaths) SetParams(m map[string]string) error { return nil }
func (f fakeRootPaths) WriteConfig() error                  { return nil }
func (f fakeRootPaths) GetConfig() any                      { return f.fakeBase.GetConfig() }
func (f fakeRootPaths) IsRegistered() bool                  { return true }
func (f fakeRootPaths) Terminate() error                    { return f.fakeBase.Terminate() }

type fakeWorker struct { // as NNNN-migration, NNNN-filesystem
	*fakeBase
	fakeContentChange
	fakeObjectChange
	fakeMeta
	fakeStream
	fakeNewVersion
	fakeFixity
}

func (f fakeWorker) GetName() string                     { return f.fakeBase.GetName() }
func (f fakeWorker) SetFS(fsys fs.FS, create bool)       { f.fakeBase.SetFS(fsys, create) }
func (f fakeWorker) GetFS() fs.FS                        { return f.fakeBase.GetFS() }
func (f fakeWorker) SetParams(m map[string]string) error { return nil }
func (f fakeWorker) WriteConfig() error                  { return nil }
func (f fakeWorker) GetConfig() any                      { return f.fakeBase.GetConfig() }
func (f fakeWorker) IsRegistered() bool                  { return true }
func (f fakeWorker) Terminate() error                    { return f.fakeBase.Terminate() }

var fakeKinds = []string{"root", "contentpath", "statepath", "extractpath", "paths", "rootpaths", "worker", "worker", "paths", "rootpaths"}

func newFake(kind string, b *fakeBase) ocfl.Extension {
	switch kind {
	case "root":
		return fakeRoot{b}
	case "contentpath":
		return fakeContentPath{b}
	case "statepath":
		return fakeStatePath{b}
	case "extractpath":
		return fakeExtractPath{b}
	case "paths":
		return fakePaths{b, fakeContentPath{b}, fakeStatePath{b}, fakeExtractPath{b}, fakeArea{b}}
	case "rootpaths":
		return fakeRootPaths{b, fakeRoot{b}, fakeContentPath{b}}
	case "worker":
		return fakeWorker{b, fakeContentChange{b}, fakeObjectChange{b}, fakeMeta{b}, fakeStream{b}, fakeNewVersion{b}, fakeFixity{b}}
	}
	panic(kind)
}

// hooks of the manager: configuration key, methods
var managerHooks = []struct {
	key     string
	methods []string
	has     func(e ocfl.Extension) bool
}{
	{"StorageRootPath", []string{"BuildStorageRootPath", "WriteLayout"}, is[ocfl.ExtensionStorageRootPath]},
	{"ObjectContentPath", []string{"BuildObjectManifestPath"}, is[ocfl.ExtensionObjectContentPath]},
	{"ObjectExternalPath", []string{"BuildObjectStatePath"}, is[ocfl.ExtensionObjectStatePath]},
	{"ObjectExtractPath", []string{"BuildObjectExtractPath"}, is[ocfl.ExtensionObjectExtractPath]},
	{"ContentChange", []string{"AddFileBefore", "AddFileAfter", "UpdateFileBefore", "UpdateFileAfter", "DeleteFileBefore", "DeleteFileAfter"}, is[ocfl.ExtensionContentChange]},
	{"ObjectChange", []string{"UpdateObjectBefore", "UpdateObjectAfter"}, is[ocfl.ExtensionObjectChange]},
	{"FixityDigest", []string{"GetFixityDigests"}, is[ocfl.ExtensionFixityDigest]},
	{"Metadata", []string{"GetMetadata"}, is[ocfl.ExtensionMetadata]},
	{"Area", []string{"GetAreaPath"}, is[ocfl.ExtensionArea]},
	{"Stream", []string{"StreamObject"}, is[ocfl.ExtensionStream]},
	{"NewVersion", []string{"NeedNewVersion", "DoNewVersion"}, is[ocfl.ExtensionNewVersion]},
}

func is[E any](e ocfl.Extension) bool { _, ok := e.(E); return ok }

// expectActive gives the extensions active for a hook and the order of the
// listed ones. exact says that the set is determined (the groups are disjoint).
func expectActive(names []string, sorted []string, groups [][]string) (active []string, exact bool) {
	exact = true
	in := map[string]int{}
	for g, group := range groups {
		for _, n := range group {
			if o, ok := in[n]; ok && o != g {
				exact = false
			}
			in[n] = g
		}
	}
	present := map[string]bool{}
	for _, n := range names {
		present[n] = true
	}
	for _, group := range groups {
		found := false
		for _, n := range group {
			if present[n] && !found {
				found = true
				continue
			}
			if present[n] && n != firstIn(group, present) {
				delete(present, n)
			}
		}
	}
	for _, n := range sorted {
		if present[n] {
			active = append(active, n)
			delete(present, n)
		}
	}
	rest := sortedKeys(present)
	return append(active, rest...), exact
}

func firstIn(group []string, present map[string]bool) string {
	for _, n := range group {
		if present[n] {
			return n
		}
	}
	return ""
}

func propManager(t *rapid.T) {
	const check = "manager"
	pool := []string{"ext-a", "ext-b", "NNNN-c", "0001-d", "ext-e", "zz"}
	n := rapid.IntRange(1, 6).Draw(t, "extensions")
	names := rapid.Permutation(pool).Draw(t, "names")[:n]
	calls := &fakeCalls{}
	kinds := map[string]string{}
	fails := map[string]map[string]bool{}
	empties := map[string]map[string]bool{}
	need := map[string]bool{}
	withFail := rapid.IntRange(0, 2).Draw(t, "failing") == 0
	for _, x := range names {
		kinds[x] = rapid.SampledFrom(fakeKinds).Draw(t, "kind")
		fails[x], empties[x] = map[string]bool{}, map[string]bool{}
		for _, h := range managerHooks {
			for _, m := range h.methods {
				if withFail && rapid.IntRange(0, 5).Draw(t, "fails") == 0 {
					fails[x][m] = true
				}
			}
		}
		for _, m := range []string{"BuildStorageRootPath", "BuildObjectManifestPath", "BuildObjectStatePath", "GetAreaPath"} {
			empties[x][m] = rapid.IntRange(0, 5).Draw(t, "empty") == 0
		}
		need[x] = rapid.IntRange(0, 3).Draw(t, "need") == 0
	}
	lists := append(append([]string{}, pool...), "absent")
	sortCfg := map[string][]string{}
	exclCfg := map[string][][]string{}
	for _, h := range managerHooks {
		if rapid.Bool().Draw(t, "sorted") {
			sortCfg[h.key] = rapid.Permutation(lists).Draw(t, "sort")[:rapid.IntRange(0, len(lists)).Draw(t, "sortLen")]
		}
		for g := rapid.IntRange(0, 2).Draw(t, "groups"); g > 0; g-- {
			exclCfg[h.key] = append(exclCfg[h.key], rapid.Permutation(lists).Draw(t, "group")[:rapid.IntRange(0, 4).Draw(t, "groupLen")])
		}
	}
	exts := func() map[string]ocfl.Extension {
		r := map[string]ocfl.Extension{}
		for _, x := range names {
			r[x] = newFake(kinds[x], &fakeBase{name: x, calls: calls, fail: fails[x], empty: empties[x], need: need[x]})
		}
		return r
	}
	cfgText := func() string {
		return fmt.Sprintf("kinds %v, sort %s, exclusion %s, failing %s, empty %s", kinds, j(sortCfg), j(exclCfg), j(fails), j(empties))
	}

	// built by hand in some order, or by the factory from a folder
	type built struct {
		how string
		m   ocfl.ExtensionManager
	}
	var ms []built
	for i := 0; i < 2; i++ {
		order := rapid.Permutation(names).Draw(t, "order")
		m, err := extension.NewGOCFLExtensionManager(&ocfl.ExtensionManagerConfig{
			ExtensionConfig: &ocfl.ExtensionConfig{ExtensionName: extension.GOCFLExtensionManagerName}, Sort: sortCfg, Exclusion: exclCfg})
		if err != nil {
			t.Fatalf("NewGOCFLExtensionManager: %v", err)
		}
		es := exts()
		for _, x := range order {
			if err := m.Add(es[x]); err != nil {
				t.Fatalf("Add: %v", err)
			}
		}
		m.Finalize()
		ms = append(ms, built{fmt.Sprintf("added as %v", order), m})
	}
	{
		es := exts()
		creators := map[string]func(fs.FS) (ocfl.Extension, error){}
		var cfgs []extCfg
		for _, x := range names {
			e := es[x]
			creators[x] = func(fs.FS) (ocfl.Extension, error) { return e, nil }
			cfgs = append(cfgs, ext(x))
		}
		cfgs = append(cfgs, initialExt, ext(extension.GOCFLExtensionManagerName, "sort", sortCfg, "exclusion", exclCfg))
		f := newFactory(factoryOpts{creators: creators})
		m, err := newManager(f, cfgs)
		if err != nil {
			t.Fatalf("loading the manager: %v", err)
		}
		ms = append(ms, built{"loaded from a folder", m})
	}

	excluded := false
	var first map[string][]string
	for _, b := range ms {
		seen := map[string][]string{}
		for _, h := range managerHooks {
			var have []string
			es := exts()
			for _, x := range names {
				if h.has(es[x]) {
					have = append(have, x)
				}
			}
			want, exact := expectActive(have, sortCfg[h.key], exclCfg[h.key])
			if len(want) < len(have) {
				excluded = true
			}
			for _, meth := range h.methods {
				calls.l = nil
				res, err := callHook(b.m, meth)
				var got []string
				for _, c := range calls.l {
					if !strings.HasPrefix(c, meth+" ") {
						t.Fatalf("calling %s: %s\n  %s", meth, c, cfgText())
					}
					got = append(got, strings.TrimPrefix(c, meth+" "))
				}
				bad := func(format string, a ...any) {
					t.Fatalf("%s of the manager (%s): %s\n  called %v, expected %v\n  %s", meth, b.how, fmt.Sprintf(format, a...), got, want, cfgText())
				}
				if meth == "StreamObject" {
					sort.Strings(got) // they run at the same time
				}
				seen[meth] = got
				if meth == "WriteLayout" {
					// the only layout describes itself, several are
					// described as the manager
					switch active := seen["BuildStorageRootPath"]; len(active) {
					case 0, 1:
						if j(got) != j(active) || res != "" {
							bad("the active layouts are %v, ocfl_layout.json names %q", active, res)
						}
						if (err != nil) != (len(active) == 1 && fails[active[0]][meth]) {
							bad("error %v", err)
						}
					default:
						if len(got) > 0 || res != extension.GOCFLExtensionManagerName || err != nil {
							bad("the active layouts are %v, ocfl_layout.json names %q, error %v", active, res, err)
						}
					}
					continue
				}
				// stopping early
				wantCalls := append([]string{}, want...)
				if meth == "StreamObject" {
					sort.Strings(wantCalls)
				}
				anyFails := false
				stop := len(wantCalls)
				for i, x := range wantCalls {
					if fails[x][meth] {
						anyFails = true
						switch meth {
						case "GetMetadata", "NeedNewVersion", "DoNewVersion", "BuildObjectExtractPath":
							stop = min(stop, i+1)
						}
						continue
					}
					switch {
					case meth == "NeedNewVersion" && need[x], meth == "GetAreaPath" && !empties[x][meth]:
						stop = min(stop, i+1)
					}
				}
				wantCalls = wantCalls[:stop]
				if exact {
					if strings.Join(got, " ") != strings.Join(wantCalls, " ") {
						bad("other extensions are called than %v", wantCalls)
					}
				} else {
					// overlapping groups: nothing outside of a group is
					// removed, no group has two members
					gotSet := map[string]bool{}
					for _, x := range got {
						gotSet[x] = true
					}
					for _, group := range exclCfg[h.key] {
						c := 0
						for _, x := range uniq(group) {
							if gotSet[x] {
								c++
							}
						}
						if c > 1 {
							bad("%d members of the group %v are active", c, group)
						}
					}
					if stop == len(want) && !anyFails {
						for _, x := range have {
							in := false
							for _, group := range exclCfg[h.key] {
								for _, y := range group {
									in = in || x == y
								}
							}
							if !in && !gotSet[x] {
								bad("%s is in no group but is not called", x)
							}
						}
					}
					continue
				}
				// errors
				called := map[string]bool{}
				for _, x := range got {
					called[x] = true
				}
				mustErr := false
				for x := range called {
					mustErr = mustErr || fails[x][meth]
				}
				switch meth {
				case "GetFixityDigests":
				case "GetAreaPath":
					// the first extension which knows the area answers
					wantPath := ""
					for _, x := range wantCalls {
						if !fails[x][meth] && !empties[x][meth] {
							wantPath = "area/" + x
						}
					}
					if wantPath != "" && (err != nil || res != wantPath) || wantPath == "" && (err == nil) == mustErr {
						bad("returns %q, %v instead of %q", res, err, wantPath)
					}
				default:
					if (err != nil) != mustErr {
						bad("returns error %v", err)
					}
				}
				if err == nil {
					switch meth {
					case "BuildStorageRootPath", "BuildObjectManifestPath", "BuildObjectStatePath", "BuildObjectExtractPath":
						p := "p"
						for _, x := range wantCalls {
							if !empties[x][meth] || meth == "BuildObjectExtractPath" {
								p += "/" + x
							}
						}
						if res != p {
							bad("returns %q instead of %q", res, p)
						}
					case "GetFixityDigests":
						w := []string{}
						for _, x := range wantCalls {
							w = append(w, "x-"+x)
						}
						if len(w) > 0 {
							w = append(w, "md5")
						}
						sort.Strings(w)
						if res != strings.Join(w, " ") {
							bad("returns %q instead of %q", res, w)
						}
					case "GetMetadata":
						w := map[string]any{}
						d1 := map[string]any{}
						for _, x := range wantCalls {
							d1[x] = x + "1"
							w["only "+x] = map[string]any{x: 1}
						}
						if len(d1) > 0 {
							w["d1"] = d1
						}
						if res != j(w) {
							bad("returns %s instead of %s", res, j(w))
						}
					case "NeedNewVersion":
						w := "false"
						for _, x := range wantCalls {
							if need[x] {
								w = "true"
							}
						}
						if res != w {
							bad("returns %s", res)
						}
					}
				}
			}
		}
		if first == nil {
			first = seen
		} else {
			for m, g := range seen {
				if strings.Join(g, " ") != strings.Join(first[m], " ") {
					t.Fatalf("%s of the manager depends on how it was built\n  %s: %v\n  %s: %v\n  %s", m, ms[0].how, first[m], b.how, g, cfgText())
				}
			}
		}
	}
	count(check, cfgText(), n > 1 && (excluded || len(sortCfg) > 0), map[string]any{"extensions": kinds, "sort": sortCfg, "exclusion": exclCfg},
		fmt.Sprintf("extensions=%d", n), fmt.Sprintf("excluded=%v", excluded), fmt.Sprintf("failing=%v", withFail))
}

func uniq(l []string) []string {
	var r []string
	seen := map[string]bool{}
	for _, x := range l {
		if !seen[x] {
			r = append(r, x)
		}
		seen[x] = true
	}
	return r
}

// callHook calls a hook of the manager and renders its result.
func callHook(m ocfl.ExtensionManager, meth string) (res string, err error) {
	switch meth {
	case "BuildStorageRootPath":
		return m.BuildStorageRootPath(nil, "p")
	case "WriteLayout":
		w := newWorld()
		w.mkdir("/r")
		err := m.StoreRootLayout(w.mount("/r"))
		data, _ := w.get("/r/ocfl_layout.json")
		var layout struct {
			Extension string `json:"extension"`
		}
		_ = json.Unmarshal(data, &layout)
		return layout.Extension, err
	case "BuildObjectManifestPath":
		return m.BuildObjectManifestPath(nil, "p", "area")
	case "BuildObjectStatePath":
		return m.BuildObjectStatePath(nil, "p", "area")
	case "BuildObjectExtractPath":
		return m.BuildObjectExtractPath(nil, "p", "area")
	case "AddFileBefore":
		return "", m.AddFileBefore(nil, nil, "s", "d", "a", false)
	case "AddFileAfter":
		return "", m.AddFileAfter(nil, nil, []string{"s"}, "d", "x", "a", false)
	case "UpdateFileBefore":
		return "", m.UpdateFileBefore(nil, nil, "s", "d", "a", false)
	case "UpdateFileAfter":
		return "", m.UpdateFileAfter(nil, nil, "s", "d", "a", false)
	case "DeleteFileBefore":
		return "", m.DeleteFileBefore(nil, "d", "a")
	case "DeleteFileAfter":
		return "", m.DeleteFileAfter(nil, "d", "a")
	case "UpdateObjectBefore":
		return "", m.UpdateObjectBefore(nil)
	case "UpdateObjectAfter":
		return "", m.UpdateObjectAfter(nil)
	case "GetFixityDigests":
		var l []string
		for _, d := range m.GetFixityDigests() {
			l = append(l, string(d))
		}
		return strings.Join(l, " "), nil
	case "GetMetadata":
		md, err := m.GetMetadata(nil)
		return j(md), err
	case "GetAreaPath":
		return m.GetAreaPath(nil, "area")
	case "StreamObject":
		return "", m.StreamObject(idOnly{}, strings.NewReader("streamed"), []string{"f"}, "d")
	case "NeedNewVersion":
		b, err := m.NeedNewVersion(nil)
		return fmt.Sprint(b), err
	case "DoNewVersion":
		return "", m.DoNewVersion(nil)
	}
	panic(meth)
}

// idOnly is an object for hooks which only need its id.
type idOnly struct{ ocfl.Object }

func (idOnly) GetID() string { return "id" }

// C20: order and exclusion of extensions.
func TestC20(t *testing.T) {
	runCheck(t, "manager", 6000, 150000, propManager)
}
