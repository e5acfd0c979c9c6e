package zzverif

// C12: objects are found by id, listed once and never overwritten by creation.

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"testing"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"pgregory.net/rapid"
)

type idLayout struct {
	exts []extCfg
	ids  []string
}

func idLayouts() []idLayout {
	general := []string{"urn:x:one", "urn:x:two", "x", "x/y", "http://example.org/a b", "http:/example.org/a b", "ä/ö", strings.Repeat("l/", 70) + "e", strings.Repeat("n", 140), "A", "a"}
	base := func(e ...extCfg) []extCfg { return append([]extCfg{initialExt, rootManager}, e...) }
	l := []idLayout{
		{base(ext("0002-flat-direct-storage-layout")), []string{"a", "b", "a/b", "a/b/c", "a/c", "A", "a b", "aa", "a/", "b//", "http://e/x", "http:/e/x", "extensions2"}},
		{base(ext("0006-flat-omit-prefix-storage-layout", "delimiter", ":")), []string{"urn:a:x", "urn:b:x", "x", "X", "urn:y", "p:q/r", "p:q", "info:q/r/s", "z"}},
		{base(ext("0007-n-tuple-omit-prefix-storage-layout", "delimiter", ":", "tupleSize", 2, "numberOfTuples", 2, "zeroPadding", "left", "reverseObjectRoot", false)), []string{"a:1234", "b:1234", "1234", "12345", "x:12", "12", "012", "0012"}},
		{base(ext("0003-hash-and-id-n-tuple-storage-layout", "digestAlgorithm", "md5", "tupleSize", 2, "numberOfTuples", 2)), general},
		{base(ext("0004-hashed-n-tuple-storage-layout", "digestAlgorithm", "sha256", "tupleSize", 3, "numberOfTuples", 3, "shortObjectRoot", false)), general},
		{base(ext("NNNN-pairtree-storage-layout", "uriBase", "", "storeDir", "", "shortyLength", 2, "digestAlgorithm", "md5")), []string{"ab", "abcd", "abce", "abc", "ab/c", "ab=c", "xy", "a:b", "a+b", "a.b"}},
		{base(ext("NNNN-direct-path-layout")), []string{"a", "a/b", "a/b/c", "c/d", "c/e", "c", "x y"}},
		{base(dclean(false)), []string{"~a", "a", " a", "a:b", "a*b", "a_b", "a/b", "b/c", "b"}},
		{base(dclean(true)), []string{"~a", "a", " a", "a:b", "a*b", "a=u003Ab", "a/b", "b/c", "b"}},
	}
	for _, c := range layouts() {
		if c.name == "default" {
			l = append(l, idLayout{c.exts, []string{"urn:x:one", "urn:y:one", "one", "two"}})
		}
	}
	return l
}

// object folder names which the name of another object contains
func within(a, b string) bool { return a == b || strings.HasPrefix(a, b+"/") }

func TestC12(t *testing.T) {
	runCheck(t, "roots", 6000, 150000, func(t *rapid.T) {
		lay := rapid.SampledFrom(idLayouts()).Draw(t, "layout")
		cfg := &histCfg{Version: rapid.SampledFrom([]string{"1.0", "1.1"}).Draw(t, "version"), Layout: lay.exts, Digest: "sha256", Exts: []extCfg{initialExt, objManager}}
		h, err := newHist(cfg)
		if err != nil {
			t.Fatalf("creating the storage root with %s: %v", j(cfg.Layout), err)
		}
		// an independent instance of the layout
		ref, err := newManager(h.f, lay.exts)
		if err != nil {
			t.Fatal(err)
		}
		created := map[string]string{} // id -> folder
		var ops []string
		fail := func(format string, a ...any) {
			t.Helper()
			t.Fatalf("%s\n  layout %s ocfl %s\n  %s", fmt.Sprintf(format, a...), j(lay.exts[len(lay.exts)-1]), cfg.Version, strings.Join(ops, "\n  "))
		}
		refused, reloads := 0, 0
		check := func() {
			t.Helper()
			if v := string(h.sr.GetVersion()); v != cfg.Version {
				fail("version of the storage root is %q", v)
			}
			var want []string
			for _, f := range created {
				want = append(want, f)
			}
			sort.Strings(want)
			got, err := h.sr.GetObjectFolders()
			if err != nil {
				fail("GetObjectFolders: %v", err)
			}
			got = append([]string{}, got...)
			sort.Strings(got)
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				fail("object folders are %q instead of %q", got, want)
			}
			for _, id := range lay.ids {
				folder, ok := created[id]
				exists, err := h.sr.ObjectExists(id)
				if ok {
					if err != nil || !exists {
						fail("object %q is not reported (%v)", id, err)
					}
					o, err := h.sr.LoadObjectByID(id)
					if err != nil {
						fail("object %q cannot be loaded: %v", id, err)
					}
					if o.GetID() != id {
						fail("loading %q yields %q", id, o.GetID())
					}
					o, err = h.sr.LoadObjectByFolder(folder)
					if err != nil || o.GetID() != id {
						fail("folder %q of %q: %v", folder, id, err)
					}
					continue
				}
				if o, err := h.sr.LoadObjectByID(id); err == nil {
					fail("id %q was never created but yields object %q", id, o.GetID())
				}
				if exists {
					p, err := ref.BuildStorageRootPath(h.sr, id)
					p = path.Clean("/" + p)[1:]
					taken := false
					for _, f := range created {
						taken = taken || f == p
					}
					if err != nil || !taken {
						fail("id %q was never created but is reported to exist", id)
					}
				}
			}
		}
		n := rapid.IntRange(2, 9).Draw(t, "ops")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 7).Draw(t, "op") {
			case 0:
				ops = append(ops, "reload")
				reloads++
				if err := h.reload(); err != nil {
					fail("reload: %v", err)
				}
			case 1:
				ops = append(ops, "create the storage root again")
				before := h.w.snapshot("/")
				m, err := newManager(h.f, lay.exts)
				if err != nil {
					t.Fatal(err)
				}
				if _, err := ocfl.CreateStorageRoot(newCtx(), h.fsys, "1.1", h.f, m, "sha512", logger); err == nil {
					fail("creating a storage root in a folder with content succeeds")
				}
				if d := diffSnap(before, h.w.snapshot("/")); d != "" {
					fail("creating the storage root again changed %s", d)
				}
			default:
				id := rapid.SampledFrom(lay.ids).Draw(t, "id")
				ops = append(ops, fmt.Sprintf("create %q", id))
				p, perr := ref.BuildStorageRootPath(h.sr, id)
				p = path.Clean("/" + p)[1:]
				want := perr == nil
				for _, f := range created {
					if within(p, f) || within(f, p) {
						want = false
					}
				}
				before := h.w.snapshot("/")
				m, err := newManager(h.f, cfg.Exts)
				if err != nil {
					t.Fatal(err)
				}
				o, err := h.sr.CreateObject(id, h.sr.GetVersion(), digestAlg(h.cfg.Digest), nil, m)
				if err != nil {
					if want {
						fail("creating %q in free folder %q: %v", id, p, err)
					}
					refused++
					if d := diffSnap(before, h.w.snapshot("/")); d != "" {
						fail("refused creation of %q changed %s", id, d)
					}
					break
				}
				if !want {
					fail("creating %q in %q succeeds", id, p)
				}
				src := newWorld().mount("/none")
				if _, err := o.StartUpdate(src, "m", "u", "mailto:u", false); err != nil {
					fail("StartUpdate: %v", err)
				}
				if rapid.Bool().Draw(t, "withContent") {
					if err := o.AddData([]byte(id), "f/"+fmt.Sprint(i), true, "", false, false); err != nil {
						fail("AddData: %v", err)
					}
				}
				if err := o.EndUpdate(); err != nil {
					fail("EndUpdate: %v", err)
				}
				if err := o.Close(); err != nil {
					fail("Close: %v", err)
				}
				created[id] = p
				after := h.w.snapshot(rootDir)
				if d := after[p+"/0=ocfl_object_"+cfg.Version]; d == "" {
					fail("object %q is not in folder %q: %q", id, p, objectFolders(after))
				}
				inv, where, err := h.inventory(id)
				if err != nil || where != p || inv.id != id {
					fail("inventory of %q: %v in %q", id, err, where)
				}
			}
			check()
		}
		count("roots", j(lay.exts)+j(ops), len(created) >= 2, map[string]any{"layout": lay.exts[len(lay.exts)-1].name(), "operations": ops},
			lay.exts[len(lay.exts)-1].name(), map[bool]string{true: "refused creation"}[refused > 0], map[bool]string{true: "reload"}[reloads > 0])
	})
}
