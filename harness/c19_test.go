package zzverif

// C19: extension configurations survive being stored and loaded.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"pgregory.net/rapid"
)

// some valid schema of the metafile extension
const someSchema = `{"$schema":"https://json-schema.org/draft/2020-12/schema","type":"object","properties":{"title":{"type":"string"}},"required":["title"]}`

var schemaServer struct {
	once sync.Once
	srv  *httptest.Server
	hits atomic.Int64
}

func schemaURL() string {
	s := &schemaServer
	s.once.Do(func() {
		s.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			s.hits.Add(1)
			_, _ = w.Write([]byte(someSchema))
		}))
	})
	return s.srv.URL + "/schema.json"
}

// validPools holds valid values of the parameters of extensions.
var validPools = map[string][]any{
	"digestAlgorithm":             {"sha256", "sha512", "md5", "sha1"},
	"tupleSize":                   {1, 2, 3, 5, 32},
	"numberOfTuples":              {1, 2, 3, 4},
	"shortObjectRoot":             {true, false},
	"delimiter":                   {":", "edu/", "::", "-"},
	"zeroPadding":                 {"left", "right"},
	"reverseObjectRoot":           {true, false},
	"maxPathnameLen":              {32000, 40, 200},
	"maxPathSegmentLen":           {127, 20, 60},
	"replacementString":           {"_", "", "-", "xx"},
	"whitespaceReplacementString": {" ", "", "_"},
	"utfEncode":                   {true, false},
	"fallbackDigestAlgorithm":     {"sha512", "md5"},
	"fallbackFolder":              {"fallback", "f"},
	"numberOfFallbackTuples":      {0, 1, 3},
	"fallbackTupleSize":           {0, 1, 3},
	"maxFilenameLen":              {60, 32000},
	"fallbackSubdirs":             {2, 3},
	"encodeUTF":                   {true},
	"uriBase":                     {"", "info:", "https://x.org"},
	"storeDir":                    {"", "x"},
	"shortyLength":                {1, 2, 3},
	"storageType":                 {"extension", "area", "path"},
	"storageName":                 {"metadata", "content", "data"},
	"folders":                     {"", ".keep"},
	"compress":                    {"none", "gzip", "brotli"},
	"actions":                     {[]any{}, []any{"siegfried"}, []any{"siegfried", "identify"}},
	"name":                        {"info.json", "meta.json"},
	"primaryDescriptiveMetadata":  {"metadata:info.json", "info:metadata:info.json", ""},
	"metsFile":                    {"mets.xml", "m.xml"},
	"premisFile":                  {"premis.xml", "p.xml"},
	"ext":                         {"png", "jpg"},
	"width":                       {256, 64},
	"height":                      {256, 64},
	"shortFilename":               {true, false},
	"singleDirectory":             {true, false},
	"subPath": {map[string]any{"content": map[string]any{"path": "data", "description": "payload"}},
		map[string]any{"content": map[string]any{"path": "", "description": ""}, "metadata": map[string]any{"path": "meta", "description": "ä"}},
		map[string]any{"content": map[string]any{"path": "a/b", "description": "x"}, "metadata": map[string]any{"path": "metadata", "description": "y"}, "other": map[string]any{"path": "a", "description": "<z> & \"q\""}}},
}

var mandatory = map[string]bool{"delimiter": true, "shortyLength": true, "subPath": true}

// genValidExt draws a valid configuration of an extension.
func genValidExt(t *rapid.T, name string) extCfg {
	c := extCfg{"extensionName": name}
	fields := append([]string{}, cfgFields[name]...)
	if name == "NNNN-indexer" {
		fields = append(fields, "actions")
	}
	for _, f := range fields {
		p, ok := validPools[f]
		if !ok {
			continue
		}
		old := f == "maxFilenameLen" || f == "fallbackSubdirs" || f == "encodeUTF"
		must := mandatory[f] || f == "digestAlgorithm" && name == "NNNN-pairtree-storage-layout"
		k := rapid.IntRange(-1, len(p)-1).Draw(t, f)
		if old && (rapid.IntRange(0, 3).Draw(t, f+"Old") > 0) {
			k = -1
		}
		if k < 0 && must {
			k = 0
		}
		if k >= 0 {
			c[f] = p[k]
		}
	}
	if name == "NNNN-direct-clean-path-layout" {
		// aliases are used instead of the current names
		for alias, now := range map[string]string{"maxFilenameLen": "maxPathnameLen", "fallbackSubdirs": "numberOfFallbackTuples", "encodeUTF": "utfEncode"} {
			if _, ok := c[alias]; ok {
				delete(c, now)
			}
		}
	}
	if name == "NNNN-metafile" {
		if rapid.IntRange(0, 3).Draw(t, "schemaByURL") == 0 {
			c["schemaUrl"] = schemaURL()
		} else {
			c["schema"] = rapid.SampledFrom([]string{"schema.json", "s.json"}).Draw(t, "schema")
			c["schemaUrl"] = rapid.SampledFrom([]string{"http://localhost.invalid/s.json", "https://example.org/a.json"}).Draw(t, "schemaUrl")
			c["__files"] = map[string]string{c["schema"].(string): someSchema}
		}
	}
	return c
}

var rootLayouts = []string{"0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "0004-hashed-n-tuple-storage-layout", "0006-flat-omit-prefix-storage-layout",
	"0007-n-tuple-omit-prefix-storage-layout", "NNNN-pairtree-storage-layout", "NNNN-direct-clean-path-layout", "NNNN-direct-path-layout"}

var objExts = []string{"0001-digest-algorithms", "NNNN-direct-clean-path-layout", "NNNN-direct-path-layout", "NNNN-content-subpath", "NNNN-metafile", "NNNN-filesystem", "NNNN-indexer", "NNNN-mets", "NNNN-migration", "NNNN-thumbnail"}

// genExtSet draws a set of extensions with its manager, root or object.
// managerAs tells where the manager configuration is.
func genExtSet(t *rapid.T, root bool) (cfgs []extCfg, managerAs string) {
	pool, hooks := objExts, []string{"ObjectContentPath", "ObjectExtractPath", "ObjectExternalPath"}
	if root {
		pool, hooks = rootLayouts, []string{"StorageRootPath"}
	}
	n := rapid.IntRange(1, len(pool)).Draw(t, "n")
	if rapid.Bool().Draw(t, "few") {
		n = rapid.IntRange(1, 2).Draw(t, "nFew")
	}
	names := rapid.Permutation(pool).Draw(t, "names")[:n]
	for _, name := range names {
		cfgs = append(cfgs, genValidExt(t, name))
	}
	m := ext("NNNN-gocfl-extension-manager", "sort", map[string]any{}, "exclusion", map[string]any{})
	for _, h := range hooks {
		if rapid.Bool().Draw(t, "sort"+h) {
			m["sort"].(map[string]any)[h] = rapid.Permutation(names).Draw(t, "sorted"+h)
		}
		if n > 1 && rapid.Bool().Draw(t, "excl"+h) {
			k := rapid.IntRange(2, n).Draw(t, "group"+h)
			m["exclusion"].(map[string]any)[h] = [][]string{rapid.Permutation(names).Draw(t, "excluded"+h)[:k]}
		}
	}
	switch managerAs = rapid.SampledFrom([]string{"both", "both", "both", "initial", "none"}).Draw(t, "managerAs"); managerAs {
	case "both":
		cfgs = append(cfgs, m, initialExt)
	case "initial":
		// the manager itself lies in the folder of the initial extension
		m["__folder"] = "initial"
		cfgs = append(cfgs, m)
	}
	return cfgs, managerAs
}

func lowerKeys(v any) map[string]any {
	var m map[string]any
	b, err := json.Marshal(v)
	if err != nil {
		return map[string]any{"error": err.Error()}
	}
	_ = json.Unmarshal(b, &m)
	r := map[string]any{}
	for k, v := range m {
		r[strings.ToLower(k)] = v
	}
	return r
}

func plain(v any) any {
	b, _ := json.Marshal(v)
	var r any
	_ = json.Unmarshal(b, &r)
	return r
}

// effective describes the configurations of all extensions of a manager.
func effective(m ocfl.ExtensionManager) map[string]any {
	r := map[string]any{}
	for _, e := range m.GetExtensions() {
		r[e.GetName()] = lowerKeys(e.GetConfig())
	}
	r["manager"] = lowerKeys(m.GetConfig())
	return r
}

// mapping describes what a manager makes of ids or paths.
func mapping(m ocfl.ExtensionManager, root bool, names []string) []string {
	var r []string
	add := func(what, name, p string, err error) {
		if err != nil {
			p = "error"
		}
		r = append(r, fmt.Sprintf("%s(%q) = %q", what, name, p))
	}
	for _, n := range names {
		if root {
			p, err := m.BuildStorageRootPath(nil, n)
			add("BuildStorageRootPath", n, p, err)
			continue
		}
		for _, area := range []string{"content", "metadata", "", "unknown"} {
			p, err := m.BuildObjectManifestPath(nil, n, area)
			add("BuildObjectManifestPath "+area, n, p, err)
			p, err = m.BuildObjectStatePath(nil, n, area)
			add("BuildObjectStatePath "+area, n, p, err)
			p, err = m.BuildObjectExtractPath(nil, n, area)
			add("BuildObjectExtractPath "+area, n, p, err)
			p, err = m.GetAreaPath(nil, area)
			add("GetAreaPath", area, p, err)
		}
	}
	fd := []string{}
	for _, d := range m.GetFixityDigests() {
		fd = append(fd, string(d))
	}
	return append(r, "fixity "+strings.Join(fd, ","))
}

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return a[i] + " / " + strings.Join(b[i:min(i+1, len(b))], "")
		}
	}
	return fmt.Sprint(len(a), " / ", len(b))
}

func TestC19(t *testing.T) {
	runCheck(t, "managers", 14000, 300000, func(t *rapid.T) {
		root := rapid.IntRange(0, 2).Draw(t, "root") == 0
		cfgs, managerAs := genExtSet(t, root)
		params := map[string]string{}
		persist := map[string]string{}
		if !root && rapid.Bool().Draw(t, "params") {
			params["ext-NNNN-content-subpath-area"] = rapid.SampledFrom([]string{"content", "metadata", ""}).Draw(t, "area")
			if rapid.Bool().Draw(t, "metsParam") {
				persist["ext-NNNN-mets-descriptive-metadata"] = rapid.SampledFrom([]string{"info:metadata:x.json", "", "dc:y.json"}).Draw(t, "metsValue")
			}
		}
		all := map[string]string{}
		for k, v := range params {
			all[k] = v
		}
		for k, v := range persist {
			all[k] = v
		}
		fail := func(format string, a ...any) {
			t.Fatalf("extensions %s, parameters %v: %s", j(cfgs), all, cut(fmt.Sprintf(format, a...), 1500))
		}
		f := fullFactory(all)
		w := newWorld()
		writeExtDir(w, "/cfg", cfgs)
		m1, err := f.LoadExtensions(w.mount("/cfg"), nil)
		if err != nil {
			fail("cannot be loaded: %v", err)
		}
		// what was configured is in effect
		eff1 := effective(m1)
		for _, c := range cfgs {
			got, ok := eff1[c.name()].(map[string]any)
			if c.name() == "NNNN-gocfl-extension-manager" {
				got, ok = eff1["manager"].(map[string]any)
			} else if c.name() == "initial" {
				continue
			}
			if !ok {
				fail("extension %s is missing after loading", c.name())
			}
			for k, v := range c {
				if strings.HasPrefix(k, "__") {
					continue
				}
				if n := map[string]string{"maxFilenameLen": "maxPathnameLen", "fallbackSubdirs": "numberOfFallbackTuples", "encodeUTF": "utfEncode"}[k]; n != "" {
					k = n
				}
				want := plain(v)
				if k == "primaryDescriptiveMetadata" {
					if p, ok := persist["ext-NNNN-mets-descriptive-metadata"]; ok {
						want = p
					}
				}
				have := got[strings.ToLower(k)]
				if want == "" && have == nil {
					have = ""
				}
				if !reflect.DeepEqual(have, want) {
					fail("%s: %s is %v instead of %v", c.name(), k, have, want)
				}
			}
		}
		hits := schemaServer.hits.Load()
		store := func(m ocfl.ExtensionManager) (*world, map[string]string) {
			w := newWorld()
			w.mkdir("/store")
			m.SetFS(w.mount("/store"), true)
			if err := m.WriteConfig(); err != nil {
				fail("cannot be stored: %v", err)
			}
			return w, w.snapshot("/store")
		}
		names := []string{"urn:x:one", "a/b c", "data/x", "meta/y", "a/b/file", "id:edu/ä", strings.Repeat("long", 20)}
		for i := 0; i < 2; i++ {
			names = append(names, genID(t, "name"))
		}
		map1 := mapping(m1, root, names)
		w1, files1 := store(m1)
		for name, content := range files1 {
			if strings.HasSuffix(name, "/config.json") {
				var c struct {
					ExtensionName string `json:"extensionName"`
				}
				if err := json.Unmarshal([]byte(content), &c); err != nil || !strings.HasSuffix(name, c.ExtensionName+"/config.json") {
					fail("%s holds %s", name, content)
				}
			}
		}
		f2 := fullFactory(params)
		m2, err := f2.LoadExtensions(w1.mount("/store"), nil)
		if err != nil {
			fail("cannot be loaded after having been stored: %v", err)
		}
		if eff2 := effective(m2); !reflect.DeepEqual(eff1, eff2) {
			fail("effective configuration is %s after storing and loading, was %s", j(eff2), j(eff1))
		}
		if map2 := mapping(m2, root, names); !reflect.DeepEqual(map1, map2) {
			fail("after storing and loading: %s", firstDiff(map1, map2))
		}
		_, files2 := store(m2)
		if d := filesDiff(files2, files1); d != "" {
			fail("storing again writes other files: %s", d)
		}
		if schemaServer.hits.Load() != hits && reflect.DeepEqual(params, all) && nshards == 1 {
			fail("the stored extensions need the network")
		}
		var l []string
		for _, c := range cfgs {
			l = append(l, c.name())
		}
		count("managers", j(cfgs)+j(all), len(l) > 1, map[string]any{"extensions": cfgs, "params": all}, map[bool]string{true: "root", false: "object"}[root], "manager:"+managerAs)
	})

	runCheck(t, "roots", 1500, 40000, func(t *rapid.T) {
		// layouts as they are stored in roots, with objects in them
		n := rapid.IntRange(1, 2).Draw(t, "layouts")
		lay := rapid.Permutation(rootLayouts).Draw(t, "layoutNames")[:n]
		mgr := ext("NNNN-gocfl-extension-manager", "sort", map[string]any{"StorageRootPath": lay}, "exclusion", map[string]any{})
		excl := n > 1 && rapid.Bool().Draw(t, "exclusive")
		if excl {
			mgr["exclusion"].(map[string]any)["StorageRootPath"] = [][]string{lay}
		}
		cfg := &histCfg{Version: rapid.SampledFrom([]string{"1.0", "1.1"}).Draw(t, "version"), Layout: []extCfg{initialExt, mgr}, Digest: "sha256"}
		for _, l := range lay {
			cfg.Layout = append(cfg.Layout, genValidExt(t, l))
		}
		cfg.Exts = []extCfg{initialExt, objManager}
		for _, e := range []string{"0001-digest-algorithms", "NNNN-direct-clean-path-layout", "NNNN-content-subpath"} {
			if rapid.Bool().Draw(t, "obj"+e) {
				cfg.Exts = append(cfg.Exts, genValidExt(t, e))
			}
		}
		fail := func(format string, a ...any) {
			t.Fatalf("root %s, object %s: %s", j(cfg.Layout), j(cfg.Exts), cut(fmt.Sprintf(format, a...), 1500))
		}
		h, err := newHist(cfg)
		if err != nil {
			fail("cannot create storage root: %v", err)
		}
		rootFiles := h.w.snapshot(rootDir)
		var layout struct{ Extension, Description string }
		if err := json.Unmarshal([]byte(rootFiles["ocfl_layout.json"]), &layout); err != nil {
			fail("ocfl_layout.json: %v", err)
		}
		want := lay[0]
		if n > 1 && !excl {
			want = "NNNN-gocfl-extension-manager"
		}
		if layout.Extension != want {
			fail("ocfl_layout.json names %q, but %q decides where objects are", layout.Extension, want)
		}
		m := mustManager(t, h.f, cfg.Layout)
		id := rapid.SampledFrom([]string{"urn:x:one", "edu/y", "simple", "abc::x-y", "a-b"}).Draw(t, "id")
		where, err := m.BuildStorageRootPath(nil, id)
		if err != nil {
			count("roots", "", false, nil, "id refused")
			return
		}
		if err := h.run(&session{ID: id, User: "u", Addr: "mailto:u", Steps: []step{{Kind: "data", Paths: []string{"f.txt"}, Blob: blob{Size: 9, Tag: 1}}}}); err != nil {
			fail("id %q: %v", id, err)
		}
		if err := h.reload(); err != nil {
			fail("%v", err)
		}
		one := h.w.snapshot(rootDir)
		if l := objectFolders(one); len(l) != 1 || l[0] != cleanJoin(where) {
			fail("object %q is in %q instead of %q", id, l, where)
		}
		if err := h.run(&session{ID: id, User: "u", Addr: "mailto:u", Steps: []step{{Kind: "data", Paths: []string{"g.txt"}, Blob: blob{Size: 9, Tag: 2}}}}); err != nil {
			fail("id %q, second version: %v", id, err)
		}
		two := h.w.snapshot(rootDir)
		for name, c := range one {
			if strings.Contains(name, "extensions/") || !strings.HasPrefix(name, cleanJoin(where)+"/") {
				if two[name] != c {
					fail("%s was %q and is %q after an update", name, c, two[name])
				}
			}
		}
		for name := range two {
			if _, ok := one[name]; !ok && strings.Contains(name, "extensions/") {
				fail("%s appeared with an update", name)
			}
		}
		if l := objectFolders(two); len(l) != 1 {
			fail("second version went elsewhere: %q", l)
		}
		for name := range rootFiles {
			if two[name] != rootFiles[name] {
				fail("%s of the storage root was changed", name)
			}
		}
		count("roots", j(cfg.Layout)+j(cfg.Exts)+id, true, map[string]any{"layout": cfg.Layout, "object": cfg.Exts, "id": id}, fmt.Sprintf("layouts:%d", n))
	})
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
