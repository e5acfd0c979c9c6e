package zzverif

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"testing"

	"github.com/andybalholm/brotli"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
	"pgregory.net/rapid"
)

// fullFactory knows every registered extension.
func fullFactory(params ...map[string]string) *ocfl.ExtensionFactory {
	p := map[string]string{}
	if len(params) > 0 {
		p = params[0]
	}
	return newFactory(factoryOpts{
		params:    p,
		migration: &migration.Migration{Functions: map[string]*migration.Function{}},
		thumbnail: &thumbnail.Thumbnail{Functions: map[string]*thumbnail.Function{}},
		creators: map[string]func(fs.FS) (ocfl.Extension, error){
			extension.IndexerName: func(fsys fs.FS) (ocfl.Extension, error) {
				return extension.NewIndexerFS(fsys, "", nil, false, logger)
			},
		},
	})
}

// pools of values for the parameters of extensions.
var cfgPools = map[string][]any{
	"digestAlgorithm":             {"sha256", "sha512", "md5", "SHA256", "", "nope", "blake2b-512"},
	"tupleSize":                   {0, 1, 3, 32, 33, -1, 1e9, "3"},
	"numberOfTuples":              {0, 1, 3, 32, 33, -1, 1e9, 1.5},
	"shortObjectRoot":             {true, false},
	"delimiter":                   {":", "", "edu/", "ä", "(", "\x00"},
	"zeroPadding":                 {"left", "right", "", "middle"},
	"reverseObjectRoot":           {true, false},
	"maxPathnameLen":              {32000, 0, -1, 1, 20},
	"maxPathSegmentLen":           {127, 0, -1, 1, 1 << 40},
	"replacementString":           {"_", "", "/", "ä"},
	"whitespaceReplacementString": {" ", "", "/", ".."},
	"utfEncode":                   {true, false},
	"fallbackDigestAlgorithm":     {"sha512", "md5", "", "x"},
	"fallbackFolder":              {"fallback", "", "..", "/"},
	"numberOfFallbackTuples":      {0, 1, 100, -1},
	"fallbackTupleSize":           {0, 1, 100, -1},
	"maxFilenameLen":              {0, 10, -1},
	"fallbackSubdirs":             {0, 3, -1},
	"encodeUTF":                   {true, false},
	"uriBase":                     {"", "info:"},
	"storeDir":                    {"", "x"},
	"shortyLength":                {0, 1, 2, 100, -1},
	"storageType":                 {"extension", "area", "path", "Area", "", "nowhere"},
	"storageName":                 {"metadata", "", "content", "..", "a/b", "/"},
	"folders":                     {"", ".keep", "/"},
	"compress":                    {"none", "gzip", "brotli", "", "zip"},
	"name":                        {"info.json", "", "config.json", ".."},
	"schema":                      {"schema.json", "config.json", "", "nothing.json", ".."},
	"schemaUrl":                   {"http://localhost.invalid/s.json", "", "%", "file:///nonexistent"},
	"subPath":                     {map[string]any{"content": map[string]any{"path": "", "description": ""}}, map[string]any{"metadata": map[string]any{"path": "meta", "description": ""}, "content": map[string]any{"path": "data", "description": ""}}, map[string]any{"content": map[string]any{"path": "..", "description": ""}}, map[string]any{}},
	"extension":                   {"NNNN-gocfl-extension-manager", "initial", "", "nope", "../x", "NNNN-indexer"},
	"sort":                        {map[string]any{}, map[string]any{"StorageRootPath": []any{"NNNN-direct-path-layout", "0002-flat-direct-storage-layout"}}, map[string]any{"Metadata": []any{"", "NNNN-metafile"}}},
	"exclusion":                   {map[string]any{}, map[string]any{"StorageRootPath": []any{[]any{"NNNN-direct-path-layout", "0002-flat-direct-storage-layout"}, []any{}}}},
	"primaryDescriptiveMetadata":  {"metadata:info.json", "", "x"},
	"metsFile":                    {"mets.xml", "", "/"},
	"premisFile":                  {"premis.xml", ""},
	"ext":                         {"png", ""},
	"width":                       {256, 0},
	"height":                      {256},
	"shortFilename":               {true, false},
	"singleDirectory":             {true, false},
	"paths":                       {map[string]any{}},
	"localCache":                  {true, false},
}

var cfgFields = map[string][]string{
	"initial":                                 {"extension"},
	"NNNN-gocfl-extension-manager":            {"sort", "exclusion"},
	"0001-digest-algorithms":                  {},
	"0002-flat-direct-storage-layout":         {},
	"0003-hash-and-id-n-tuple-storage-layout": {"digestAlgorithm", "tupleSize", "numberOfTuples"},
	"0004-hashed-n-tuple-storage-layout":      {"digestAlgorithm", "tupleSize", "numberOfTuples", "shortObjectRoot"},
	"0006-flat-omit-prefix-storage-layout":    {"delimiter"},
	"0007-n-tuple-omit-prefix-storage-layout": {"delimiter", "tupleSize", "numberOfTuples", "zeroPadding", "reverseObjectRoot"},
	"NNNN-direct-clean-path-layout":           {"maxPathnameLen", "maxPathSegmentLen", "replacementString", "whitespaceReplacementString", "utfEncode", "fallbackDigestAlgorithm", "fallbackFolder", "numberOfFallbackTuples", "fallbackTupleSize", "maxFilenameLen", "fallbackSubdirs", "encodeUTF"},
	"NNNN-direct-path-layout":                 {},
	"NNNN-pairtree-storage-layout":            {"uriBase", "storeDir", "shortyLength", "digestAlgorithm"},
	"NNNN-content-subpath":                    {"subPath"},
	"NNNN-metafile":                           {"storageType", "storageName", "name", "schema", "schemaUrl"},
	"NNNN-filesystem":                         {"folders", "storageType", "storageName", "compress"},
	"NNNN-indexer":                            {"storageType", "storageName", "compress"},
	"NNNN-mets":                               {"storageType", "storageName", "primaryDescriptiveMetadata", "metsFile", "premisFile"},
	"NNNN-migration":                          {"storageType", "storageName", "compress"},
	"NNNN-thumbnail":                          {"storageType", "storageName", "compress", "ext", "width", "height", "shortFilename", "singleDirectory"},
	"unknown-extension":                       {},
}

// genHostileExts adds a random extensions folder below dir.
func genHostileExts(t *rapid.T, files map[string]string, dir string, o *fObject) {
	names := sortedKeys(cfgFields)
	if o != nil {
		// layouts matter in roots only
		names = []string{"initial", "NNNN-gocfl-extension-manager", "0001-digest-algorithms", "NNNN-direct-clean-path-layout", "NNNN-content-subpath", "NNNN-metafile", "NNNN-filesystem", "NNNN-indexer", "NNNN-mets", "NNNN-migration", "NNNN-thumbnail", "unknown-extension"}
	}
	n := rapid.IntRange(0, 4).Draw(t, "nexts")
	for i := 0; i < n; i++ {
		name := rapid.SampledFrom(names).Draw(t, "ext")
		sane := rapid.IntRange(0, 2).Draw(t, "sane") > 0
		cfg := extCfg{"extensionName": name}
		for _, f := range cfgFields[name] {
			k := 0
			if !sane {
				k = rapid.IntRange(0, len(cfgPools[f])-1).Draw(t, f)
			} else if f == "compress" || f == "storageType" {
				k = rapid.IntRange(0, 2).Draw(t, f)
			}
			cfg[f] = cfgPools[f][k]
		}
		folder := dir + "/extensions/" + name
		if !sane {
			switch rapid.IntRange(0, 8).Draw(t, "odd") {
			case 0:
				delete(cfg, "extensionName")
			case 1:
				cfg["extensionName"] = "something-else"
			case 2:
				folder += "x"
			case 3:
				files[folder+"/"] = ""
				continue
			}
		}
		files[folder+"/config.json"] = j(cfg)
		if o != nil {
			genExtData(t, files, folder, cfg, o)
		}
	}
}

func compressed(kind string, data []byte) (string, string) {
	var b bytes.Buffer
	switch kind {
	case "gzip":
		w := gzip.NewWriter(&b)
		_, _ = w.Write(data)
		_ = w.Close()
		return b.String(), ".gz"
	case "brotli":
		w := brotli.NewWriter(&b)
		_, _ = w.Write(data)
		_ = w.Close()
		return b.String(), ".br"
	}
	return string(data), ""
}

// genExtData adds the data files an extension keeps in its own folder.
func genExtData(t *rapid.T, files map[string]string, folder string, cfg extCfg, o *fObject) {
	s, _ := cfg["storageName"].(string)
	if s == ".." || s == "/" {
		s = ""
	}
	storage := strings.TrimSuffix(folder+"/"+s, "/")
	// the other storage types keep the data in the content folder
	switch cfg["storageType"] {
	case "area":
		storage = "" // set per version below
	case "path":
		storage = ""
	}
	last := o.invs[len(o.invs)-1]
	var digests, conts, logicals []any
	man, _ := last["manifest"].(map[string]any)
	for _, d := range sortedKeys(man) {
		digests = append(digests, d)
		if l, ok := man[d].([]any); ok {
			conts = append(conts, l...)
		}
	}
	for _, v := range o.Vers {
		for _, p := range sortedKeys(v.State) {
			logicals = append(logicals, p)
		}
	}
	any1 := func(label string, l []any) any {
		l = append([]any{}, l...)
		l = append(l, "nothing", "")
		return l[rapid.IntRange(0, len(l)-1).Draw(t, label)]
	}
	lines := func(kind string) []byte {
		var b strings.Builder
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "lines"); i < n; i++ {
			var l any
			switch kind {
			case "filesystem":
				l = map[string]any{"path": any1("path", logicals), "meta": map[string]any{"aTime": "2020-01-01T00:00:00Z", "mTime": "2020-01-01T00:00:00Z", "cTime": "2020-01-01T00:00:00Z", "os": "linux", "stateVersion": "v1", "size": 3}}
			case "indexer":
				l = map[string]any{"path": any1("path", conts), "Indexer": map[string]any{"mimetype": "text/plain", "pronom": "x-fmt/111", "metadata": map[string]any{"siegfried": []any{}}}}
			case "migration":
				l = map[string]any{"path": any1("path", conts), "migration": map[string]any{"source": any1("source", conts), "id": "x", "error": rapid.SampledFrom([]string{"", "failed"}).Draw(t, "err")}}
			case "thumbnail":
				l = map[string]any{"sourceDigest": any1("source", digests), "thumbDigest": any1("thumb", digests), "filename": rapid.SampledFrom([]string{"", "data/1/2/x.png"}).Draw(t, "fn"), "ext": "png", "id": "x"}
			}
			if rapid.IntRange(0, 2).Draw(t, "oddline") == 0 {
				l = mutateJSON(t, l)
			} else if m := l.(map[string]any); rapid.IntRange(0, 2).Draw(t, "gap") == 0 {
				k := rapid.SampledFrom(sortedKeys(m)).Draw(t, "gap at")
				if m[k] = nil; rapid.Bool().Draw(t, "gap missing") {
					delete(m, k)
				}
			}
			b.WriteString(j(l))
			if i+1 < n || rapid.Bool().Draw(t, "nl") {
				b.WriteString("\n")
			}
		}
		return []byte(b.String())
	}
	switch cfg.name() {
	case "NNNN-filesystem", "NNNN-indexer", "NNNN-migration", "NNNN-thumbnail":
		kind := strings.TrimPrefix(cfg.name(), "NNNN-")
		c, _ := cfg["compress"].(string)
		for _, v := range o.Vers {
			data, suf := compressed(c, lines(kind))
			dir := storage
			if dir == "" {
				// area and path storage: <version>/<content dir>/<storage name>
				base := strings.TrimSuffix(folder, "/extensions/"+cfg.name())
				if base == folder {
					continue
				}
				dir = strings.TrimSuffix(base+"/"+v.Name+"/"+o.cdir()+"/"+s, "/")
			}
			if rapid.IntRange(0, 5).Draw(t, "cut") == 0 && len(data) > 0 {
				data = data[:rapid.IntRange(0, len(data)-1).Draw(t, "cutat")]
			}
			files[dir+"/"+kind+"_"+v.Name+".jsonl"+suf] = data
		}
	case "NNNN-metafile":
		files[folder+"/schema.json"] = rapid.SampledFrom([]string{`{"type":"object"}`, `{}`, `true`, `null`, `[]`, `{"$ref":"#"}`, `{"$ref":"file:///nonexistent/x"}`, `{"type":5}`, ``}).Draw(t, "schema")
		if storage != "" {
			files[storage+"/info.json"] = rapid.SampledFrom([]string{`{"a":1}`, `null`, `[1]`, ``, `{`}).Draw(t, "info")
		}
	}
}

var oddValues = []any{nil, 0, -1, 1.5, 1e300, true, "", "x", "\x00", "v1", "v0", "v99999999999999999999", "v01", "..", "/", []any{}, []any{nil}, []any{"a", 1}, map[string]any{}, map[string]any{"": nil}, map[string]any{"v1": nil}, map[string]any{"sha512": map[string]any{"": []any{}}}}

// mutateJSON changes one random node of v.
func mutateJSON(t *rapid.T, v any) any {
	type ref struct {
		set  func(any)
		del  func()
		get  any
		dup  func(any)
		name string
	}
	root := deepCopy(v)
	var refs []ref
	refs = append(refs, ref{set: func(x any) { root = x }, del: func() { root = nil }, get: root, dup: func(x any) { root = []any{root, x} }})
	var walk func(x any, depth int)
	walk = func(x any, depth int) {
		switch c := x.(type) {
		case map[string]any:
			for _, k := range sortedKeys(c) {
				k := k
				refs = append(refs, ref{set: func(x any) { c[k] = x }, del: func() { delete(c, k) }, get: c[k], name: k, dup: func(x any) {
					if s, ok := x.(string); ok {
						c[s] = c[k]
						delete(c, k)
					} else {
						c["extra"] = x
					}
				}})
				walk(c[k], depth+1)
			}
		case []any:
			for i := range c {
				i := i
				refs = append(refs, ref{set: func(x any) { c[i] = x }, del: func() { c[i] = nil }, get: c[i], dup: func(x any) {
					if i > 0 {
						c[i] = c[i-1]
					} else {
						c[i] = x
					}
				}})
				walk(c[i], depth+1)
			}
		}
	}
	walk(root, 0)
	r := refs[rapid.IntRange(0, len(refs)-1).Draw(t, "node")]
	odd := func() any { return deepCopy(oddValues[rapid.IntRange(0, len(oddValues)-1).Draw(t, "odd value")]) }
	switch rapid.IntRange(0, 6).Draw(t, "json op") {
	case 0, 1, 2:
		r.set(odd())
	case 3:
		r.del()
	case 4:
		r.dup(odd())
	case 5: // the value as its own list, or the list's element
		if l, ok := r.get.([]any); ok && len(l) > 0 {
			r.set(l[0])
		} else {
			r.set([]any{r.get})
		}
	case 6: // the value of another place
		r.set(deepCopy(refs[rapid.IntRange(0, len(refs)-1).Draw(t, "node2")].get))
	}
	return root
}

func mutateBytes(t *rapid.T, s string) string {
	b := []byte(s)
	switch rapid.IntRange(0, 5).Draw(t, "byte op") {
	case 0:
		if len(b) > 0 {
			b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
		}
	case 1:
		b = b[:rapid.IntRange(0, len(b)).Draw(t, "at")]
	case 2:
		return rapid.SampledFrom([]string{"", "null", "{}", "[]", "\"\"", "0", "true", "{\"", "\xff\xfe", " ", "\n", "{\"versions\":{}}", strings.Repeat("[", 10000)}).Draw(t, "whole")
	case 3:
		at := rapid.IntRange(0, len(b)).Draw(t, "at")
		ins := rapid.SampledFrom([]string{"\"", "{", "}", ",", ":", "null", "\x00", "\xff", "0", " ", "[", "\\u0000"}).Draw(t, "ins")
		return s[:at] + ins + s[at:]
	case 4:
		if len(b) > 2 {
			i := rapid.IntRange(0, len(b)-1).Draw(t, "from")
			k := rapid.IntRange(i, min(len(b), i+20)).Draw(t, "to")
			b = append(append([]byte{}, b[:i]...), b[k:]...)
		}
	case 5:
		if len(b) > 2 {
			i := rapid.IntRange(0, len(b)-1).Draw(t, "from")
			k := rapid.IntRange(i, min(len(b), i+40)).Draw(t, "to")
			return s[:k] + s[i:k] + s[k:]
		}
	}
	return string(b)
}

// hostile applies one mutation to a tree of files; it returns what it did.
func hostile(t *rapid.T, files map[string]string) string {
	names := sortedKeys(files)
	if len(names) == 0 {
		return "nothing"
	}
	cls := map[string][]string{}
	for _, p := range names {
		b := path.Base(p)
		switch {
		case strings.HasSuffix(p, "/"):
			cls["folder"] = append(cls["folder"], p)
		case b == "inventory.json":
			cls["a inventory"] = append(cls["a inventory"], p)
			cls["b inventory"] = append(cls["b inventory"], p)
			cls["c inventory"] = append(cls["c inventory"], p)
		case strings.HasPrefix(b, "inventory.json."):
			cls["sidecar"] = append(cls["sidecar"], p)
		case strings.HasPrefix(b, "0="):
			cls["declaration"] = append(cls["declaration"], p)
		case strings.HasSuffix(b, ".json"):
			cls["config"] = append(cls["config"], p)
		case strings.Contains(b, ".jsonl"):
			cls["data"] = append(cls["data"], p)
		default:
			cls["other"] = append(cls["other"], p)
		}
	}
	c := rapid.SampledFrom(sortedKeys(cls)).Draw(t, "class")
	p := rapid.SampledFrom(cls[c]).Draw(t, "file")
	op := rapid.SampledFrom([]string{"json", "json", "json", "json", "bytes", "bytes", "remove", "rename", "to folder", "add", "remove folder", "rename folder", "folder to file"}).Draw(t, "mutation")
	dir := path.Dir(p)
	seal := func() {
		if path.Base(p) != "inventory.json" || rapid.IntRange(0, 3).Draw(t, "seal") == 0 {
			return
		}
		for _, q := range names {
			if path.Dir(q) == dir && strings.HasPrefix(path.Base(q), "inventory.json.") {
				alg := strings.TrimPrefix(path.Base(q), "inventory.json.")
				if hashOf(alg) != nil {
					files[q] = digestOf(alg, []byte(files[p])) + " inventory.json\n"
				}
			}
		}
	}
	below := func(d string) []string {
		var l []string
		for _, q := range names {
			if strings.HasPrefix(q, d+"/") {
				l = append(l, q)
			}
		}
		return l
	}
	switch op {
	case "json":
		if !strings.Contains(path.Base(p), ".json") || strings.HasPrefix(path.Base(p), "inventory.json.") {
			files[p] = mutateBytes(t, files[p])
			return "bytes of " + p
		}
		v, err := jparse([]byte(files[p]))
		if err != nil {
			var x any
			if json.Unmarshal([]byte(files[p]), &x) != nil {
				files[p] = mutateBytes(t, files[p])
				return "bytes of " + p
			}
			v = x
		}
		v = mutateJSON(t, v)
		// the other inventory of the head often gets the same content
		files[p] = j(v)
		seal()
		return "json of " + p
	case "bytes":
		files[p] = mutateBytes(t, files[p])
		seal()
		return "bytes of " + p
	case "remove":
		delete(files, p)
		return "remove " + p
	case "rename":
		to := path.Join(dir, rapid.SampledFrom([]string{"renamed", "inventory.json", "inventory.json.sha512", "inventory.json.sha256", "inventory.json.md5", "0=ocfl_object_1.0", "0=ocfl_object_9.9", "0=ocfl_object_", "0=ocfl_1.1", "0=ocfl_1.", "config.json", "v1", "v2"}).Draw(t, "to"))
		if _, ok := files[to]; !ok && len(below(to)) == 0 {
			files[to] = files[p]
			delete(files, p)
		}
		return "rename " + p + " to " + to
	case "to folder":
		delete(files, p)
		files[strings.TrimSuffix(p, "/")+"/"] = ""
		return "folder in place of " + p
	case "add":
		q := path.Join(dir, rapid.SampledFrom([]string{"0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object_2.0", "0=ocfl_object_x", "0=ocfl_1.0", "inventory.json", "inventory.json.sha512", "inventory.json.sha1", "inventory.json.", "v1/inventory.json", "v2/inventory.json", "v9/x", "vx/y", "extensions/x", "extensions/initial/config.json", "extensions/initial/x", "0=", "ocfl_layout.json"}).Draw(t, "add"))
		data := rapid.SampledFrom([]string{"", "{}", "null", "x", "ocfl_object_1.0\n", "ocfl_object_1.1\n", "\"", "{\"extension\":null}", "{\"extension\":5}"}).Draw(t, "data")
		if _, ok := files[q]; !ok {
			files[q] = data
		}
		return "add " + q
	}
	// operations on a folder
	parts := strings.Split(p, "/")
	if len(parts) < 2 {
		return "none"
	}
	d := strings.Join(parts[:rapid.IntRange(1, len(parts)-1).Draw(t, "depth")], "/")
	l := below(d)
	switch op {
	case "rename folder":
		to := path.Join(path.Dir(d), rapid.SampledFrom([]string{"v1", "v2", "v3", "v0", "v01", "v002", "v-1", "v", "V1", "vx", "v99999999999999999999", "extensions", "content", "x"}).Draw(t, "to"))
		if len(below(to)) > 0 {
			return "none"
		}
		for _, q := range l {
			files[to+strings.TrimPrefix(q, d)] = files[q]
			delete(files, q)
		}
		return "rename " + d + "/ to " + to
	case "folder to file":
		for _, q := range l {
			delete(files, q)
		}
		files[d] = "x"
		return "file in place of " + d
	}
	for _, q := range l {
		delete(files, q)
	}
	return "remove " + d + "/"
}

// treeOf removes entries that cannot exist together (a file used as folder).
func treeOf(files map[string]string) {
	for p := range files {
		q := strings.TrimSuffix(p, "/")
		if q == "" || q == "." {
			delete(files, p)
			continue
		}
		if q != p {
			if _, ok := files[q]; ok {
				delete(files, p)
				continue
			}
		}
		for d := path.Dir(q); d != "." && d != "/"; d = path.Dir(d) {
			if _, ok := files[d]; ok {
				delete(files, p)
				break
			}
		}
	}
}

// exercise runs every reading operation on a storage root; it returns a
// description of the first panic, hang or write.
func exercise(w *world, f *ocfl.ExtensionFactory, ids, folders []string, note func(string)) (bad string) {
	before := w.snapshot("/")
	w.logging = true
	defer func() { w.logging = false }()
	try := func(name string, op func() error) bool {
		if bad != "" {
			return false
		}
		var msg string
		var err error
		hung := bounded(func() { msg = noPanic(func() { err = op() }) })
		if hung {
			bad = name + " does not return"
			return false
		}
		if msg != "" {
			bad = name + " panics: " + msg
			return false
		}
		if len(w.log) > 0 {
			bad = fmt.Sprintf("%s writes to the storage root: %s %q", name, w.log[0].kind, w.log[0].path)
			return false
		}
		if err != nil {
			note(strings.Fields(name)[0] + " error")
		} else {
			note(strings.Fields(name)[0] + " ok")
		}
		return err == nil
	}
	var all []ocfl.StatInfo
	for _, k := range sortedKeys(ocfl.StatInfoString) {
		all = append(all, ocfl.StatInfoString[k])
	}
	areas := []string{"", "content", "full", "metadata", "nope"}
	var sr ocfl.StorageRoot
	load := func(ctx context.Context) error {
		var err error
		sr, err = ocfl.LoadStorageRoot(ctx, w.mount(rootDir), f, logger)
		if err == nil {
			sr.SetDigest("sha512")
		}
		return err
	}
	try("validate root", func() error {
		if err := load(newCtx()); err != nil {
			return err
		}
		return sr.Check()
	})
	for _, fo := range folders {
		try("validate folder "+fo, func() error {
			if err := load(newCtx()); err != nil {
				return err
			}
			return sr.CheckObjectByFolder(fo)
		})
	}
	for _, id := range ids {
		try("validate id "+id, func() error {
			if err := load(newCtx()); err != nil {
				return err
			}
			return sr.CheckObjectByID(id)
		})
	}
	try("LoadStorageRootRO", func() error {
		_, err := ocfl.LoadStorageRootRO(newCtx(), w.mount(rootDir), f, logger)
		return err
	})
	if !try("LoadStorageRoot", func() error { return load(newCtx()) }) {
		if bad == "" && diffSnap(before, w.snapshot("/")) != "" {
			bad = "loading changes the storage root"
		}
		return bad
	}
	try("GetFiles", func() error { _, err := sr.GetFiles(); return err })
	try("GetFolders", func() error { _, err := sr.GetFolders(); return err })
	try("GetObjectFolders", func() error { _, err := sr.GetObjectFolders(); return err })
	try("String", func() error { _ = sr.String(); return nil })
	try("Stat root", func() error { return sr.Stat(io.Discard, "", "", all) })
	try("ExtractMeta root", func() error {
		m, err := sr.ExtractMeta("", "")
		if err == nil {
			_, err = json.Marshal(m)
		}
		return err
	})
	try("Extract root", func() error { return sr.Extract(newWorld().mount("/target"), "", "", "latest", true, "content") })
	use := func(name string, open func() (ocfl.Object, error)) {
		var o ocfl.Object
		if !try(name, func() (err error) { o, err = open(); return }) || o == nil {
			return
		}
		try("object accessors of "+name, func() error {
			_, _, _, _ = o.GetID(), o.GetVersion(), o.IsModified(), o.GetFS()
			inv := o.GetInventory()
			if inv == nil {
				return nil
			}
			_, _, _, _ = inv.GetID(), inv.GetHead(), inv.GetVersionStrings(), inv.GetContentDir()
			_, _, _, _, _ = inv.GetManifest(), inv.GetFixity(), inv.GetVersions(), inv.GetFiles(), inv.GetFixityDigestAlgorithm()
			for _, a := range areas {
				_, _ = o.GetAreaPath(a)
			}
			return nil
		})
		try("Object.Stat of "+name, func() error { return o.Stat(io.Discard, all) })
		try("Object.GetMetadata of "+name, func() error { _, err := o.GetMetadata(); return err })
		vs := []string{"latest", "v1", "v2", "v99", "", "x"}
		for i, v := range vs {
			try("Object.Extract "+v+" of "+name, func() error {
				return o.Extract(newWorld().mount("/target"), v, true, areas[i%len(areas)])
			})
		}
		for _, a := range areas {
			try("Object.Extract area "+a+" of "+name, func() error {
				return o.Extract(newWorld().mount("/target"), "latest", false, a)
			})
		}
		try("Object.Check of "+name, func() error { return o.Check() })
	}
	for _, id := range ids {
		try("ObjectExists "+id, func() error { _, err := sr.ObjectExists(id); return err })
		try("Stat id "+id, func() error { return sr.Stat(io.Discard, "", id, all) })
		try("ExtractMeta id "+id, func() error { _, err := sr.ExtractMeta("", id); return err })
		use("LoadObjectByID "+id, func() (ocfl.Object, error) { return sr.LoadObjectByID(id) })
	}
	for _, fo := range folders {
		try("Stat folder "+fo, func() error { return sr.Stat(io.Discard, fo, "", all) })
		try("ExtractMeta folder "+fo, func() error { _, err := sr.ExtractMeta(fo, ""); return err })
		try("Extract folder "+fo, func() error { return sr.Extract(newWorld().mount("/target"), fo, "", "latest", false, "") })
		use("LoadObjectByFolder "+fo, func() (ocfl.Object, error) { return sr.LoadObjectByFolder(fo) })
	}
	if bad == "" {
		if d := diffSnap(before, w.snapshot("/")); d != "" {
			bad = "reading changes the storage root: " + d
		}
	}
	return bad
}

// C13: untrusted data never crashes the reading operations.
func TestC13(t *testing.T) {
	f := fullFactory()
	runCheck(t, "hostile root", 6000, 250000, func(t *rapid.T) {
		r := genFRoot(t, 2)
		files := r.files()
		if rapid.IntRange(0, 2).Draw(t, "root exts") == 0 {
			genHostileExts(t, files, ".", nil)
			for _, p := range sortedKeys(files) {
				if strings.HasPrefix(p, "./") {
					files[strings.TrimPrefix(p, "./")] = files[p]
					delete(files, p)
				}
			}
		}
		for _, o := range r.Objs {
			if rapid.Bool().Draw(t, "object exts") {
				genHostileExts(t, files, o.Folder, o)
			}
		}
		treeOf(files)
		var did []string
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "mutations"); i < n; i++ {
			did = append(did, hostile(t, files))
			treeOf(files)
		}
		var ids, folders []string
		for _, o := range r.Objs {
			ids = append(ids, o.ID)
			folders = append(folders, o.Folder)
		}
		ids = append(ids, rapid.SampledFrom([]string{"", "nope", "..", "a", "\x00", "urn:x"}).Draw(t, "other id"))
		folders = append(folders, rapid.SampledFrom([]string{"", ".", "nope", "..", "extensions", "a", "/"}).Draw(t, "other folder"))
		cl := map[string]bool{}
		w := worldOf(files)
		if bad := exercise(w, f, ids, folders, func(s string) { cl[s] = true }); bad != "" {
			t.Fatalf("%s\nmutations: %v\n%s", bad, did, dumpFiles(files))
		}
		ops := []string{}
		for _, d := range did {
			ops = append(ops, strings.Fields(d)[0])
		}
		classes := append(sortedKeys(cl), ops...)
		count("hostile root", j(files), len(did) > 0 || len(cl) > 0, map[string]any{"root": r.describe(), "mutations": did}, classes...)
	})
	runCheck(t, "hostile own root", 900, 40000, func(t *rapid.T) {
		var h *hist
		histProp("own history", 3, func(*rapid.T, *event) {}, func(_ *rapid.T, x *hist) { h = x })(t)
		base := h.w.snapshot(rootDir)
		var folders []string
		for _, p := range sortedKeys(base) {
			if strings.HasPrefix(path.Base(p), "0=ocfl_object_") {
				folders = append(folders, path.Dir(p))
			}
		}
		folders = append(folders, ".")
		ids := append(sortedKeys(h.models), "nope")
		for k := 0; k < 4; k++ {
			files := map[string]string{}
			for p, c := range base {
				if !strings.HasSuffix(p, "/") {
					files[p] = c
				}
			}
			var did []string
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "mutations"); i < n; i++ {
				did = append(did, hostile(t, files))
				treeOf(files)
			}
			if bad := exercise(worldOf(files), f, ids, folders, func(s string) { class("hostile own root", s) }); bad != "" {
				t.Fatalf("%s\nmutations: %v\nhistory: %v\n%s", bad, did, h.log, dumpFiles(files))
			}
			count("hostile own root", strings.Join(did, ";")+strings.Join(h.log, ";"), true, map[string]any{"mutations": did, "history": h.log})
		}
	})
}
