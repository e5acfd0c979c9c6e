package zzverif

// C28: the metadata file of the metafile extension.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"pgregory.net/rapid"
)

// A JSON value in these tests is nil, bool, json.Number, string, []any or
// map[string]any.

func jsonOf(data []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("data after the value")
	}
	return v, nil
}

func rat(n json.Number) *big.Rat {
	r, ok := new(big.Rat).SetString(string(n))
	if !ok {
		infra("number %q", n)
	}
	return r
}

// jequal compares two JSON values, numbers by value.
func jequal(a, b any) bool {
	switch a := a.(type) {
	case json.Number:
		b, ok := b.(json.Number)
		return ok && rat(a).Cmp(rat(b)) == 0
	case []any:
		b, ok := b.([]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !jequal(a[i], b[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		b, ok := b.(map[string]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for k := range a {
			if v, ok := b[k]; !ok || !jequal(a[k], v) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case json.Number, []any, map[string]any:
		return false
	}
	return a == b
}

// conforms is an independent evaluation of the generated part of JSON schema.
func conforms(schema any, v any) bool {
	if b, ok := schema.(bool); ok {
		return b
	}
	for k, kw := range schema.(map[string]any) {
		switch k {
		case "type":
			ok := false
			names, isList := kw.([]any)
			if !isList {
				names = []any{kw}
			}
			for _, n := range names {
				switch v := v.(type) {
				case nil:
					ok = ok || n == "null"
				case bool:
					ok = ok || n == "boolean"
				case string:
					ok = ok || n == "string"
				case []any:
					ok = ok || n == "array"
				case map[string]any:
					ok = ok || n == "object"
				case json.Number:
					ok = ok || n == "number" || n == "integer" && rat(v).IsInt()
				}
			}
			if !ok {
				return false
			}
		case "enum":
			ok := false
			for _, e := range kw.([]any) {
				ok = ok || jequal(e, v)
			}
			if !ok {
				return false
			}
		case "const":
			if !jequal(kw, v) {
				return false
			}
		case "not":
			if conforms(kw, v) {
				return false
			}
		case "anyOf":
			ok := false
			for _, s := range kw.([]any) {
				ok = ok || conforms(s, v)
			}
			if !ok {
				return false
			}
		}
		switch v := v.(type) {
		case json.Number:
			n, isNum := kw.(json.Number)
			if !isNum {
				continue
			}
			c := rat(v).Cmp(rat(n))
			switch k {
			case "minimum":
				if c < 0 {
					return false
				}
			case "maximum":
				if c > 0 {
					return false
				}
			case "exclusiveMinimum":
				if c <= 0 {
					return false
				}
			case "multipleOf":
				if !new(big.Rat).Quo(rat(v), rat(n)).IsInt() {
					return false
				}
			}
		case string:
			l := json.Number(fmt.Sprint(len([]rune(v))))
			switch k {
			case "minLength":
				if rat(l).Cmp(rat(kw.(json.Number))) < 0 {
					return false
				}
			case "maxLength":
				if rat(l).Cmp(rat(kw.(json.Number))) > 0 {
					return false
				}
			case "pattern": // only ^x, x$ and x are generated
				p := kw.(string)
				switch {
				case strings.HasPrefix(p, "^") && !strings.HasPrefix(v, p[1:]),
					strings.HasSuffix(p, "$") && !strings.HasSuffix(v, strings.TrimSuffix(p, "$")),
					!strings.Contains(v, strings.Trim(p, "^$")):
					return false
				}
			}
		case []any:
			l := json.Number(fmt.Sprint(len(v)))
			switch k {
			case "minItems":
				if rat(l).Cmp(rat(kw.(json.Number))) < 0 {
					return false
				}
			case "maxItems":
				if rat(l).Cmp(rat(kw.(json.Number))) > 0 {
					return false
				}
			case "uniqueItems":
				for i := range v {
					for k := 0; k < i; k++ {
						if kw == true && jequal(v[i], v[k]) {
							return false
						}
					}
				}
			case "items":
				for _, e := range v {
					if !conforms(kw, e) {
						return false
					}
				}
			}
		case map[string]any:
			switch k {
			case "required":
				for _, n := range kw.([]any) {
					if _, ok := v[n.(string)]; !ok {
						return false
					}
				}
			case "properties":
				for n, s := range kw.(map[string]any) {
					if e, ok := v[n]; ok && !conforms(s, e) {
						return false
					}
				}
			case "additionalProperties":
				props, _ := schema.(map[string]any)["properties"].(map[string]any)
				for n, e := range v {
					if _, ok := props[n]; !ok && !conforms(kw, e) {
						return false
					}
				}
			case "minProperties":
				if rat(json.Number(fmt.Sprint(len(v)))).Cmp(rat(kw.(json.Number))) < 0 {
					return false
				}
			}
		}
	}
	return true
}

var metaKeys = []string{"title", "id", "a", "ä", "x y", "<b>", "keywords"}

func genNumber(t *rapid.T) json.Number {
	switch rapid.IntRange(0, 7).Draw(t, "number") {
	case 0:
		return json.Number(rapid.SampledFrom([]string{"9007199254740993", "-9007199254740993", "9223372036854775807", "1234567890123456789"}).Draw(t, "big"))
	case 1:
		return json.Number(rapid.SampledFrom([]string{"0.5", "-1.25", "3.75", "100.0", "7.0"}).Draw(t, "fraction"))
	}
	return json.Number(fmt.Sprint(rapid.IntRange(-3, 12).Draw(t, "small")))
}

func genText(t *rapid.T) string {
	return rapid.StringOfN(rapid.RuneFrom([]rune("abxyzAB ü€😀<>&\"\\/'\n\t:#{}[]-,01")), 0, 6, -1).Draw(t, "text")
}

func genValue(t *rapid.T, depth int) any {
	top := 6
	if depth <= 0 {
		top = 4
	}
	switch rapid.IntRange(0, top).Draw(t, "value") {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "bool")
	case 2:
		return genNumber(t)
	case 3, 4:
		return genText(t)
	case 5:
		l := []any{}
		for n := rapid.IntRange(0, 3).Draw(t, "elements"); n > 0; n-- {
			l = append(l, genValue(t, depth-1))
		}
		return l
	}
	m := map[string]any{}
	for n := rapid.IntRange(0, 3).Draw(t, "members"); n > 0; n-- {
		m[rapid.SampledFrom(metaKeys).Draw(t, "key")] = genValue(t, depth-1)
	}
	return m
}

// genSchema draws a schema and a value, which often satisfies it.
func genSchema(t *rapid.T, depth int) (map[string]any, any) {
	s := map[string]any{}
	num := func(n int) json.Number { return json.Number(fmt.Sprint(n)) }
	opt := func(label string) bool { return rapid.IntRange(0, 2).Draw(t, label) == 0 }
	top := 6
	if depth <= 0 {
		top = 3
	}
	switch rapid.IntRange(0, top).Draw(t, "schema") {
	case 0:
		s["type"] = "string"
		v := genText(t)
		l := len([]rune(v))
		if opt("minLength") {
			s["minLength"] = num(max(0, l+rapid.IntRange(-2, 1).Draw(t, "d")))
		}
		if opt("maxLength") {
			s["maxLength"] = num(max(0, l+rapid.IntRange(-1, 2).Draw(t, "d")))
		}
		if opt("pattern") {
			s["pattern"] = rapid.SampledFrom([]string{"^a", "b$", "x", "^A", "0$"}).Draw(t, "pattern")
		}
		return s, v
	case 1:
		s["type"] = rapid.SampledFrom([]string{"number", "integer"}).Draw(t, "type")
		v := genNumber(t)
		if opt("minimum") {
			s[rapid.SampledFrom([]string{"minimum", "exclusiveMinimum"}).Draw(t, "kw")] = rapid.SampledFrom([]json.Number{"0", "-1", "3", v}).Draw(t, "min")
		}
		if opt("maximum") {
			s["maximum"] = rapid.SampledFrom([]json.Number{"10", "5", "9007199254740992", v}).Draw(t, "max")
		}
		if opt("multipleOf") {
			s["multipleOf"] = rapid.SampledFrom([]json.Number{"2", "0.25", "3"}).Draw(t, "multiple")
		}
		return s, v
	case 2:
		var l []any
	choices:
		for n := rapid.IntRange(1, 3).Draw(t, "choices"); n > 0; n-- {
			v := genValue(t, 1)
			for _, o := range l {
				if jequal(o, v) {
					continue choices
				}
			}
			l = append(l, v)
		}
		s["enum"] = l
		return s, l[rapid.IntRange(0, len(l)-1).Draw(t, "choice")]
	case 3:
		if rapid.Bool().Draw(t, "const") {
			v := genValue(t, 1)
			s["const"] = v
			return s, v
		}
		s["type"] = []any{"string", "null", "boolean"}
		return s, genValue(t, 0)
	case 4:
		s["type"] = "array"
		items, v := genSchema(t, depth-1)
		s["items"] = items
		l := []any{}
		for n := rapid.IntRange(0, 3).Draw(t, "elements"); n > 0; n-- {
			if rapid.IntRange(0, 3).Draw(t, "other") == 0 {
				l = append(l, genValue(t, 0))
			} else {
				l = append(l, v)
			}
		}
		if opt("minItems") {
			s["minItems"] = num(max(0, len(l)+rapid.IntRange(-1, 1).Draw(t, "d")))
		}
		if opt("maxItems") {
			s["maxItems"] = num(max(0, len(l)+rapid.IntRange(-1, 1).Draw(t, "d")))
		}
		if opt("unique") {
			s["uniqueItems"] = true
		}
		return s, l
	case 5:
		a, v := genSchema(t, depth-1)
		b, w := genSchema(t, depth-1)
		if opt("not") {
			s["not"] = a
			return s, w
		}
		s["anyOf"] = []any{a, b}
		if rapid.Bool().Draw(t, "first") {
			return s, v
		}
		return s, w
	}
	s["type"] = "object"
	props := map[string]any{}
	v := map[string]any{}
	req := []any{}
	for n := rapid.IntRange(0, 4).Draw(t, "properties"); n > 0; n-- {
		k := rapid.SampledFrom(metaKeys).Draw(t, "property")
		if _, ok := props[k]; ok {
			continue
		}
		p, e := genSchema(t, depth-1)
		props[k] = p
		if rapid.IntRange(0, 3).Draw(t, "present") > 0 {
			v[k] = e
		}
		if opt("required") {
			req = append(req, k)
		}
	}
	s["properties"] = props
	if len(req) > 0 {
		s["required"] = req
	}
	if opt("additional") {
		s["additionalProperties"] = rapid.SampledFrom([]any{false, true, map[string]any{"type": "string"}}).Draw(t, "additionalSchema")
	}
	if opt("minProperties") {
		s["minProperties"] = num(rapid.IntRange(0, 3).Draw(t, "n"))
	}
	if opt("extra") {
		v[rapid.SampledFrom([]string{"extra", "title"}).Draw(t, "extraKey")] = genValue(t, 1)
	}
	return s, v
}

func quoted(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		infra("%v", err)
	}
	return string(b)
}

func scalarText(v any) (string, bool) {
	switch v := v.(type) {
	case nil:
		return "null", true
	case bool:
		return fmt.Sprint(v), true
	case json.Number:
		return string(v), true
	case string:
		return quoted(v), true
	}
	return "", false
}

// yamlText writes a value as a YAML block.
func yamlText(v any, indent string) string {
	if s, ok := scalarText(v); ok {
		return s + "\n"
	}
	var sb strings.Builder
	switch v := v.(type) {
	case []any:
		if len(v) == 0 {
			return "[]\n"
		}
		for _, e := range v {
			if s, ok := scalarText(e); ok {
				fmt.Fprintf(&sb, "%s- %s\n", indent, s)
			} else if t := yamlText(e, indent+"  "); strings.HasPrefix(t, " ") {
				fmt.Fprintf(&sb, "%s-\n%s", indent, t)
			} else {
				fmt.Fprintf(&sb, "%s- %s", indent, t)
			}
		}
	case map[string]any:
		if len(v) == 0 {
			return "{}\n"
		}
		for _, k := range sortedKeys(v) {
			if s, ok := scalarText(v[k]); ok {
				fmt.Fprintf(&sb, "%s%s: %s\n", indent, quoted(k), s)
			} else if t := yamlText(v[k], indent+"  "); strings.HasPrefix(t, " ") {
				fmt.Fprintf(&sb, "%s%s:\n%s", indent, quoted(k), t)
			} else {
				fmt.Fprintf(&sb, "%s%s: %s", indent, quoted(k), t)
			}
		}
	}
	if indent == "" {
		return sb.String()
	}
	return sb.String()
}

func hasNull(v any) bool {
	switch v := v.(type) {
	case nil:
		return true
	case []any:
		for _, e := range v {
			if hasNull(e) {
				return true
			}
		}
	case map[string]any:
		for _, e := range v {
			if hasNull(e) {
				return true
			}
		}
	}
	return false
}

func tomlInline(v any) string {
	if s, ok := scalarText(v); ok {
		return s
	}
	var l []string
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			l = append(l, tomlInline(e))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case map[string]any:
		for _, k := range sortedKeys(v) {
			l = append(l, quoted(k)+" = "+tomlInline(v[k]))
		}
	}
	return "{" + strings.Join(l, ", ") + "}"
}

// tomlText writes an object as TOML, with tables when blocks is set.
func tomlText(v map[string]any, blocks bool) string {
	var head, tail strings.Builder
	for _, k := range sortedKeys(v) {
		switch e := v[k].(type) {
		case map[string]any:
			if blocks {
				fmt.Fprintf(&tail, "\n[%s]\n", quoted(k))
				for _, f := range sortedKeys(e) {
					fmt.Fprintf(&tail, "%s = %s\n", quoted(f), tomlInline(e[f]))
				}
				continue
			}
		case []any:
			tables := blocks && len(e) > 0
			for _, m := range e {
				_, ok := m.(map[string]any)
				tables = tables && ok
			}
			if tables {
				for _, m := range e {
					fmt.Fprintf(&tail, "\n[[%s]]\n", quoted(k))
					m := m.(map[string]any)
					for _, f := range sortedKeys(m) {
						fmt.Fprintf(&tail, "%s = %s\n", quoted(f), tomlInline(m[f]))
					}
				}
				continue
			}
		}
		fmt.Fprintf(&head, "%s = %s\n", quoted(k), tomlInline(v[k]))
	}
	return head.String() + tail.String()
}

var notWellFormed = map[string][]string{
	".json": {"", "{", "[1,", "{\"a\":}", "{'a':1}", "nul", "{} {}", "{}]", "{\"title\": \"x\"} trailing", "[] 1", "\"a", "{\"a\" 1}", "01", "1 2"},
	".yaml": {"a: [1", "a: 'x", "\"a", "a: b: c", "- a\nb: 1\n", "{a: 1", "a: 1\n---\nb: 2\n", "\ta: 1", "a: .nan\n", "[.inf]\n", "a: &x [*y]\n"},
	".toml": {"a", "a =", "= 1", "a = [1", "[a", "a = 1\na = 2\n", "a = \"x", "a = 1 b = 2", "a = 'x\n'", "a = 01"},
}

// metaSource is the document given to one session.
type metaSource struct {
	Kind  string // none, document, malformed, missing, suffix, status
	Ext   string
	Text  string
	Via   string // file, path, http
	Block bool
	doc   any
	ok    bool // the update must be accepted
}

func (s metaSource) String() string {
	return fmt.Sprintf("%s %s %s via %s %s accept=%v", s.Kind, s.Ext, short([]byte(s.Text)), s.Via, s.Text, s.ok)
}

func genMetaSource(t *rapid.T, schema map[string]any, good any) metaSource {
	s := metaSource{Ext: rapid.SampledFrom([]string{".json", ".json", ".yaml", ".toml"}).Draw(t, "format")}
	s.Via = rapid.SampledFrom([]string{"file", "path", "http"}).Draw(t, "via")
	switch rapid.IntRange(0, 11).Draw(t, "document") {
	case 0:
		s.Kind = "missing"
		s.Text = "{}"
		return s
	case 1:
		s.Kind = "malformed"
		s.Text = rapid.SampledFrom(notWellFormed[s.Ext]).Draw(t, "malformed")
		return s
	case 2:
		s.Kind = "none"
		s.ok = true
		return s
	case 3:
		if rapid.IntRange(0, 2).Draw(t, "badURL") == 0 {
			s.Kind = "bad url"
			s.Text = rapid.SampledFrom([]string{"http://[::1/x.json", "/tmp/100%/x.json", ":x", "ftp://localhost/x.json", "file:///nowhere/100%zz.json"}).Draw(t, "url")
			return s
		}
		if rapid.Bool().Draw(t, "suffix") {
			s.Kind = "suffix"
			s.Ext = rapid.SampledFrom([]string{".txt", "", ".xml", ".json.bak"}).Draw(t, "otherSuffix")
			s.Text = jtext(good, false)
			return s
		}
		s.Kind = "status"
		s.Via = "http"
		s.Ext = ".json"
		s.Text = jtext(good, false)
		return s
	case 4:
		s.doc = genValue(t, 2)
	default:
		s.doc = good
	}
	s.Kind = "document"
	if m, ok := s.doc.(map[string]any); s.Ext == ".toml" && (!ok || hasNull(m)) {
		s.Ext = ".yaml"
	}
	s.Block = rapid.Bool().Draw(t, "block")
	switch {
	case s.Ext == ".json" || s.Ext == ".yaml" && !s.Block:
		s.Text = jtext(s.doc, s.Block)
	case s.Ext == ".yaml":
		s.Text = "# metadata\n---\n" + yamlText(s.doc, "")
	default:
		s.Text = "# metadata\n" + tomlText(s.doc.(map[string]any), s.Block)
	}
	if rapid.IntRange(0, 5).Draw(t, "upper") == 0 {
		s.Ext = strings.ToUpper(s.Ext)
	}
	s.ok = conforms(schema, s.doc)
	return s
}

func jtext(v any, indent bool) string {
	var b []byte
	var err error
	if indent {
		b, err = json.MarshalIndent(v, "", "\t")
	} else {
		b, err = json.Marshal(v)
	}
	if err != nil {
		infra("%v", err)
	}
	return string(b)
}

// docServer delivers documents by path.
type docServer struct {
	mu     sync.Mutex
	docs   map[string]string
	status int
}

func (s *docServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	d, ok := s.docs[r.URL.Path]
	if !ok {
		w.WriteHeader(http.StatusNotFound)
		return
	}
	w.WriteHeader(s.status)
	_, _ = w.Write([]byte(d))
}

func TestC28(t *testing.T) {
	srv := &docServer{docs: map[string]string{}, status: 200}
	ts := httptest.NewServer(srv)
	defer ts.Close()
	tmp := t.TempDir()
	runCheck(t, "metafile", 16000, 400000, func(t *rapid.T) {
		schema, good := genSchema(t, 2)
		if rapid.IntRange(0, 3).Draw(t, "draft") == 0 {
			schema["$schema"] = rapid.SampledFrom([]string{"https://json-schema.org/draft/2020-12/schema", "http://json-schema.org/draft-07/schema#"}).Draw(t, "draftURL")
		}
		subpath := rapid.Bool().Draw(t, "areas")
		typ := rapid.SampledFrom([]string{"area", "path", "extension", "Extension"}).Draw(t, "storageType")
		name := rapid.SampledFrom([]string{"info.json", "meta.json", "in fo.json", ""}).Draw(t, "name")
		sname := ""
		if typ == "area" {
			sname = rapid.SampledFrom([]string{"content", "metadata"}).Draw(t, "area")
		} else {
			sname = rapid.SampledFrom([]string{"", "meta", "meta/x", "/meta", "meta/", "./meta", "meta//x"}).Draw(t, "folder")
		}
		cfg := ext("NNNN-metafile", "storageType", typ, "storageName", sname, "schema", "schema.json",
			"schemaUrl", rapid.SampledFrom([]string{"https://example.org/s.json", "http://localhost.invalid/x"}).Draw(t, "schemaUrl"))
		if name != "" {
			cfg["name"] = name
		} else {
			name = "info.json" // documented default
		}
		cfg["__files"] = map[string]string{"schema.json": jtext(schema, true)}
		exts := []extCfg{ext("initial", "extension", "NNNN-gocfl-extension-manager"),
			ext("NNNN-gocfl-extension-manager", "sort", map[string]any{}, "exclusion", map[string]any{}), cfg}
		if subpath {
			exts = append(exts, ext("NNNN-content-subpath", "subPath", map[string]any{
				"content": map[string]any{"path": "data", "description": "payload"}, "metadata": map[string]any{"path": "md", "description": "metadata"}}))
		}
		if rapid.Bool().Draw(t, "clean") {
			exts = append(exts, dclean(rapid.Bool().Draw(t, "utf")))
		}
		params := map[string]string{}
		f := newFactory(factoryOpts{params: params})
		w := newWorld()
		w.mkdir("/root")
		fsys := w.mount("/root")
		rm := mustManager(t, f, flatLayout())
		sr, err := ocfl.CreateStorageRoot(newCtx(), fsys, ocfl.OCFLVersion(rapid.SampledFrom([]string{"1.0", "1.1"}).Draw(t, "version")), f, rm, "sha512", logger)
		if err != nil {
			infra("CreateStorageRoot: %v", err)
		}
		id := rapid.SampledFrom([]string{"obj", "id-7"}).Draw(t, "id")
		var log []string
		fail := func(format string, a ...any) {
			t.Helper()
			t.Fatalf("%s\nschema %s\nextensions %s\nsessions:\n  %s", fmt.Sprintf(format, a...), jtext(schema, false), j(exts), strings.Join(log, "\n  "))
		}
		dir, err := os.MkdirTemp(tmp, "c28")
		if err != nil {
			infra("%v", err)
		}
		defer os.RemoveAll(dir)
		srv.mu.Lock()
		srv.docs = map[string]string{}
		srv.mu.Unlock()

		// the expected state
		var have bool // the object exists
		var doc any   // current document
		var hasDoc bool
		payload := map[string]string{}
		areaPrefix := func(area string) string {
			if !subpath {
				return ""
			}
			return map[string]string{"content": "data", "metadata": "md"}[area]
		}
		var logical string // logical path of the metadata file
		switch strings.ToLower(typ) {
		case "area":
			logical = path.Join(areaPrefix(sname), name)
		case "path":
			logical = strings.TrimLeft(path.Join(areaPrefix("content"), sname, name), "/")
		}
		var classes []string
		accepted, rejected, vers := 0, 0, 0
		length := genLength(t)
		for n := length; n > 0; n-- {
			src := genMetaSource(t, schema, good)
			for k := 0; length > 4 && !src.ok && k < 4; k++ {
				src = genMetaSource(t, schema, good) // to get a history with more than nine versions
			}
			file := fmt.Sprintf("s%d-%s%s", n, id, src.Ext)
			param := ""
			srv.mu.Lock()
			srv.status = 200
			if src.Kind == "status" {
				srv.status = rapid.SampledFrom([]int{404, 500, 403}).Draw(t, "status")
			}
			if src.Kind != "missing" {
				srv.docs["/"+file] = src.Text
			}
			srv.mu.Unlock()
			tmpl := strings.Replace(file, id, "$ID", 1)
			if rapid.Bool().Draw(t, "literal") {
				tmpl = file
			}
			switch {
			case src.Kind == "none":
			case src.Kind == "bad url":
				param = src.Text
			case src.Via == "http":
				param = ts.URL + "/" + tmpl
			case src.Via == "file":
				param = "file://" + filepath.ToSlash(filepath.Join(dir, tmpl))
			default:
				param = filepath.ToSlash(filepath.Join(dir, tmpl))
			}
			if src.Kind != "missing" && src.Kind != "none" {
				if err := os.WriteFile(filepath.Join(dir, file), []byte(src.Text), 0o600); err != nil {
					infra("%v", err)
				}
			}
			omit := src.Kind == "none" && have && rapid.Bool().Draw(t, "omit")
			if omit {
				delete(params, "ext-NNNN-metafile-source")
			} else {
				params["ext-NNNN-metafile-source"] = param
			}
			add := map[string]string{}
			echo := have && src.Kind != "none" && rapid.IntRange(0, 3).Draw(t, "echo") == 0
			for k := rapid.IntRange(0, 2).Draw(t, "files"); k > 0; k-- {
				add[rapid.SampledFrom([]string{"a.txt", "b/c.txt", "d"}).Draw(t, "file")] = rapid.SampledFrom([]string{"one", "two", ""}).Draw(t, "content")
			}
			if length > 4 {
				add["n.txt"] = fmt.Sprint(n)
			}
			log = append(log, fmt.Sprintf("%v source %q omitted=%v echo=%v files %v", src, param, omit, echo, add))
			if rapid.Bool().Draw(t, "reload") {
				if sr, err = loadRoot(newCtx(), fsys, f); err != nil {
					fail("LoadStorageRoot: %v", err)
				}
			}
			before := w.snapshot("/root")
			var o ocfl.Object
			var startErr, endErr error
			if msg := noPanic(func() {
				if have {
					o, err = sr.LoadObjectByID(id)
				} else {
					var m ocfl.ExtensionManager
					if m, err = newManager(f, exts); err == nil {
						o, err = sr.CreateObject(id, sr.GetVersion(), sr.GetDigest(), nil, m)
					}
				}
				if err != nil {
					return
				}
				sw := newWorld()
				sfs := sw.mount("/src")
				for p, c := range add {
					sw.put("/src/"+p, []byte(c))
				}
				if _, startErr = o.StartUpdate(sfs, "m", "u", "mailto:u@example.org", echo); startErr != nil {
					return
				}
				if endErr = o.AddFolder(sfs, nil, true, "content"); endErr != nil {
					return
				}
				endErr = o.EndUpdate()
			}); msg != "" {
				fail("panic: %s", msg)
			}
			if err != nil && src.Kind != "bad url" {
				fail("open: %v", err)
			}
			if !src.ok {
				rejected++
				classes = append(classes, "rejected: "+src.Kind)
				if startErr == nil && err == nil {
					fail("the metadata document was accepted (end: %v)", endErr)
				}
				after := w.snapshot("/root")
				if !have {
					if _, ok := after["obj/inventory.json"]; ok {
						fail("the rejected document created a version")
					}
					break
				}
				if d := diffSnap(before, after); d != "" {
					fail("the rejected document changed the object: %s", d)
				}
				continue
			}
			if startErr != nil {
				fail("the metadata document was refused: %v", startErr)
			}
			if endErr != nil {
				fail("the session failed: %v", endErr)
			}
			classes = append(classes, "accepted: "+src.Kind)
			if echo {
				payload = map[string]string{}
				classes = append(classes, "echo")
			}
			for p, c := range add {
				payload[path.Join(areaPrefix("content"), p)] = c
			}
			if src.Kind == "document" {
				accepted++
				doc, hasDoc = src.doc, true
				classes = append(classes, "format "+strings.ToLower(src.Ext), "via "+src.Via)
			}
			have = true
			// extraction of the metadata, on the handle and after loading
			check := func(where string, m *ocfl.ObjectMetadata, err error) {
				t.Helper()
				if err != nil {
					fail("%s: %v", where, err)
				}
				var got any
				ok := false
				if m.Extension != nil {
					em, isMap := m.Extension.(map[string]any)
					if !isMap {
						fail("%s: extension metadata is %T", where, m.Extension)
					}
					got, ok = em["NNNN-metafile"]
				}
				if ok != hasDoc {
					fail("%s: metadata present %v, want %v", where, ok, hasDoc)
				}
				if !ok {
					return
				}
				b, err := json.Marshal(got)
				if err != nil {
					fail("%s: %v", where, err)
				}
				if v, err := jsonOf(b); err != nil || !jequal(v, doc) {
					fail("%s: metadata is %s, want %s", where, b, jtext(doc, false))
				}
			}
			m, err := o.GetMetadata()
			check("GetMetadata", m, err)
			if err := o.Close(); err != nil {
				fail("Close: %v", err)
			}
			sr2, err := loadRoot(newCtx(), fsys, f)
			if err != nil {
				fail("LoadStorageRoot: %v", err)
			}
			sm, err := sr2.ExtractMeta("", id)
			if err != nil {
				fail("ExtractMeta: %v", err)
			}
			check("ExtractMeta", sm.Objects[id], nil)
			// the stored files
			files := w.snapshot("/root")
			objs, pr := checkRoot(files, true)
			if len(pr) > 0 {
				fail("storage root invalid: %s", joinProblems(pr))
			}
			if errs := validate(fsys, f); len(errs) > 0 {
				fail("validation: %v", errs)
			}
			var inv *oInv
			folder := ""
			for d, i := range objs {
				if i.id == id {
					inv, folder = i, d
				}
			}
			if inv == nil {
				fail("no object %q", id)
			}
			state := inv.logical(inv.head)
			vers = vnum(inv.head)
			for p, c := range payload {
				if state[p] != digestOf(inv.alg, []byte(c)) {
					fail("file %q is missing or wrong in %s", p, inv.head)
				}
			}
			extra := 0
			for p := range state {
				if _, ok := payload[p]; !ok && p != logical && !(subpath && p == "README.md") {
					fail("unexpected file %q in %s", p, inv.head)
				}
				extra++
			}
			if !hasDoc {
				continue
			}
			var stored string
			if logical == "" {
				stored = files[path.Join(folder, "extensions/NNNN-metafile", sname, name)]
			} else {
				for d, l := range inv.manifest {
					if d == state[logical] {
						stored = files[path.Join(folder, l[0])]
					}
				}
			}
			if v, err := jsonOf([]byte(stored)); err != nil || !jequal(v, doc) {
				fail("stored metadata is %q (%v), want %s", stored, err, jtext(doc, false))
			}
		}
		classes = append(classes, "storage "+strings.ToLower(typ))
		if subpath {
			classes = append(classes, "areas")
		}
		if vers > 9 {
			classes = append(classes, "more than nine versions")
		}
		if accepted > 1 {
			classes = append(classes, "several documents")
		}
		count("metafile", jtext(schema, false)+strings.Join(log, "\n"), accepted > 0 || rejected > 0, map[string]any{"schema": schema, "storage": typ, "sessions": log}, classes...)
	})
}

func flatLayout() []extCfg {
	return []extCfg{ext("initial", "extension", "NNNN-gocfl-extension-manager"),
		ext("NNNN-gocfl-extension-manager", "sort", map[string]any{}, "exclusion", map[string]any{}),
		ext("0002-flat-direct-storage-layout")}
}
