package zzverif

// Storage layouts: C15 (containment), C16 (published layouts), C17
// (injectivity), C18 (direct-clean rules).

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"path"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"pgregory.net/rapid"
)

// newExt instantiates one extension from its configuration.
func newExt(f *ocfl.ExtensionFactory, cfg extCfg) (ocfl.Extension, error) {
	w := newWorld()
	writeExtDir(w, "/cfg", []extCfg{cfg})
	return f.Create(w.mount("/cfg/" + cfg.name()))
}

func rootPath(e ocfl.Extension, id string) (string, error) {
	return e.(ocfl.ExtensionStorageRootPath).BuildStorageRootPath(nil, id)
}

// ---- identifiers ----------------------------------------------------------

var idSpecials = []string{":", "/", ".", "..", "~", "-", " ", "\\", "%", "=", "=u0041", "=u003D", "=u123", "=u", "^", "^2f", "+", ",", "*", "?", "#", "@", "&", "(", ")", "'", "\"", "<", ">", "|", "!", ";", "{", "}", "[", "]", "$",
	"\t", "\n", "\x00", "\x01", "\x0a", "\x1f", "\x7f", "\u0085", "\u00a0", "\u2003", "\u200b", "\u2010", "\u2026", "\u20a0", "\u20ac", "\u3000", "ä", "é", "€", "😀", "日本", "edu/", "EDU/", "://", "%2f", "%0a", "c", "C", "_", "0", "ff"}

// genID draws an identifier: words and specials, sometimes long.
func genID(t *rapid.T, label string) string {
	var b strings.Builder
	n := rapid.IntRange(1, 8).Draw(t, label+"N")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 11).Draw(t, label+"K") {
		case 0, 1, 2, 3:
			b.WriteString(rapid.SampledFrom([]string{"a", "b", "ab", "obj", "urn", "info", "http", "12887296", "0012", "abc123", "https://institution.edu/", "namespace:", "ark:/13030/xt12t3", "A", "object-01", "fallback", "extensions"}).Draw(t, label+"W"))
		case 4, 5, 6, 7, 8:
			b.WriteString(rapid.SampledFrom(idSpecials).Draw(t, label+"S"))
		case 9:
			b.WriteString(rapid.StringN(1, 4, -1).Draw(t, label+"R"))
		case 10:
			b.WriteString(rapid.StringMatching(`[a-z0-9 :.%-]{1,12}`).Draw(t, label+"M"))
		default:
			k := rapid.SampledFrom([]int{3, 20, 40, 95, 99, 100, 101, 128, 260}).Draw(t, label+"L")
			u := rapid.SampledFrom([]string{"x", "ab", "é", "/y", "z:", " "}).Draw(t, label+"U")
			b.WriteString(strings.Repeat(u, k/len(u)+1))
		}
	}
	return b.String()
}

// ---- oracles --------------------------------------------------------------

func hexDigest(alg, s string) string {
	switch alg {
	case "md5":
		x := md5.Sum([]byte(s))
		return hex.EncodeToString(x[:])
	case "sha1":
		x := sha1.Sum([]byte(s))
		return hex.EncodeToString(x[:])
	case "sha256":
		x := sha256.Sum256([]byte(s))
		return hex.EncodeToString(x[:])
	case "sha512":
		x := sha512.Sum512([]byte(s))
		return hex.EncodeToString(x[:])
	}
	panic(alg)
}

type wantPath struct {
	path string
	err  bool
	skip bool // the specification leaves the case open
}

func cfgInt(c extCfg, k string) int    { i, _ := c[k].(int); return i }
func cfgStr(c extCfg, k string) string { s, _ := c[k].(string); return s }
func cfgBool(c extCfg, k string) bool  { b, _ := c[k].(bool); return b }

// afterPrefix removes the prefix up to the last delimiter (ignoring case).
func afterPrefix(id, delim string) (string, bool) {
	i := strings.LastIndex(asciiLower(id), asciiLower(delim))
	if i < 0 {
		return id, true
	}
	r := id[i+len(delim):]
	return r, r != ""
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// oracleLayout computes the path the extension's text defines.
func oracleLayout(c extCfg, id string) wantPath {
	switch c.name() {
	case "0002-flat-direct-storage-layout":
		return wantPath{path: id}
	case "0003-hash-and-id-n-tuple-storage-layout", "0004-hashed-n-tuple-storage-layout":
		d := hexDigest(cfgStr(c, "digestAlgorithm"), id)
		ts, n := cfgInt(c, "tupleSize"), cfgInt(c, "numberOfTuples")
		if ts*n > len(d) {
			return wantPath{err: true}
		}
		p := ""
		rest := d
		for i := 0; i < n; i++ {
			p += rest[:ts] + "/"
			rest = rest[ts:]
		}
		if strings.HasPrefix(c.name(), "0004") {
			if cfgBool(c, "shortObjectRoot") {
				if rest == "" {
					return wantPath{err: true}
				}
				return wantPath{path: p + rest}
			}
			return wantPath{path: p + d}
		}
		const safe = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
		enc := ""
		for i := 0; i < len(id); i++ {
			if strings.IndexByte(safe, id[i]) >= 0 {
				enc += id[i : i+1]
			} else {
				enc += "%" + string("0123456789abcdef"[id[i]>>4]) + string("0123456789abcdef"[id[i]&15])
			}
		}
		if len(enc) > 100 {
			enc = enc[:100] + "-" + d
		}
		return wantPath{path: p + enc}
	case "0006-flat-omit-prefix-storage-layout":
		r, ok := afterPrefix(id, cfgStr(c, "delimiter"))
		return wantPath{path: r, err: !ok}
	case "0007-n-tuple-omit-prefix-storage-layout":
		r, ok := afterPrefix(id, cfgStr(c, "delimiter"))
		if !ok {
			return wantPath{err: true}
		}
		for i := 0; i < len(r); i++ {
			if r[i] >= 0x80 {
				return wantPath{skip: true}
			}
		}
		ts, n := cfgInt(c, "tupleSize"), cfgInt(c, "numberOfTuples")
		padded := r
		for len(padded) < ts*n {
			if cfgStr(c, "zeroPadding") == "right" {
				padded += "0"
			} else {
				padded = "0" + padded
			}
		}
		if cfgBool(c, "reverseObjectRoot") {
			b := []byte(padded)
			for i, k := 0, len(b)-1; i < k; i, k = i+1, k-1 {
				b[i], b[k] = b[k], b[i]
			}
			padded = string(b)
		}
		p := ""
		for i := 0; i < n; i++ {
			p += padded[i*ts:(i+1)*ts] + "/"
		}
		return wantPath{path: p + r}
	case "NNNN-pairtree-storage-layout":
		enc := ""
		for i := 0; i < len(id); i++ {
			ch := id[i]
			switch {
			case ch < 0x21 || ch > 0x7e || strings.IndexByte("\"*+,<=>?\\^|", ch) >= 0:
				enc += fmt.Sprintf("^%02x", ch)
			case ch == '/':
				enc += "="
			case ch == ':':
				enc += "+"
			case ch == '.':
				enc += ","
			default:
				enc += string(ch)
			}
		}
		k := cfgInt(c, "shortyLength")
		var parts []string
		for len(enc) > k {
			parts = append(parts, enc[:k])
			enc = enc[k:]
		}
		return wantPath{path: strings.Join(append(parts, enc), "/")}
	}
	panic(c.name())
}

func genLayoutCfg(t *rapid.T) extCfg {
	alg := rapid.SampledFrom([]string{"md5", "sha1", "sha256", "sha512"})
	delims := []string{":", "/", "edu/", "::", "-", "x"}
	switch rapid.SampledFrom([]int{2, 3, 4, 6, 7, 9}).Draw(t, "layout") {
	case 2:
		return ext("0002-flat-direct-storage-layout")
	case 3, 4:
		ts, n := rapid.IntRange(1, 32).Draw(t, "tupleSize"), rapid.IntRange(1, 32).Draw(t, "tuples")
		if rapid.IntRange(0, 3).Draw(t, "small") > 0 {
			ts, n = rapid.IntRange(1, 8).Draw(t, "tupleSizeS"), rapid.IntRange(1, 8).Draw(t, "tuplesS")
		}
		if rapid.IntRange(0, 7).Draw(t, "none") == 0 {
			ts, n = 0, 0
		}
		if rapid.Bool().Draw(t, "hashed") {
			return ext("0004-hashed-n-tuple-storage-layout", "digestAlgorithm", alg.Draw(t, "alg"), "tupleSize", ts, "numberOfTuples", n, "shortObjectRoot", rapid.Bool().Draw(t, "short"))
		}
		return ext("0003-hash-and-id-n-tuple-storage-layout", "digestAlgorithm", alg.Draw(t, "alg"), "tupleSize", ts, "numberOfTuples", n)
	case 6:
		return ext("0006-flat-omit-prefix-storage-layout", "delimiter", rapid.SampledFrom(delims).Draw(t, "delim"))
	case 7:
		return ext("0007-n-tuple-omit-prefix-storage-layout", "delimiter", rapid.SampledFrom(delims).Draw(t, "delim"),
			"tupleSize", rapid.IntRange(1, 8).Draw(t, "tupleSize"), "numberOfTuples", rapid.IntRange(1, 8).Draw(t, "tuples"),
			"zeroPadding", rapid.SampledFrom([]string{"left", "right"}).Draw(t, "pad"), "reverseObjectRoot", rapid.Bool().Draw(t, "reverse"))
	}
	return ext("NNNN-pairtree-storage-layout", "uriBase", "https://x.org", "storeDir", "", "shortyLength", rapid.IntRange(1, 6).Draw(t, "shorty"), "digestAlgorithm", alg.Draw(t, "alg"))
}

// C16: registered layouts follow their specification.
func TestC16(t *testing.T) {
	f := newFactory(factoryOpts{})
	runCheck(t, "layouts", 120000, 3000000, func(t *rapid.T) {
		c := genLayoutCfg(t)
		e, err := newExt(f, c)
		if err != nil {
			t.Fatalf("configuration %s is refused: %v", j(c), err)
		}
		n := rapid.IntRange(1, 3).Draw(t, "n")
		var ids []string
		for i := 0; i < n; i++ {
			ids = append(ids, genID(t, "id"))
		}
		if rapid.Bool().Draw(t, "again") {
			ids = append(ids, ids[0])
		}
		decided := false
		for _, id := range ids {
			want := oracleLayout(c, id)
			var got string
			var err error
			if p := noPanic(func() { got, err = rootPath(e, id) }); p != "" {
				t.Fatalf("%s panics for %q: %s", j(c), id, p)
			}
			switch {
			case want.skip:
				continue
			case want.err && err == nil:
				t.Fatalf("%s maps %q to %q, the id must be refused", j(c), id, got)
			case want.err:
			case err != nil:
				t.Fatalf("%s refuses %q: %v (want %q)", j(c), id, err, want.path)
			case got != want.path:
				t.Fatalf("%s maps %q to %q instead of %q", j(c), id, got, want.path)
			}
			decided = true
		}
		count("layouts", j(c)+j(ids), decided && len(ids[0]) > 2, map[string]any{"config": c, "ids": ids}, c.name())
	})
	// omitted parameters have the defaults of the specification
	runCheck(t, "defaults", 6000, 60000, func(t *rapid.T) {
		full := rapid.SampledFrom([]extCfg{
			ext("0003-hash-and-id-n-tuple-storage-layout", "digestAlgorithm", "sha256", "tupleSize", 3, "numberOfTuples", 3),
			ext("0004-hashed-n-tuple-storage-layout", "digestAlgorithm", "sha256", "tupleSize", 3, "numberOfTuples", 3, "shortObjectRoot", false),
			ext("0007-n-tuple-omit-prefix-storage-layout", "delimiter", ":", "tupleSize", 3, "numberOfTuples", 3, "zeroPadding", "left", "reverseObjectRoot", false),
		}).Draw(t, "config")
		part := extCfg{}
		left := 0
		for _, k := range sortedKeys(full) {
			if k == "extensionName" || rapid.Bool().Draw(t, "keep "+k) {
				part[k] = full[k]
			} else {
				left++
			}
		}
		e, err := newExt(f, part)
		if err != nil {
			t.Fatalf("%s is refused: %v", j(part), err)
		}
		id := genID(t, "id")
		want := oracleLayout(full, id)
		if want.skip {
			return
		}
		got, err := rootPath(e, id)
		if (err != nil) != want.err || err == nil && got != want.path {
			t.Fatalf("%s maps %q to %q (%v), with its defaults it is %q (error: %v)", j(part), id, got, err, want.path, want.err)
		}
		count("defaults", j(part)+id, left > 0, map[string]any{"config": part, "id": id})
	})
}

// ---- direct-clean ---------------------------------------------------------

func isForbidden(r rune) bool {
	return r <= 0x1f || r == 0x7f || strings.ContainsRune("*?:[]\"<>|(){}&'!;#@", r)
}

func isBlank(r rune) bool {
	switch {
	case r >= 0x09 && r <= 0x0d, r == 0x20, r == 0x85, r == 0xa0, r == 0x1680, r >= 0x2000 && r <= 0x200f, r == 0x2028, r == 0x2029, r == 0x202f, r == 0x205f, r == 0x3000:
		return true
	}
	return false
}

func onlyDots(s string) bool { return s != "" && strings.Trim(s, ".") == "" }

func isHex4(r []rune) bool {
	if len(r) < 4 {
		return false
	}
	for _, c := range r[:4] {
		if !strings.ContainsRune("0123456789abcdefABCDEF", c) {
			return false
		}
	}
	return true
}

func isAlnum4(r []rune) bool {
	if len(r) < 4 {
		return false
	}
	for _, c := range r[:4] {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return true
}

type dcleanCfg struct {
	Path, Seg  int
	Repl, WS   string
	UTF        bool
	Alg        string
	Folder     string
	Tuples, TS int
}

func (c dcleanCfg) ext() extCfg {
	return ext("NNNN-direct-clean-path-layout", "maxPathnameLen", c.Path, "maxPathSegmentLen", c.Seg, "replacementString", c.Repl,
		"whitespaceReplacementString", c.WS, "utfEncode", c.UTF, "fallbackDigestAlgorithm", c.Alg, "fallbackFolder", c.Folder,
		"numberOfFallbackTuples", c.Tuples, "fallbackTupleSize", c.TS)
}

// cleanOracle applies the documented rules. It returns the acceptable results
// (where the text is open there are two), err if an error is the answer, and
// open if the text does not decide.
func cleanOracle(c dcleanCfg, name string) (res []string, err, open bool) {
	if !utf8.ValidString(name) {
		return nil, false, true
	}
	var parts []string
	for _, p := range strings.Split(name, "/") {
		if p == "" {
			continue
		}
		out := ""
		rs := []rune(p)
		if c.UTF {
			for i, r := range rs {
				switch {
				case r == '=' && i+1 < len(rs) && rs[i+1] == 'u' && isAlnum4(rs[i+2:]):
					if !isHex4(rs[i+2:]) {
						return nil, false, true // "hex digits" in the text, letters in its code
					}
					out += "=u003D"
				case isForbidden(r) || isBlank(r):
					out += fmt.Sprintf("=u%04X", r)
				case i == 0 && r == '~':
					out += "=u007E"
				case i == 0 && r == '.' && onlyDots(p):
					out += "=u002E"
				default:
					out += string(r)
				}
			}
		} else {
			for _, r := range rs {
				switch {
				case isBlank(r):
					out += c.WS
				case isForbidden(r):
					out += c.Repl
				default:
					out += string(r)
				}
			}
			out = strings.TrimLeftFunc(out, func(r rune) bool { return isBlank(r) || r == '-' || r == '~' })
			out = strings.TrimRightFunc(out, isBlank)
			if onlyDots(out) {
				out = c.Repl + out[1:]
			}
			if out == "." || out == ".." {
				return nil, true, false
			}
		}
		if len(out) > c.Seg {
			fb, ok := cleanFallback(c, name)
			if !ok {
				return nil, true, false
			}
			return []string{fb}, false, false
		}
		if out != "" {
			parts = append(parts, out)
		}
	}
	joined := strings.Join(parts, "/")
	if len(joined) > c.Path {
		a, ok1 := cleanFallback(c, name)
		b, ok2 := cleanFallback(c, joined)
		if !ok1 || !ok2 {
			return nil, true, false
		}
		return []string{a, b}, false, false
	}
	return []string{joined}, false, false
}

func cleanFallback(c dcleanCfg, name string) (string, bool) {
	d := hexDigest(c.Alg, name)
	var segs []string
	segs = append(segs, c.Folder)
	ts := c.TS
	if ts == 0 {
		ts = 1
	}
	for i := 0; i < c.Tuples; i++ {
		segs = append(segs, d[i*ts:(i+1)*ts])
	}
	for rest := d; rest != ""; {
		k := c.Seg
		if k > len(rest) {
			k = len(rest)
		}
		segs = append(segs, rest[:k])
		rest = rest[k:]
	}
	p := strings.Join(segs, "/")
	return p, len(p) <= c.Path
}

func genDclean(t *rapid.T) dcleanCfg {
	c := dcleanCfg{Path: 32000, Seg: 127, Repl: "_", WS: " ", Alg: "md5", Folder: "fallback"}
	c.UTF = rapid.Bool().Draw(t, "utf")
	if rapid.Bool().Draw(t, "limits") {
		c.Seg = rapid.SampledFrom([]int{8, 16, 31, 64, 127, 200}).Draw(t, "seg")
		c.Path = rapid.SampledFrom([]int{20, 40, 80, 200, 1000}).Draw(t, "path")
	}
	c.Repl = rapid.SampledFrom([]string{"_", "_", "-", "__", "", "x"}).Draw(t, "repl")
	c.WS = rapid.SampledFrom([]string{" ", "_", "", "-", "__"}).Draw(t, "ws")
	c.Alg = rapid.SampledFrom([]string{"md5", "sha1", "sha256", "sha512"}).Draw(t, "alg")
	c.Folder = rapid.SampledFrom([]string{"fallback", "long", "f"}).Draw(t, "folder")
	c.TS = rapid.IntRange(0, 3).Draw(t, "ts")
	c.Tuples = rapid.IntRange(0, 4).Draw(t, "tuples")
	return c
}

// C18: direct-clean follows the documented rules.
func TestC18(t *testing.T) {
	f := newFactory(factoryOpts{})
	runCheck(t, "rules", 120000, 3000000, func(t *rapid.T) {
		c := genDclean(t)
		cfg := c.ext()
		if rapid.IntRange(0, 5).Draw(t, "documentedName") == 0 {
			delete(cfg, "utfEncode")
			cfg["encodeUTF"] = c.UTF
		}
		e, err := newExt(f, cfg)
		if err != nil {
			t.Fatalf("configuration %s is refused: %v", j(cfg), err)
		}
		name := genID(t, "name")
		want, wantErr, open := cleanOracle(c, name)
		asContent := rapid.Bool().Draw(t, "content")
		var got string
		if p := noPanic(func() {
			if asContent {
				got, err = e.(ocfl.ExtensionObjectContentPath).BuildObjectManifestPath(nil, name, "content")
			} else {
				got, err = rootPath(e, name)
			}
		}); p != "" {
			t.Fatalf("%s panics for %q: %s", j(cfg), name, p)
		}
		if err == nil {
			if s := badClean(c, got); s != "" {
				t.Fatalf("%s maps %q to %q: %s", j(cfg), name, got, s)
			}
		}
		if open {
			count("rules", "", false, nil, "left open by the text")
			return
		}
		if wantErr {
			if err == nil {
				t.Fatalf("%s maps %q to %q, want an error", j(cfg), name, got)
			}
			count("rules", j(cfg)+name, true, nil, "error")
			return
		}
		if err != nil {
			t.Fatalf("%s refuses %q: %v (want %q)", j(cfg), name, err, want)
		}
		ok := false
		for _, w := range want {
			ok = ok || w == got
		}
		if !ok {
			t.Fatalf("%s maps %q to %q instead of %q", j(cfg), name, got, want)
		}
		cl := "unchanged"
		if strings.HasPrefix(got, c.Folder+"/") {
			cl = "fallback"
		} else if got != name {
			cl = "changed"
		}
		count("rules", j(cfg)+name, got != name, map[string]any{"config": cfg, "name": name, "path": got}, cl, map[bool]string{true: "utf", false: "replace"}[c.UTF])
	})
	runCheck(t, "defaults", 6000, 60000, func(t *rapid.T) {
		// omitted parameters have the documented defaults
		cfg := ext("NNNN-direct-clean-path-layout")
		if rapid.Bool().Draw(t, "alg") {
			cfg["fallbackDigestAlgorithm"] = "md5"
		}
		e, err := newExt(f, cfg)
		if err != nil {
			t.Fatalf("%s: %v", j(cfg), err)
		}
		name := genID(t, "name")
		want, wantErr, open := cleanOracle(dcleanCfg{Path: 32000, Seg: 127, Repl: "_", WS: " ", Alg: "md5", Folder: "fallback"}, name)
		got, err := rootPath(e, name)
		if open || cfg["fallbackDigestAlgorithm"] == nil && strings.HasPrefix(got, "fallback/") {
			return
		}
		if wantErr != (err != nil) || err == nil && got != want[0] {
			t.Fatalf("%s maps %q to %q (%v) instead of %q", j(cfg), name, got, err, want)
		}
		count("defaults", name, got != name, map[string]any{"name": name, "path": got})
	})
}

// badClean names what is wrong with a cleaned path.
func badClean(c dcleanCfg, p string) string {
	if len(p) > c.Path {
		return "too long"
	}
	if p == "" {
		return ""
	}
	for _, s := range strings.Split(p, "/") {
		switch {
		case s == "" || s == "." || s == "..":
			return fmt.Sprintf("segment %q", s)
		case len(s) > c.Seg && s != c.Folder:
			return "segment too long"
		}
		for _, r := range s {
			if isForbidden(r) || isBlank(r) && (c.UTF || r != ' ') {
				return fmt.Sprintf("contains %q", r)
			}
		}
		if c.UTF && s[0] == '~' || !c.UTF && strings.ContainsAny(s[:1], "~ ") || !c.UTF && strings.HasSuffix(s, " ") {
			return fmt.Sprintf("segment %q", s)
		}
	}
	return ""
}

// ---- injectivity ----------------------------------------------------------

// canonical removes empty segments.
func canonical(id string) string {
	var l []string
	for _, s := range strings.Split(id, "/") {
		if s != "" && s != "." && s != ".." {
			l = append(l, s)
		}
	}
	return strings.Join(l, "/")
}

// neighbour derives an id which a sloppy encoding confuses with id.
func neighbour(t *rapid.T, id string) string {
	r := []rune(id)
	if len(r) == 0 {
		return "x"
	}
	k := rapid.IntRange(0, len(r)-1).Draw(t, "pos")
	c := r[k]
	set := func(s string) string { return string(r[:k]) + s + string(r[k+1:]) }
	switch rapid.IntRange(0, 11).Draw(t, "how") {
	case 0:
		return set(fmt.Sprintf("=u%04X", c))
	case 1:
		return set(fmt.Sprintf("^%x", string(c)))
	case 2:
		return set(fmt.Sprintf("%%%x", string(c)))
	case 3:
		return set(map[rune]string{'/': "=", ':': "+", '.': ",", '=': "/", '+': ":", ',': "."}[c] + "")
	case 4:
		return set(strings.ToUpper(string(c)))
	case 5:
		return set(strings.ToLower(string(c)))
	case 6:
		return set("")
	case 7:
		return set(string(c) + string(c))
	case 8:
		return set("_")
	case 9:
		return rapid.SampledFrom([]string{"~", "-", " ", ".", "=", "u003D", "0"}).Draw(t, "lead") + id
	case 10:
		return id + rapid.SampledFrom([]string{"~", "-", " ", ".", "=", "0", "\u2026", "\n"}).Draw(t, "trail")
	}
	return strings.ReplaceAll(strings.ReplaceAll(id, "=u003D", "="), "^3d", "=")
}

// C17: layouts which encode the whole id are injective.
func TestC17(t *testing.T) {
	f := newFactory(factoryOpts{})
	runCheck(t, "pairs", 120000, 3000000, func(t *rapid.T) {
		var c extCfg
		switch rapid.IntRange(0, 5).Draw(t, "layout") {
		case 0:
			c = ext("0002-flat-direct-storage-layout")
		case 1:
			c = ext("0003-hash-and-id-n-tuple-storage-layout", "digestAlgorithm", "sha256", "tupleSize", rapid.IntRange(1, 4).Draw(t, "ts"), "numberOfTuples", rapid.IntRange(1, 4).Draw(t, "n"))
		case 2:
			c = ext("0004-hashed-n-tuple-storage-layout", "digestAlgorithm", rapid.SampledFrom([]string{"sha256", "md5", "sha512"}).Draw(t, "alg"), "tupleSize", rapid.IntRange(1, 4).Draw(t, "ts"), "numberOfTuples", rapid.IntRange(1, 4).Draw(t, "n"), "shortObjectRoot", rapid.Bool().Draw(t, "short"))
		case 3:
			c = ext("NNNN-pairtree-storage-layout", "uriBase", "", "storeDir", "", "shortyLength", rapid.IntRange(1, 4).Draw(t, "shorty"), "digestAlgorithm", "sha512")
		default:
			d := genDclean(t)
			d.UTF = true
			c = d.ext()
		}
		e, err := newExt(f, c)
		if err != nil {
			t.Fatalf("%s is refused: %v", j(c), err)
		}
		content := c.name() == "NNNN-direct-clean-path-layout" && rapid.Bool().Draw(t, "content")
		get := func(id string) (string, error) {
			if content {
				return e.(ocfl.ExtensionObjectContentPath).BuildObjectManifestPath(nil, id, "content")
			}
			return rootPath(e, id)
		}
		a := genID(t, "id")
		b := a
		for i := rapid.IntRange(1, 2).Draw(t, "steps"); i > 0; i-- {
			b = neighbour(t, b)
		}
		hashed := strings.HasPrefix(c.name(), "0003") || strings.HasPrefix(c.name(), "0004")
		if !hashed {
			a, b = canonical(a), canonical(b)
		}
		if a == b || a == "" || b == "" || !utf8.ValidString(a) || !utf8.ValidString(b) {
			count("pairs", "", false, nil, "same id")
			return
		}
		pa, ea := get(a)
		pb, eb := get(b)
		if ea != nil || eb != nil {
			count("pairs", "", false, nil, "refused")
			return
		}
		if path.Clean("/"+pa) == path.Clean("/"+pb) {
			t.Fatalf("%s maps %q and %q to %q", j(c), a, b, pa)
		}
		if hashed && (strings.HasPrefix(pa, pb+"/") || strings.HasPrefix(pb, pa+"/")) {
			t.Fatalf("%s puts %q at %q and %q at %q", j(c), a, pa, b, pb)
		}
		count("pairs", j(c)+a+"\x00"+b, true, map[string]any{"layout": c.name(), "ids": []string{a, b}, "paths": []string{pa, pb}}, c.name())
	})
}

// ---- containment ----------------------------------------------------------

func anyLayout(t *rapid.T) []extCfg {
	l := []extCfg{initialExt, rootManager}
	switch rapid.IntRange(0, 3).Draw(t, "layoutKind") {
	case 0:
		return rapid.SampledFrom(layouts()).Draw(t, "layout").exts
	case 1:
		d := genDclean(t)
		d.Repl = rapid.SampledFrom([]string{"_", "", ".", "..", "/", "../"}).Draw(t, "badRepl")
		d.WS = rapid.SampledFrom([]string{" ", "", ".", "/"}).Draw(t, "badWS")
		d.Folder = rapid.SampledFrom([]string{"fallback", "..", "../x", "extensions", "/abs"}).Draw(t, "badFolder")
		return append(l, d.ext())
	case 2:
		return append(l, ext("NNNN-direct-path-layout"))
	}
	return append(l, genLayoutCfg(t))
}

func hostileID(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "idKind") {
	case 0:
		return rapid.SampledFrom([]string{"", ".", "..", "/", "//", "../", "../outside", "a/../../outside", "a/..", "./", "./.", "extensions", "extensions/x", "/extensions/x", "./extensions", "a/../extensions/x",
			"/etc/passwd", "..\\..\\x", "urn:..", "urn:../x", "urn:", "x:.", "x:extensions", "x:/", "taken/v1/content/x", "taken", "taken/extensions/x", "taken/", "/taken/", "taken/./x", "\x00", "a\x00b", "~", "-", " ", "...", "a/ /b",
			"x:taken/y", "urn:taken", strings.Repeat("a", 300), strings.Repeat("a/", 2000), "\xff\xfe", "0=ocfl_1.1", "README.md", "ocfl_layout.json", "x:0=ocfl_1.1/y"}).Draw(t, "idHostile")
	case 1:
		n := rapid.IntRange(1, 5).Draw(t, "idSegs")
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, rapid.SampledFrom([]string{"..", ".", "", "a", "taken", "extensions", "v1", "content", " ", "~..", "-..", ".. ", "..:", ":..", "~", "\x00", "..\\"}).Draw(t, "idSeg"))
		}
		return strings.Join(l, "/")
	case 2:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "idBytes"))
	}
	return genID(t, "id")
}

// C15: no identifier places an object outside of the storage root.
func TestC15(t *testing.T) {
	runCheck(t, "hostile", 8000, 200000, func(t *rapid.T) {
		cfg := &histCfg{Version: "1.1", Layout: anyLayout(t), Digest: "sha256", Exts: []extCfg{initialExt, objManager}}
		h, err := newHist(cfg)
		if err != nil {
			// some of the configurations are rightly refused
			if len(h.w.escapes) > 0 {
				t.Fatalf("layout %s: access outside: %v", j(cfg.Layout), h.w.escapes)
			}
			count("hostile", "", false, nil, "layout refused")
			return
		}
		put := func(id string) error {
			s := &session{ID: id, User: "u", Addr: "mailto:u", Steps: []step{{Kind: "data", Paths: []string{"f.txt"}, Blob: blob{Size: 9, Tag: 1}}}}
			return h.run(s)
		}
		_ = put("taken")
		id := hostileID(t)
		before := h.w.snapshot("/")
		existing := objectFolders(h.w.snapshot(rootDir))
		var e1, e2 error
		var exists bool
		if p := noPanic(func() {
			exists, e1 = h.sr.ObjectExists(id)
			if e1 == nil && !exists {
				e2 = put(id)
			} else {
				_, e2 = h.sr.LoadObjectByID(id)
			}
			_ = h.sr.CheckObjectByID(id)
			_ = h.sr.Extract(newWorld().mount("/t"), "", id, "", false, "")
		}); p != "" {
			t.Fatalf("layout %s, id %q: panic %s", j(cfg.Layout), id, p)
		}
		after := h.w.snapshot("/")
		if len(h.w.escapes) > 0 {
			t.Fatalf("layout %s, id %q: access outside of the storage root: %v", j(cfg.Layout[2:]), id, h.w.escapes)
		}
		base := strings.TrimPrefix(rootDir, "/") + "/"
		var added []string
		for f := range after {
			if _, ok := before[f]; !ok {
				if !strings.HasPrefix(f, base) {
					t.Fatalf("layout %s, id %q: %q was written outside of the storage root", j(cfg.Layout[2:]), id, f)
				}
				added = append(added, strings.TrimPrefix(f, base))
			}
		}
		for f, c := range before {
			a, ok := after[f]
			if !ok || a != c {
				t.Fatalf("layout %s, id %q: %q was changed or removed", j(cfg.Layout[2:]), id, f)
			}
		}
		folders := objectFolders(h.w.snapshot(rootDir))
		for _, f := range added {
			if strings.HasPrefix(f, "extensions/") {
				t.Fatalf("layout %s, id %q: %q was written into the extensions of the storage root", j(cfg.Layout[2:]), id, f)
			}
			for _, o := range existing {
				if strings.HasPrefix(f, o+"/") {
					t.Fatalf("layout %s, id %q: %q was written into the object at %q", j(cfg.Layout[2:]), id, f, o)
				}
			}
		}
		cl := "refused"
		if e1 == nil && !exists && e2 == nil {
			cl = "created"
			if len(folders) != len(existing)+1 {
				t.Fatalf("layout %s, id %q: created, but object folders are %q", j(cfg.Layout[2:]), id, folders)
			}
			for _, o := range folders {
				if o == "." || o == "" {
					t.Fatalf("layout %s, id %q: object in the storage root itself", j(cfg.Layout[2:]), id)
				}
			}
		} else if exists {
			cl = "exists"
		}
		count("hostile", j(cfg.Layout[2:])+id, true, map[string]any{"layout": cfg.Layout[2:], "id": id, "result": cl}, cl)
	})
}
