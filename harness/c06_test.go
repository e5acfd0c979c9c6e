package zzverif

import (
	"fmt"
	"path"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// mctx is an inventory which is to be broken.
type mctx struct {
	t    *rapid.T
	o    *fObject
	k    int            // version whose inventory is broken
	inv  map[string]any // that inventory
	head bool           // it is the head (and root) inventory
	spec string
	alg  string
}

// mutation breaks one rule; it returns a description, "" if not applicable.
type mutation struct {
	name string
	do   func(m *mctx) string
}

func pick[T any](t *rapid.T, label string, l []T) T { return rapid.SampledFrom(l).Draw(t, label) }

func (m *mctx) versions() map[string]any { v, _ := m.inv["versions"].(map[string]any); return v }
func (m *mctx) manifest() map[string]any { v, _ := m.inv["manifest"].(map[string]any); return v }

// version picks a version block.
func (m *mctx) version() (string, map[string]any) {
	n := pick(m.t, "version block", sortedKeys(m.versions()))
	return n, m.versions()[n].(map[string]any)
}

// state picks a version which has files, with one digest of it.
func (m *mctx) state() (string, map[string]any, string) {
	var l []string
	for _, n := range sortedKeys(m.versions()) {
		if len(m.versions()[n].(map[string]any)["state"].(map[string]any)) > 0 {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		return "", nil, ""
	}
	n := pick(m.t, "state of", l)
	st := m.versions()[n].(map[string]any)["state"].(map[string]any)
	return n, st, pick(m.t, "digest", sortedKeys(st))
}

// digest picks a digest of the manifest.
func (m *mctx) digest() string {
	l := sortedKeys(m.manifest())
	if len(l) == 0 {
		return ""
	}
	return pick(m.t, "manifest digest", l)
}

func remove(l []any, i int) []any { return append(append([]any{}, l[:i]...), l[i+1:]...) }

var badPaths = []string{"", "/", "/a", "a/", "a//b", "./a", "a/./b", "../a", "a/../b", "a/..", ".", "..", "/../x", "//a", "a/b/.."}

func flipCase(d string) string {
	if u := strings.ToUpper(d); u != d {
		return u
	}
	return strings.ToLower(d)
}

func mutations() []mutation {
	var l []mutation
	add := func(name string, do func(m *mctx) string) { l = append(l, mutation{name, do}) }
	key := func(k string) {
		add("no "+k, func(m *mctx) string {
			delete(m.inv, k)
			return k
		})
	}
	for _, k := range []string{"id", "type", "digestAlgorithm", "head", "manifest", "versions"} {
		key(k)
		k := k
		add("type of "+k, func(m *mctx) string {
			bad := []any{3, []any{}, []any{"x"}, true}
			if k == "manifest" || k == "versions" {
				bad = append(bad, "text")
			} else {
				bad = append(bad, map[string]any{}, map[string]any{"a": "b"}, "")
			}
			m.inv[k] = pick(m.t, "value", bad)
			return fmt.Sprint(m.inv[k])
		})
		add("case of key "+k, func(m *mctx) string {
			v := m.inv[k]
			delete(m.inv, k)
			m.inv[strings.ToUpper(k[:1])+k[1:]] = v
			return k
		})
	}
	add("type value", func(m *mctx) string {
		m.inv["type"] = pick(m.t, "value", []any{"https://ocfl.io/1.0/spec/", "https://ocfl.io/1.2/spec/#inventory", "https://ocfl.io/1.0/spec/#Inventory", "inventory", "http://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/1.0/spec#inventory"})
		return fmt.Sprint(m.inv["type"])
	})
	add("other type than declared", func(m *mctx) string {
		if !m.head {
			return ""
		}
		if m.spec == "1.0" {
			m.inv["type"] = "https://ocfl.io/1.1/spec/#inventory"
		} else {
			m.inv["type"] = "https://ocfl.io/1.0/spec/#inventory"
		}
		return fmt.Sprint(m.inv["type"])
	})
	add("id of old version", func(m *mctx) string {
		id, _ := m.inv["id"].(string)
		if m.head || id == "" {
			return ""
		}
		c := []string{id + " ", id + "x", "x", id[:len(id)-1], " " + id}
		if x := flipCase(id); x != id {
			c = append(c, x, x)
		}
		m.inv["id"] = pick(m.t, "value", c)
		return fmt.Sprint(m.inv["id"])
	})
	add("later type in old version", func(m *mctx) string {
		if m.head || m.o.Decl != "1.0" {
			return ""
		}
		m.inv["type"] = "https://ocfl.io/1.1/spec/#inventory"
		return m.o.Vers[m.k].Name
	})
	add("digestAlgorithm value", func(m *mctx) string {
		m.inv["digestAlgorithm"] = pick(m.t, "value", []any{"md5", "sha1", "SHA512", "sha-512", "unknown", "blake2b-512"})
		return fmt.Sprint(m.inv["digestAlgorithm"])
	})
	add("head value", func(m *mctx) string {
		old := m.inv["head"].(string)
		c := []any{"v99", "1", "V1", "v0", "latest", old + " ", "x" + old}
		for _, n := range sortedKeys(m.versions()) {
			if n != old {
				c = append(c, n, n)
			}
		}
		m.inv["head"] = pick(m.t, "value", c)
		return fmt.Sprint(m.inv["head"])
	})
	add("id differs", func(m *mctx) string {
		if m.head {
			return ""
		}
		m.inv["id"] = m.o.ID + "x"
		return m.o.Vers[m.k].Name
	})
	add("contentDirectory value", func(m *mctx) string {
		m.inv["contentDirectory"] = pick(m.t, "value", []any{".", "..", "a/b", "/content", "content/", 3, []any{"content"}})
		return fmt.Sprint(m.inv["contentDirectory"])
	})
	add("contentDirectory differs", func(m *mctx) string {
		if m.head {
			return ""
		}
		if m.o.CDir == "" {
			m.inv["contentDirectory"] = "data"
		} else {
			m.inv["contentDirectory"] = m.o.CDir + "x"
		}
		return m.o.Vers[m.k].Name
	})
	add("unknown key", func(m *mctx) string {
		if m.spec == "1.0" {
			return ""
		}
		switch rapid.IntRange(0, 2).Draw(m.t, "where") {
		case 0:
			m.inv["comment"] = "x"
			return "inventory"
		case 1:
			n, v := m.version()
			v["comment"] = "x"
			return n
		}
		n, v := m.version()
		u, ok := v["user"].(map[string]any)
		if !ok {
			return ""
		}
		u["email"] = "x"
		return "user of " + n
	})
	// versions
	add("no version blocks", func(m *mctx) string { m.inv["versions"] = map[string]any{}; return "{}" })
	add("version missing", func(m *mctx) string {
		names := sortedKeys(m.versions())
		if len(names) < 2 {
			return ""
		}
		n := pick(m.t, "version", names)
		delete(m.versions(), n)
		return n
	})
	add("version added", func(m *mctx) string {
		names := sortedKeys(m.versions())
		v := m.versions()[names[0]]
		n := pick(m.t, "name", []string{"v0", "v00", "v-1", "x", "1", "V1", "v1.0", "v9", "v1 ", "v", "v0001x"})
		if _, ok := m.versions()[n]; ok {
			return ""
		}
		m.versions()[n] = deepCopy(v)
		return n
	})
	add("mixed padding", func(m *mctx) string {
		n, v := m.version()
		w := strings.Replace(n, "v", "v0", 1)
		delete(m.versions(), n)
		m.versions()[w] = v
		if m.inv["head"] == n {
			m.inv["head"] = w
		}
		return w
	})
	add("version type", func(m *mctx) string {
		n, _ := m.version()
		m.versions()[n] = pick(m.t, "value", []any{"text", 1, []any{}, nil})
		return fmt.Sprint(n, m.versions()[n])
	})
	add("no created", func(m *mctx) string { n, v := m.version(); delete(v, "created"); return n })
	add("no state", func(m *mctx) string { n, v := m.version(); delete(v, "state"); return n })
	add("created value", func(m *mctx) string {
		n, v := m.version()
		v["created"] = pick(m.t, "value", []any{"", "2019-01-01", "2019-01-01T02:03:04", "2019-13-01T02:03:04Z", "2019-02-30T02:03:04Z", "2019-01-01 02:03:04Z", "2019-1-1T2:03:04Z",
			"2019-01-01T02:03:04+0100", "2019-01-01T02:03:04+01", "2019-01-01T25:03:04Z", "2019-01-01T02:61:04Z", "2019-01-01T02:03:04.Z", "not a date", 20190101, []any{}, true, "2019-01-01T02:03Z", " 2019-01-01T02:03:04Z",
			"2019-01-01T02:03:04,5Z", "2019-01-01T2:03:04Z", "2019-01-01T02:03:04+24:00", "2019-01-01T02:03:04+01:60"})
		return fmt.Sprint(n, " ", v["created"])
	})
	add("message type", func(m *mctx) string {
		n, v := m.version()
		v["message"] = pick(m.t, "value", []any{3, []any{"x"}, map[string]any{}, true})
		return fmt.Sprint(n, v["message"])
	})
	add("user type", func(m *mctx) string {
		n, v := m.version()
		v["user"] = pick(m.t, "value", []any{3, []any{"x"}, "Jane", true, map[string]any{}, map[string]any{"address": "mailto:a@b"}, map[string]any{"name": 3},
			map[string]any{"name": []any{"x"}}, map[string]any{"name": "x", "address": 3}, map[string]any{"name": "x", "address": map[string]any{}}, map[string]any{"Name": "x"}})
		return fmt.Sprint(n, v["user"])
	})
	add("state type", func(m *mctx) string {
		n, v := m.version()
		v["state"] = pick(m.t, "value", []any{3, []any{"x"}, "text", true})
		return fmt.Sprint(n, v["state"])
	})
	add("state digest unknown", func(m *mctx) string {
		n, v := m.version()
		st := v["state"].(map[string]any)
		st[digestOf(m.alg, []byte("this is stored nowhere"))] = []any{"unstored.txt"}
		return n
	})
	add("state digest changed", func(m *mctx) string {
		n, st, d := m.state()
		if st == nil {
			return ""
		}
		b := []byte(d)
		i := rapid.IntRange(0, len(b)-1).Draw(m.t, "at")
		if b[i] == '0' {
			b[i] = '1'
		} else {
			b[i] = '0'
		}
		st[string(b)] = st[d]
		delete(st, d)
		return n
	})
	add("state entry type", func(m *mctx) string {
		n, st, d := m.state()
		if st == nil {
			return ""
		}
		st[d] = pick(m.t, "value", []any{"text", 3, map[string]any{}, []any{3}, []any{[]any{"x"}}})
		return fmt.Sprint(n, st[d])
	})
	add("state path", func(m *mctx) string {
		n, st, d := m.state()
		if st == nil {
			return ""
		}
		p := pick(m.t, "path", badPaths)
		ps := st[d].([]any)
		if rapid.Bool().Draw(m.t, "replace") {
			ps[rapid.IntRange(0, len(ps)-1).Draw(m.t, "at")] = p
		} else {
			st[d] = append(ps, p)
		}
		return n + " " + p
	})
	add("state path twice", func(m *mctx) string {
		n, st, d := m.state()
		if st == nil {
			return ""
		}
		p := pick(m.t, "path", st[d].([]any))
		e := pick(m.t, "other digest", sortedKeys(st))
		st[e] = append(st[e].([]any), p)
		return fmt.Sprint(n, " ", p)
	})
	add("state path conflict", func(m *mctx) string {
		n, st, d := m.state()
		if st == nil {
			return ""
		}
		p := pick(m.t, "path", st[d].([]any)).(string)
		e := pick(m.t, "other digest", sortedKeys(st))
		q := p + pick(m.t, "suffix", []string{"/x", "/x/y", "/ ", "/a/b/c"})
		l := st[e].([]any)
		// entries between the two in sort order
		for _, x := range []string{p + "-a", p + " ", p + "!", p + ".txt", p + "0"} {
			if rapid.Bool().Draw(m.t, "between") {
				free := true
				for _, o := range st {
					for _, y := range o.([]any) {
						if y == x || conflicts(fmt.Sprint(y), x) {
							free = false
						}
					}
				}
				if free {
					l = append(l, x)
				}
			}
		}
		st[e] = append(l, q)
		return fmt.Sprint(n, " ", q)
	})
	// manifest
	add("manifest digest missing", func(m *mctx) string {
		d := m.digest()
		if d == "" {
			return ""
		}
		delete(m.manifest(), d)
		return d[:8]
	})
	add("manifest digest changed", func(m *mctx) string {
		d := m.digest()
		if d == "" {
			return ""
		}
		// consistently, so that only the bytes of the content can tell
		nd := digestOf(m.alg, []byte("other "+d))
		if d == strings.ToUpper(d) {
			nd = strings.ToUpper(nd)
		}
		m.manifest()[nd] = m.manifest()[d]
		delete(m.manifest(), d)
		for _, v := range m.versions() {
			st := v.(map[string]any)["state"].(map[string]any)
			if ps, ok := st[d]; ok {
				st[nd] = ps
				delete(st, d)
			}
		}
		return d[:8]
	})
	add("manifest digests exchanged", func(m *mctx) string {
		d, e := m.digest(), m.digest()
		if d == e {
			return ""
		}
		mm := m.manifest()
		mm[d], mm[e] = mm[e], mm[d]
		return d[:8] + e[:8]
	})
	add("manifest path missing", func(m *mctx) string {
		var l []string
		for d, ps := range m.manifest() {
			if len(ps.([]any)) > 1 {
				l = append(l, d)
			}
		}
		if len(l) == 0 {
			return ""
		}
		d := pick(m.t, "digest", sortedKeys(m.manifest()))
		ps := m.manifest()[d].([]any)
		if len(ps) < 2 {
			return ""
		}
		i := rapid.IntRange(0, len(ps)-1).Draw(m.t, "at")
		m.manifest()[d] = remove(ps, i)
		return fmt.Sprint(ps[i])
	})
	add("manifest empty list", func(m *mctx) string {
		d := m.digest()
		if d == "" {
			return ""
		}
		m.manifest()[d] = []any{}
		return d[:8]
	})
	add("manifest path without file", func(m *mctx) string {
		d := m.digest()
		if d == "" {
			return ""
		}
		m.manifest()[d] = append(m.manifest()[d].([]any), m.o.Vers[0].Name+"/"+m.o.cdir()+"/nowhere.bin")
		return d[:8]
	})
	add("manifest digest without file", func(m *mctx) string {
		d := digestOf(m.alg, []byte("nowhere"))
		m.manifest()[d] = []any{m.o.Vers[0].Name + "/" + m.o.cdir() + "/nowhere.bin"}
		n, v := m.version()
		v["state"].(map[string]any)[d] = []any{"nowhere.bin.x"}
		return n
	})
	add("manifest path", func(m *mctx) string {
		d := m.digest()
		if d == "" {
			return ""
		}
		ps := m.manifest()[d].([]any)
		i := rapid.IntRange(0, len(ps)-1).Draw(m.t, "at")
		p := ps[i].(string)
		c := append([]string{"/" + p, p + "/", "./" + p, strings.Replace(p, "/", "//", 1), strings.Replace(p, "/", "/./", 1), strings.Replace(p, "/", "/x/../", 1), p + "/."}, badPaths...)
		q := pick(m.t, "path", c)
		if rapid.Bool().Draw(m.t, "replace") {
			ps[i] = q
		} else {
			m.manifest()[d] = append(ps, q)
		}
		return q
	})
	add("manifest path twice", func(m *mctx) string {
		d := m.digest()
		if d == "" {
			return ""
		}
		p := pick(m.t, "path", m.manifest()[d].([]any))
		e := m.digest()
		m.manifest()[e] = append(m.manifest()[e].([]any), p)
		return fmt.Sprint(p)
	})
	add("manifest path conflict", func(m *mctx) string {
		d := m.digest()
		if d == "" {
			return ""
		}
		p := pick(m.t, "path", m.manifest()[d].([]any)).(string)
		e := m.digest()
		q := p + "/x"
		if rapid.Bool().Draw(m.t, "parent") {
			q = path.Dir(p)
		}
		m.manifest()[e] = append(m.manifest()[e].([]any), q)
		return q
	})
	add("manifest entry type", func(m *mctx) string {
		d := m.digest()
		if d == "" {
			return ""
		}
		m.manifest()[d] = pick(m.t, "value", []any{"text", 3, map[string]any{}, []any{3}})
		return fmt.Sprint(m.manifest()[d])
	})
	add("manifest digest in two cases", func(m *mctx) string {
		d := m.digest()
		if d == "" || flipCase(d) == d {
			return ""
		}
		ps := m.manifest()[d].([]any)
		if len(ps) > 1 {
			m.manifest()[d] = ps[:1]
			m.manifest()[flipCase(d)] = ps[1:]
		} else {
			m.manifest()[flipCase(d)] = append([]any{}, ps...)
		}
		return d[:8]
	})
	add("state digest in two cases", func(m *mctx) string {
		n, st, d := m.state()
		if st == nil || flipCase(d) == d {
			return ""
		}
		st[flipCase(d)] = []any{"another.file"}
		return n
	})
	add("unused manifest digest", func(m *mctx) string {
		if m.spec != "1.1" || !m.head || m.o.Vers[m.k].Spec != "1.1" {
			return ""
		}
		// an unused content file, known to the inventories from the head on
		p := m.o.Vers[m.k].Name + "/" + m.o.cdir() + "/not used.bin"
		m.o.Content[p] = "not used by any state"
		d := m.o.Vers[m.k].dig(m.alg, m.o.Content[p])
		m.manifest()[d] = []any{p}
		return p
	})
	// fixity
	fix := func(m *mctx) (map[string]any, string) {
		if len(m.manifest()) == 0 {
			return nil, ""
		}
		fx, _ := m.inv["fixity"].(map[string]any)
		if fx == nil {
			fx = map[string]any{}
			m.inv["fixity"] = fx
		}
		ps := m.manifest()[m.digest()].([]any)
		return fx, pick(m.t, "fixity path", ps).(string)
	}
	add("fixity digest wrong", func(m *mctx) string {
		fx, p := fix(m)
		if fx == nil {
			return ""
		}
		alg := pick(m.t, "algorithm", []string{"md5", "sha1", "sha256", "sha512", "blake2b-512", "blake2b-160", "blake2b-256", "blake2b-384"})
		fx[alg] = map[string]any{digestOf(alg, []byte("wrong")): []any{p}}
		return alg + " " + p
	})
	add("fixity digest of another file", func(m *mctx) string {
		fx, p := fix(m)
		if fx == nil {
			return ""
		}
		e := m.digest()
		ps := m.manifest()[e].([]any)
		q := pick(m.t, "other path", ps).(string)
		if m.o.Content[p] == m.o.Content[q] {
			return ""
		}
		alg := pick(m.t, "algorithm", []string{"md5", "sha1", "sha256", "blake2b-512"})
		l := []any{p, q}
		if rapid.Bool().Draw(m.t, "first") {
			l = []any{q, p}
		}
		fx[alg] = map[string]any{digestOf(alg, []byte(m.o.Content[p])): l}
		if rapid.Bool().Draw(m.t, "both") {
			fx[alg].(map[string]any)[digestOf(alg, []byte(m.o.Content[q]))] = []any{q}
		}
		return alg + " " + p + " " + q
	})
	add("fixity path without file", func(m *mctx) string {
		fx, _ := fix(m)
		if fx == nil {
			return ""
		}
		alg := pick(m.t, "algorithm", []string{"md5", "sha1", "sha256", "blake2b-512"})
		fx[alg] = map[string]any{digestOf(alg, []byte("wrong")): []any{m.o.Vers[0].Name + "/" + m.o.cdir() + "/nowhere"}}
		return alg
	})
	add("fixity path", func(m *mctx) string {
		fx, p := fix(m)
		if fx == nil {
			return ""
		}
		alg := pick(m.t, "algorithm", []string{"md5", "sha1"})
		q := pick(m.t, "bad", append([]string{"/" + p, p + "/", "./" + p, strings.Replace(p, "/", "//", 1)}, badPaths...))
		l := []any{q}
		switch rapid.IntRange(0, 2).Draw(m.t, "neighbours") {
		case 0:
			l = []any{p, q}
		case 1:
			l = []any{q, p}
		}
		fx[alg] = map[string]any{digestOf(alg, []byte(m.o.Content[p])): l}
		return q
	})
	add("fixity type", func(m *mctx) string {
		fx, _ := fix(m)
		if fx == nil {
			return ""
		}
		bad := pick(m.t, "value", []any{"text", 3, []any{}, []any{"x"}, true})
		if rapid.Bool().Draw(m.t, "block") {
			fx["md5"] = bad
		} else {
			m.inv["fixity"] = bad
		}
		return fmt.Sprint(bad)
	})
	add("fixity digest in two cases", func(m *mctx) string {
		fx, p := fix(m)
		if fx == nil {
			return ""
		}
		d := digestOf("md5", []byte(m.o.Content[p]))
		if flipCase(d) == d {
			return ""
		}
		fx["md5"] = map[string]any{d: []any{p}, flipCase(d): []any{p}}
		return p
	})
	// disagreement between inventories
	add("other state in old inventory", func(m *mctx) string {
		if m.head {
			return ""
		}
		n, st, d := m.state()
		if st == nil {
			return ""
		}
		ps := st[d].([]any)
		i := rapid.IntRange(0, len(ps)-1).Draw(m.t, "at")
		switch rapid.IntRange(0, 2).Draw(m.t, "how") {
		case 0:
			if len(ps) == 1 {
				delete(st, d)
			} else {
				st[d] = remove(ps, i)
			}
			return n + " removed"
		case 1:
			ps[i] = fmt.Sprint(ps[i]) + ".renamed"
			return n + " renamed"
		}
		st[d] = append(ps, "added.file")
		return n + " added"
	})
	add("other content in old state", func(m *mctx) string {
		if m.head {
			return ""
		}
		n, st, d := m.state()
		if st == nil {
			return ""
		}
		var other []string
		for _, e := range sortedKeys(m.manifest()) {
			if e != d {
				other = append(other, e)
			}
		}
		if len(other) == 0 {
			return ""
		}
		e := pick(m.t, "other", other)
		l, _ := st[e].([]any)
		st[e] = append(l, st[d].([]any)...)
		delete(st, d)
		return n
	})
	rootDiff := func(name string, f func(m *mctx, inv map[string]any) string) {
		add("root inventory differs: "+name, func(m *mctx) string {
			if !m.head || !m.o.Vers[m.k].Stored {
				return ""
			}
			r := deepCopy(m.inv).(map[string]any)
			s := f(m, r)
			if s != "" {
				m.o.root = r
			}
			return s
		})
	}
	rootDiff("message", func(m *mctx, inv map[string]any) string {
		n, _ := m.version()
		v := inv["versions"].(map[string]any)[n].(map[string]any)
		v["message"] = "another message"
		return n
	})
	rootDiff("user", func(m *mctx, inv map[string]any) string {
		n, _ := m.version()
		v := inv["versions"].(map[string]any)[n].(map[string]any)
		v["user"] = map[string]any{"name": "another user", "address": "mailto:a@b"}
		return n
	})
	rootDiff("created", func(m *mctx, inv map[string]any) string {
		n, _ := m.version()
		v := inv["versions"].(map[string]any)[n].(map[string]any)
		v["created"] = "2001-01-01T00:00:00Z"
		return n
	})
	rootDiff("fixity", func(m *mctx, inv map[string]any) string {
		if len(m.manifest()) == 0 {
			return ""
		}
		p := pick(m.t, "path", m.manifest()[m.digest()].([]any)).(string)
		inv["fixity"] = map[string]any{"sha1": map[string]any{digestOf("sha1", []byte(m.o.Content[p])): []any{p}}, "myalgo": map[string]any{"x": []any{p}}}
		return p
	})
	rootDiff("fixity of another file", func(m *mctx, inv map[string]any) string {
		d, e := m.digest(), m.digest()
		if d == "" || strings.EqualFold(d, e) {
			return ""
		}
		p, q := m.manifest()[d].([]any)[0].(string), m.manifest()[e].([]any)[0].(string)
		alg := pick(m.t, "algorithm", []string{"md5", "sha1", "blake2b-512"})
		m.inv["fixity"] = map[string]any{alg: map[string]any{digestOf(alg, []byte(m.o.Content[p])): []any{p}}}
		inv["fixity"] = map[string]any{alg: map[string]any{digestOf(alg, []byte(m.o.Content[q])): []any{q}}}
		return p + " " + q
	})
	rootDiff("fixity with another path", func(m *mctx, inv map[string]any) string {
		var l []string
		for _, d := range sortedKeys(m.manifest()) {
			if len(m.manifest()[d].([]any)) > 1 {
				l = append(l, d)
			}
		}
		if len(l) == 0 {
			return ""
		}
		ps := m.manifest()[pick(m.t, "digest", l)].([]any)
		alg := pick(m.t, "algorithm", []string{"md5", "sha1", "blake2b-512"})
		d := digestOf(alg, []byte(m.o.Content[ps[0].(string)]))
		one, other := map[string]any{alg: map[string]any{d: []any{ps[0]}}}, map[string]any{alg: map[string]any{d: []any{ps[0], ps[1]}}}
		if rapid.Bool().Draw(m.t, "root has more") {
			one, other = other, one
		}
		m.inv["fixity"], inv["fixity"] = other, one
		return fmt.Sprint(ps)
	})
	rootDiff("type", func(m *mctx, inv map[string]any) string {
		if m.o.Vers[m.k].Spec != "1.1" {
			return ""
		}
		m.inv["type"] = "https://ocfl.io/1.0/spec/#inventory"
		return "1.0"
	})
	rootDiff("content directory", func(m *mctx, inv map[string]any) string {
		if m.o.cdir() != "content" {
			return ""
		}
		// the same meaning, another text
		if m.o.CDir == "" {
			inv["contentDirectory"] = "content"
		} else {
			delete(inv, "contentDirectory")
		}
		return m.o.CDir
	})
	rootDiff("state", func(m *mctx, inv map[string]any) string {
		n, _, d := m.state()
		if d == "" {
			return ""
		}
		st := inv["versions"].(map[string]any)[n].(map[string]any)["state"].(map[string]any)
		st[d] = append(st[d].([]any), "added.file")
		return n
	})
	rootDiff("id", func(m *mctx, inv map[string]any) string {
		inv["id"] = m.o.ID + "/other"
		return m.o.ID
	})
	// declarations and folders
	add("declaration", func(m *mctx) string {
		if !m.head {
			return ""
		}
		other := map[string]string{"1.0": "1.1", "1.1": "1.0"}[m.o.Decl]
		m.o.Decl = pick(m.t, "declared", []string{other, "1.2", "0.9", "11"})
		return m.o.Decl
	})
	add("folder without version", func(m *mctx) string {
		if !m.head {
			return ""
		}
		n := pick(m.t, "folder", []string{"v99/content/x", "v0/content/x", "content/x", "other/file", "V1/content/x"})
		m.o.Extra[n] = "x"
		return n
	})
	add("content without manifest", func(m *mctx) string {
		if !m.head {
			return ""
		}
		v := pick(m.t, "version", m.o.Vers)
		p := v.Name + "/" + m.o.cdir() + "/" + pick(m.t, "name", []string{"extra.bin", "a/deep/extra.bin", ".hidden"})
		if _, ok := m.o.Content[p]; ok {
			return ""
		}
		m.o.Extra[p] = "extra"
		return p
	})
	add("empty content folder", func(m *mctx) string {
		if !m.head {
			return ""
		}
		v := pick(m.t, "version", m.o.Vers)
		p := v.Name + "/" + m.o.cdir() + "/" + pick(m.t, "name", []string{"emptyfolder/", "a9/b/empty/"})
		m.o.Extra[p] = ""
		return p
	})
	add("file in version folder", func(m *mctx) string {
		if !m.head {
			return ""
		}
		v := pick(m.t, "version", m.o.Vers)
		p := v.Name + "/" + pick(m.t, "name", []string{"extra.txt", "inventory.json.md5", "0=ocfl_object_" + m.o.Decl, "inventory_json", "inventory.jsonx"})
		m.o.Extra[p] = "x"
		return p
	})
	return l
}

// C06: every violation of the specification in an inventory is reported.
func TestC06(t *testing.T) {
	f := newFactory(factoryOpts{})
	all := mutations()
	byName := map[string]mutation{}
	var names []string
	for _, m := range all {
		byName[m.name] = m
		names = append(names, m.name)
	}
	// rules the oracle does not know, true by construction
	beyond := map[string]bool{"unknown key": true}
	runCheck(t, "mutations", 30000, 800000, func(t *rapid.T) {
		mut := byName[rapid.SampledFrom(names).Draw(t, "mutation")]
		r := genFRoot(t, 1)
		o := r.Objs[0]
		what := ""
		var m *mctx
		for i := 0; i < 5 && what == ""; i++ {
			o.build()
			var ks []int
			for k, v := range o.Vers {
				if v.Stored || k == len(o.Vers)-1 {
					ks = append(ks, k)
				}
			}
			k := pick(t, "inventory", append(ks, len(o.Vers)-1))
			m = &mctx{t: t, o: o, k: k, inv: o.invs[k], head: k == len(o.Vers)-1, spec: o.Vers[k].Spec, alg: o.Vers[k].Alg}
			what = mut.do(m)
		}
		if what == "" {
			count("mutations", "", false, nil, "not applicable")
			return
		}
		files := r.files()
		for p := range files {
			for d := path.Dir(p); d != "."; d = path.Dir(d) {
				if _, ok := files[d]; ok {
					count("mutations", "", false, nil, "no tree")
					return
				}
			}
		}
		_, pr := checkRoot(files, false)
		if len(pr) == 0 && !beyond[mut.name] {
			count("mutations", "", false, nil, "oracle silent: "+mut.name)
			return
		}
		w := worldOf(files)
		where := o.Vers[m.k].Name
		if m.head {
			where += " and root"
		}
		var errs []string
		if msg := noPanic(func() { errs = validate(w.mount(rootDir), f) }); msg != "" {
			t.Fatalf("validation panics after %q (%s) in %s: %s\n%s", mut.name, what, where, msg, dumpFiles(files))
		}
		if len(errs) == 0 {
			t.Fatalf("violation is not reported: %q (%s) in inventory of %s\n  %s\n%s", mut.name, what, where, joinProblems(pr), dumpFiles(files))
		}
		if pr := brokenObjects(files)[o.Folder]; len(pr) > 0 {
			if msg := noPanic(func() { errs = validateObject(w.mount(rootDir), f, o.Folder, "") }); msg != "" {
				t.Fatalf("validation of the object panics after %q (%s) in %s: %s\n%s", mut.name, what, where, msg, dumpFiles(files))
			}
			if len(errs) == 0 {
				t.Fatalf("violation is not reported by the validation of the object: %q (%s) in inventory of %s\n  %s\n%s", mut.name, what, where, joinProblems(pr), dumpFiles(files))
			}
		}
		desc := map[string]any{"mutation": mut.name, "what": what, "inventory": where, "reported": short([]byte(errs[0])), "root": r.describe()}
		count("mutations", mut.name+what+where+j(r.describe()), true, desc, mut.name)
	})
}
