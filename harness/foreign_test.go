package zzverif

// Generator of conformant storage roots as other OCFL implementations write
// them, kept in a form which can be mutated rule by rule.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

type fVersion struct {
	Name      string
	Stored    bool // has its own inventory
	Spec, Alg string
	Upper     bool
	State     map[string]string // logical path -> content
	Created   string
	Message   any // nil: key missing
	User      any
	SideSep   string
	SideEnd   string
	SideUpper bool
	Fixity    map[string][]string // algorithm -> content paths
	fixityKey bool
}

type fObject struct {
	ID, Folder, CDir string // CDir "" = key missing
	Decl             string
	Vers             []*fVersion
	Content          map[string]string
	Extra            map[string]string
	Style            fStyle

	invs []map[string]any // of each version; the last one is the root inventory
	root map[string]any   // differing root inventory, normally nil
}

type fRoot struct {
	Version string
	Objs    []*fObject
	Extra   map[string]string
}

type fStyle struct {
	Indent string
	Order  int // 0 sorted, 1 reversed, 2.. permuted
	Escape bool
}

// render writes JSON in the given style.
func (s fStyle) render(v any) []byte {
	var b strings.Builder
	str := func(x string) {
		if !s.Escape {
			q, _ := json.Marshal(x)
			b.Write(q)
			return
		}
		b.WriteByte('"')
		for _, r := range x {
			if r >= 0x10000 {
				r -= 0x10000
				fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		}
		b.WriteByte('"')
	}
	var val func(v any, nl string)
	val = func(v any, nl string) {
		sep := func(n string) {
			if s.Indent != "" {
				b.WriteString("\n" + n)
			}
		}
		switch x := v.(type) {
		case map[string]any:
			b.WriteByte('{')
			keys := sortedKeys(x)
			switch {
			case s.Order == 1:
				sort.Sort(sort.Reverse(sort.StringSlice(keys)))
			case s.Order > 1:
				h := func(k string) uint32 {
					f := fnv.New32a()
					fmt.Fprintf(f, "%d%s", s.Order, k)
					return f.Sum32()
				}
				sort.Slice(keys, func(a, b int) bool { return h(keys[a]) < h(keys[b]) })
			}
			for i, k := range keys {
				if i > 0 {
					b.WriteByte(',')
				}
				sep(nl + s.Indent)
				str(k)
				b.WriteByte(':')
				if s.Indent != "" {
					b.WriteByte(' ')
				}
				val(x[k], nl+s.Indent)
			}
			if len(keys) > 0 {
				sep(nl)
			}
			b.WriteByte('}')
		case []any:
			b.WriteByte('[')
			for i, e := range x {
				if i > 0 {
					b.WriteByte(',')
				}
				sep(nl + s.Indent)
				val(e, nl+s.Indent)
			}
			if len(x) > 0 {
				sep(nl)
			}
			b.WriteByte(']')
		case string:
			str(x)
		default:
			q, _ := json.Marshal(x)
			b.Write(q)
		}
	}
	val(v, "")
	if s.Order == 1 {
		b.WriteString("\n")
	}
	return []byte(b.String())
}

func (o *fObject) cdir() string {
	if o.CDir == "" {
		return "content"
	}
	return o.CDir
}

func strs(l []string) []any {
	r := []any{}
	for _, s := range l {
		r = append(r, s)
	}
	return r
}

func (v *fVersion) dig(alg, content string) string {
	d := digestOf(alg, []byte(content))
	if v.Upper {
		d = strings.ToUpper(d)
	}
	return d
}

// vfolder is the number of the version whose folder a content path is in.
func vfolder(p string) int { v, _, _ := strings.Cut(p, "/"); return vnum(v) }

// build derives the inventories from the description.
func (o *fObject) build() {
	o.invs = nil
	o.root = nil
	for k, v := range o.Vers {
		man := map[string]any{}
		for _, p := range sortedKeys(o.Content) {
			if vfolder(p) > k+1 {
				continue
			}
			d := v.dig(v.Alg, o.Content[p])
			l, _ := man[d].([]any)
			man[d] = append(l, p)
		}
		vers := map[string]any{}
		for i := 0; i <= k; i++ {
			w := o.Vers[i]
			st := map[string]any{}
			for _, p := range sortedKeys(w.State) {
				d := v.dig(v.Alg, w.State[p])
				l, _ := st[d].([]any)
				st[d] = append(l, p)
			}
			m := map[string]any{"created": w.Created, "state": st}
			if w.Message != nil {
				m["message"] = w.Message
			}
			if w.User != nil {
				m["user"] = deepCopy(w.User)
			}
			vers[w.Name] = m
		}
		inv := map[string]any{"id": o.ID, "type": "https://ocfl.io/" + v.Spec + "/spec/#inventory", "digestAlgorithm": v.Alg,
			"head": v.Name, "manifest": man, "versions": vers}
		if o.CDir != "" {
			inv["contentDirectory"] = o.CDir
		}
		if v.fixityKey {
			fx := map[string]any{}
			for _, alg := range sortedKeys(v.Fixity) {
				blk := map[string]any{}
				for _, p := range v.Fixity[alg] {
					if vfolder(p) > k+1 {
						continue
					}
					d := "any text"
					if hashOf(alg) != nil {
						d = v.dig(alg, o.Content[p])
					}
					l, _ := blk[d].([]any)
					blk[d] = append(l, p)
				}
				fx[alg] = blk
			}
			inv["fixity"] = fx
		}
		o.invs = append(o.invs, inv)
	}
}

func deepCopy(v any) any {
	switch x := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, e := range x {
			r[k] = deepCopy(e)
		}
		return r
	case []any:
		r := []any{}
		for _, e := range x {
			r = append(r, deepCopy(e))
		}
		return r
	}
	return v
}

func (v *fVersion) sidecar(alg string, raw []byte) string {
	if hashOf(alg) == nil {
		alg = "sha512"
	}
	d := digestOf(alg, raw)
	if v.SideUpper {
		d = strings.ToUpper(d)
	}
	return d + v.SideSep + "inventory.json" + v.SideEnd
}

// files renders the object, paths relative to its root.
func (o *fObject) files() map[string]string {
	r := map[string]string{}
	for p, c := range o.Extra {
		r[p] = c
	}
	for p, c := range o.Content {
		r[p] = c
	}
	r["0=ocfl_object_"+o.Decl] = "ocfl_object_" + o.Decl + "\n"
	put := func(dir string, v *fVersion, inv map[string]any) {
		raw := o.Style.render(inv)
		alg, _ := inv["digestAlgorithm"].(string)
		name := alg
		if name == "" || strings.Contains(name, "/") {
			name = v.Alg
		}
		r[dir+"inventory.json"] = string(raw)
		r[dir+"inventory.json."+name] = v.sidecar(alg, raw)
	}
	for k, v := range o.Vers {
		if v.Stored {
			put(v.Name+"/", v, o.invs[k])
		}
	}
	last := len(o.Vers) - 1
	inv := o.invs[last]
	if o.root != nil {
		inv = o.root
	}
	put("", o.Vers[last], inv)
	return r
}

// rawFiles gives the storage root as path -> content.
func (r *fRoot) files() map[string]string {
	res := map[string]string{}
	res["0=ocfl_"+r.Version] = "ocfl_" + r.Version + "\n"
	for p, c := range r.Extra {
		res[p] = c
	}
	for _, o := range r.Objs {
		for p, c := range o.files() {
			res[o.Folder+"/"+p] = c
		}
	}
	return res
}

// worldOf puts a storage root into a world; names with a trailing slash are
// folders.
func worldOf(files map[string]string) *world {
	w := newWorld()
	w.put("/store/outside.txt", []byte("outside"))
	w.mkdir(rootDir)
	for p, c := range files {
		if strings.HasSuffix(p, "/") {
			w.mkdir(rootDir + "/" + strings.TrimSuffix(p, "/"))
		} else {
			w.put(rootDir+"/"+p, []byte(c))
		}
	}
	return w
}

func genFContent(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "ckind") {
	case 0:
		return ""
	case 1, 2:
		return fmt.Sprintf("content %d", rapid.IntRange(0, 4).Draw(t, "ctag"))
	default:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "cbytes"))
	}
}

var fCreated = []string{"2019-01-01T02:03:04Z", "2018-10-10T00:00:00.123456Z", "2020-02-29T23:59:59+02:00", "1999-12-31T00:00:00-11:30", "2022-07-01T12:00:00.5+00:00"}

func genFObject(t *rapid.T, n int, maxSpec string) *fObject {
	o := &fObject{Content: map[string]string{}, Extra: map[string]string{}}
	o.ID = rapid.SampledFrom([]string{"urn:x:", "http://example.org/ä", "some id ", "info:fedora/", "ark:123/"}).Draw(t, "id") + fmt.Sprint(n)
	o.Folder = rapid.SampledFrom([]string{"o", "a/b/o", "x y/%41/o", "v1/o", "logs/content/o"}).Draw(t, "folder") + fmt.Sprint(n)
	o.CDir = rapid.SampledFrom([]string{"", "", "content", "data", "my content", "inventory"}).Draw(t, "cdir")
	o.Style = fStyle{Indent: rapid.SampledFrom([]string{"", " ", "\t"}).Draw(t, "indent"), Order: rapid.IntRange(0, 4).Draw(t, "order"), Escape: rapid.IntRange(0, 3).Draw(t, "escape") == 3}
	pad := rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "padding")
	nv := rapid.IntRange(1, 4).Draw(t, "versions")
	if n == 0 && rapid.IntRange(0, 24).Draw(t, "many versions") == 0 {
		nv = rapid.IntRange(9, 12).Draw(t, "versions")
		if pad == 1 {
			nv = 9
		}
	}
	spec := rapid.SampledFrom([]string{"1.0", "1.0", "1.1"}).Draw(t, "spec")
	if maxSpec == "1.0" {
		spec = "1.0"
	}
	alg := rapid.SampledFrom([]string{"sha512", "sha512", "sha256"}).Draw(t, "alg")
	state := map[string]string{}
	upperAll := rapid.IntRange(0, 5).Draw(t, "upper") == 0
	for k := 1; k <= nv; k++ {
		v := &fVersion{Name: fmt.Sprintf("v%d", k), Stored: true, SideSep: " ", SideEnd: "\n"}
		if pad > 0 {
			v.Name = "v0" + fmt.Sprintf("%0*d", pad, k)
		}
		if maxSpec != "1.0" && spec == "1.0" && k > 1 && rapid.IntRange(0, 3).Draw(t, "newSpec") == 0 {
			spec = "1.1"
		}
		if rapid.IntRange(0, 6).Draw(t, "newAlg") == 0 {
			alg = rapid.SampledFrom([]string{"sha512", "sha256"}).Draw(t, "alg")
		}
		v.Spec, v.Alg = spec, alg
		v.Upper = upperAll
		if rapid.IntRange(0, 9).Draw(t, "flipUpper") == 0 {
			v.Upper = !v.Upper
		}
		v.SideSep = rapid.SampledFrom([]string{" ", " ", "\t", "  ", " \t "}).Draw(t, "sidecar separator")
		v.SideEnd = rapid.SampledFrom([]string{"\n", "\n", ""}).Draw(t, "sidecar end")
		v.SideUpper = rapid.IntRange(0, 5).Draw(t, "sidecar upper") == 0
		v.Created = rapid.SampledFrom(fCreated).Draw(t, "created")
		switch rapid.IntRange(0, 3).Draw(t, "message") {
		case 0:
		case 1:
			v.Message = ""
		default:
			v.Message = "message ü \"" + fmt.Sprint(k)
		}
		switch rapid.IntRange(0, 4).Draw(t, "user") {
		case 0:
		case 1:
			v.User = map[string]any{"name": "Jane Doe"}
		case 2:
			v.User = map[string]any{"name": "Jörg", "address": "https://orcid.org/0000-0001"}
		case 3:
			v.User = map[string]any{"name": "J", "address": "not a uri"}
		default:
			v.User = map[string]any{"address": "mailto:jane@example.org", "name": "Jane"}
		}
		// state
		next := map[string]string{}
		for _, p := range sortedKeys(state) {
			if rapid.IntRange(0, 4).Draw(t, "drop") != 0 {
				next[p] = state[p]
			}
		}
		for i := rapid.IntRange(0, 3).Draw(t, "adds"); i > 0; i-- {
			p := genPath(t, "path")
			if !utf8.ValidString(p) {
				continue
			}
			okp := checkPath(p) == ""
			for q := range next {
				if q != p && conflicts(p, q) {
					okp = false
				}
			}
			if okp {
				next[p] = genFContent(t)
			}
		}
		v.State = next
		state = next
		// content: whatever is not stored yet must be stored, more copies may be
		have := map[string]bool{}
		for _, c := range o.Content {
			have[c] = true
		}
		m := 0
		for _, p := range sortedKeys(next) {
			c := next[p]
			if have[c] && rapid.IntRange(0, 3).Draw(t, "copy") != 0 {
				continue
			}
			name := fmt.Sprintf("f%d", m)
			switch rapid.IntRange(0, 3).Draw(t, "cname") {
			case 0:
				name = p
			case 1:
				name = fmt.Sprintf("d%d/ä b/%d", m, m)
			case 2:
				name = fmt.Sprintf("v1/content/%d", m)
			}
			m++
			full := v.Name + "/" + o.cdir() + "/" + name
			clash := false
			for q := range o.Content {
				if q == full || conflicts(q, full) {
					clash = true
				}
			}
			if clash {
				full = v.Name + "/" + o.cdir() + "/" + fmt.Sprintf("unique%d", m)
			}
			o.Content[full] = c
			have[c] = true
		}
		if maxSpec == "1.0" && rapid.IntRange(0, 6).Draw(t, "unused") == 0 {
			o.Content[v.Name+"/"+o.cdir()+"/unused.bin"] = fmt.Sprintf("unused in %d", k)
		}
		stored := false
		for p := range o.Content {
			if strings.HasPrefix(p, v.Name+"/") {
				stored = true
			}
		}
		if stored && rapid.IntRange(0, 4).Draw(t, "noInventory") == 0 {
			v.Stored = false
		}
		if !stored && rapid.IntRange(0, 2).Draw(t, "emptyContent") == 0 {
			o.Extra[v.Name+"/"+o.cdir()+"/"] = ""
		}
		if rapid.IntRange(0, 9).Draw(t, "extraDir") == 0 {
			o.Extra[v.Name+"/other/"] = ""
			if rapid.Bool().Draw(t, "extraFile") {
				o.Extra[v.Name+"/other/file.txt"] = "x"
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "fixity") == 0 {
			v.fixityKey = true
			v.Fixity = map[string][]string{}
			for _, a := range []string{"md5", "sha1", "blake2b-512", "blake2b-160", "sha512/256", "crc32", "SHA1", "sha256", "sha512"} {
				if rapid.IntRange(0, 4).Draw(t, "fixity "+a) != 0 {
					continue
				}
				v.Fixity[a] = nil
				for _, p := range sortedKeys(o.Content) {
					if rapid.Bool().Draw(t, "fixity file") {
						v.Fixity[a] = append(v.Fixity[a], p)
					}
				}
			}
		}
		o.Vers = append(o.Vers, v)
	}
	o.Decl = spec
	switch rapid.IntRange(0, 9).Draw(t, "extras") {
	case 0:
		o.Extra["logs/log.txt"] = "log"
	case 1:
		o.Extra["extensions/my-extension/config.json"] = rapid.SampledFrom([]string{`{"extensionName":"my-extension"}`, "{}", "no json"}).Draw(t, "config")
	case 2:
		o.Extra["extensions/my-extension/a/b.bin"] = "binary"
	case 3:
		o.Extra["extensions/0001-digest-algorithms/config.json"] = `{"extensionName":"0001-digest-algorithms"}`
	case 4:
		o.Extra["extensions/0005-mutable-head/"] = ""
	case 5:
		o.Extra["extensions/"] = ""
		o.Extra["logs/"] = ""
	}
	o.build()
	return o
}

func genFRoot(t *rapid.T, maxObjs int) *fRoot {
	r := &fRoot{Extra: map[string]string{}}
	r.Version = rapid.SampledFrom([]string{"1.0", "1.1", "1.1"}).Draw(t, "root version")
	n := rapid.IntRange(1, maxObjs).Draw(t, "objects")
	for i := 0; i < n; i++ {
		max := r.Version
		if max == "1.1" && rapid.IntRange(0, 2).Draw(t, "old object") == 0 {
			max = "1.0"
		}
		r.Objs = append(r.Objs, genFObject(t, i, max))
	}
	switch rapid.IntRange(0, 5).Draw(t, "layout") {
	case 0:
		r.Extra["ocfl_layout.json"] = `{"extension":"0002-flat-direct-storage-layout","description":"flat"}`
	case 1:
		r.Extra["ocfl_layout.json"] = `{"description":"my own layout", "extension":"9999-mine"}`
		r.Extra["extensions/9999-mine/config.json"] = `{"extensionName":"9999-mine","x":{"y":[1]}}`
	case 2:
		r.Extra["ocfl_layout.json"] = `{"extension":"0004-hashed-n-tuple-storage-layout","description":"x"}`
		r.Extra["extensions/0004-hashed-n-tuple-storage-layout/config.json"] = `{"extensionName":"0004-hashed-n-tuple-storage-layout","digestAlgorithm":"sha256","tupleSize":3,"numberOfTuples":3,"shortObjectRoot":false}`
	}
	if rapid.IntRange(0, 3).Draw(t, "spec text") == 0 {
		r.Extra["ocfl_1.0.html"] = "<html>"
	}
	return r
}

// describe gives a compact description for samples and distinctness.
func (r *fRoot) describe() any {
	var l []any
	for _, o := range r.Objs {
		var vs []string
		for _, v := range o.Vers {
			s := fmt.Sprintf("%s %s %s %d files", v.Name, v.Spec, v.Alg, len(v.State))
			if !v.Stored {
				s += " no-inventory"
			}
			if v.Upper {
				s += " upper"
			}
			if v.fixityKey {
				s += fmt.Sprintf(" fixity %v", sortedKeys(v.Fixity))
			}
			if v.User == nil {
				s += " no-user"
			}
			if v.Message == nil {
				s += " no-message"
			}
			vs = append(vs, s)
		}
		l = append(l, map[string]any{"id": o.ID, "folder": o.Folder, "contentDirectory": o.CDir, "versions": vs, "content": len(o.Content), "extra": sortedKeys(o.Extra), "style": o.Style})
	}
	return map[string]any{"root": r.Version, "extra": sortedKeys(r.Extra), "objects": l}
}

func (r *fRoot) classes() []string {
	m := map[string]bool{"root " + r.Version: true}
	for _, o := range r.Objs {
		m["decl "+o.Decl] = true
		if o.CDir != "" && o.CDir != "content" {
			m["custom content directory"] = true
		}
		if strings.HasPrefix(o.Vers[0].Name, "v0") {
			m["zero padding"] = true
		}
		if len(o.Vers) > 1 {
			m["several versions"] = true
		}
		for k, v := range o.Vers {
			if !v.Stored {
				m["missing version inventory"] = true
			}
			if v.Upper {
				m["upper case digests"] = true
			}
			if v.fixityKey {
				m["fixity"] = true
			}
			if k > 0 && v.Alg != o.Vers[k-1].Alg {
				m["algorithm change"] = true
			}
			if k > 0 && v.Spec != o.Vers[k-1].Spec {
				m["specification change"] = true
			}
			if v.User == nil || v.Message == nil {
				m["missing user or message"] = true
			}
			if len(v.State) == 0 {
				m["empty state"] = true
			}
		}
	}
	return sortedKeys(m)
}

// dump renders a storage root for messages.
func dumpFiles(files map[string]string) string {
	var b strings.Builder
	n := 0
	for _, p := range sortedKeys(files) {
		c := files[p]
		if strings.Contains(p, "inventory.json") {
			fmt.Fprintf(&b, "  %s: %s\n", p, c)
		} else {
			fmt.Fprintf(&b, "  %s: %s\n", p, short([]byte(c)))
		}
		if n += len(c); n > 20000 || b.Len() > 30000 {
			b.WriteString("  ...\n")
			break
		}
	}
	return b.String()
}
