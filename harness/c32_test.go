package zzverif

import (
	"encoding/json"
	"fmt"
	"path"
	"slices"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// structMut is one kind of change to the structure of a storage root. It
// returns false when it does not apply.
type structMut struct {
	name string
	do   func(t *rapid.T, r *structRoot) bool
}

type structRoot struct {
	files map[string]string
	objs  []string // object folders
	what  string
}

func (r *structRoot) obj(t *rapid.T) string { return rapid.SampledFrom(r.objs).Draw(t, "object") }

// parents are the folders above the objects.
func (r *structRoot) parents() []string {
	set := map[string]bool{}
	for _, o := range r.objs {
		for d := path.Dir(o); d != "."; d = path.Dir(d) {
			set[d] = true
		}
	}
	return sortedKeys(set)
}

// place draws a folder of the hierarchy, with slash, or the storage root ("").
func (r *structRoot) place(t *rapid.T) string {
	l := append([]string{""}, r.parents()...)
	p := rapid.SampledFrom(l).Draw(t, "place")
	if p != "" {
		p += "/"
	}
	return p
}

func (r *structRoot) put(p, c string) bool {
	if _, ok := r.files[p]; ok {
		return false
	}
	r.files[p] = c
	r.what += " +" + p
	return true
}

func (r *structRoot) del(p string) bool {
	n := 0
	for f := range r.files {
		if f == p || strings.HasPrefix(f, strings.TrimSuffix(p, "/")+"/") {
			delete(r.files, f)
			n++
		}
	}
	r.what += " -" + p
	return n > 0
}

// copy copies a folder.
func (r *structRoot) copy(from, to string) bool {
	for f := range r.files {
		if strings.HasPrefix(f, to+"/") || f == to {
			return false
		}
	}
	for p, c := range sub(r.files, from) {
		r.files[to+"/"+p] = c
	}
	r.what += " " + from + " copied to " + to
	return true
}

func (r *structRoot) head(o string) *oInv {
	return parseInv([]byte(r.files[o+"/inventory.json"]), &problems{}, o)
}

func (r *structRoot) decl(o string) string {
	for f := range sub(r.files, o) {
		if strings.HasPrefix(f, "0=") {
			return o + "/" + f
		}
	}
	return ""
}

func (r *structRoot) rootDecl() string {
	for _, f := range []string{"0=ocfl_1.0", "0=ocfl_1.1"} {
		if _, ok := r.files[f]; ok {
			return f
		}
	}
	return ""
}

// reseal computes the sidecar of an inventory again.
func (r *structRoot) reseal(p, alg string) {
	r.files[p+"."+alg] = digestOf(alg, []byte(r.files[p])) + " inventory.json\n"
}

// rename renames the versions of an object everywhere.
func (r *structRoot) rename(o string, names map[string]string) {
	r.rewrite(o, names, func(p string) string {
		v, rest, ok := strings.Cut(p, "/")
		if n := names[v]; n != "" && ok {
			return n + "/" + rest
		}
		return p
	})
	r.what += " " + j(names)
}

// rewrite changes the paths of an object's files, manifests and fixity blocks
// and the names of its versions.
func (r *structRoot) rewrite(o string, names map[string]string, to func(string) string) {
	blocks := func(m any) {
		b, _ := m.(map[string]any)
		for _, ps := range b {
			l, _ := ps.([]any)
			for i := range l {
				if p, ok := l[i].(string); ok {
					l[i] = to(p)
				}
			}
		}
	}
	res := map[string]string{}
	for f, c := range r.files {
		rel, ok := strings.CutPrefix(f, o+"/")
		if !ok {
			res[f] = c
			continue
		}
		if path.Base(rel) == "inventory.json" && (rel == "inventory.json" || names[path.Dir(rel)] != "") {
			var inv map[string]any
			if json.Unmarshal([]byte(c), &inv) == nil {
				if h, ok := inv["head"].(string); ok && names[h] != "" {
					inv["head"] = names[h]
				}
				blocks(inv["manifest"])
				fx, _ := inv["fixity"].(map[string]any)
				for _, b := range fx {
					blocks(b)
				}
				vs, _ := inv["versions"].(map[string]any)
				nvs := map[string]any{}
				for v, b := range vs {
					if names[v] != "" {
						v = names[v]
					}
					nvs[v] = b
				}
				inv["versions"] = nvs
				raw, err := json.Marshal(inv)
				if err != nil {
					infra("%v", err)
				}
				c = string(raw)
			}
		}
		res[o+"/"+to(rel)] = c
	}
	r.files = res
	for f := range res {
		if alg, ok := strings.CutPrefix(path.Base(f), "inventory.json."); ok && strings.HasPrefix(f, o+"/") && (alg == "sha256" || alg == "sha512") {
			r.reseal(path.Dir(f)+"/inventory.json", alg)
		}
	}
}

func pickS(t *rapid.T, label string, l ...string) string { return rapid.SampledFrom(l).Draw(t, label) }

var structMuts = []structMut{
	{"empty folder", func(t *rapid.T, r *structRoot) bool {
		return r.put(r.place(t)+pickS(t, "name", "empty/", "empty/deep/", "v9/", ".hidden/"), "")
	}},
	{"file in the hierarchy", func(t *rapid.T, r *structRoot) bool {
		l := r.parents()
		if len(l) == 0 {
			return false
		}
		return r.put(rapid.SampledFrom(l).Draw(t, "place")+"/"+pickS(t, "name", "readme.txt", "aaa", "zzz", "0=other", "inventory.json", ".DS_Store"), "text")
	}},
	{"folder without object", func(t *rapid.T, r *structRoot) bool {
		return r.put(r.place(t)+pickS(t, "name", "notes/readme.txt", "a9/b9/c9.txt", "zz/0=ocfl_1.1", "zz/inventory.json", "logs/log.txt", "v1/content/x"), "text")
	}},
	{"file in the storage root", func(t *rapid.T, r *structRoot) bool {
		return r.put(pickS(t, "name", "readme.txt", "ocfl_1.1.txt", "0=other", "inventory.json", ".hidden", "0=ocfl_object_1.1"), "text")
	}},
	{"object in an object", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		return r.copy(o, o+"/"+pickS(t, "name", "sub", "v99", "zz/deep"))
	}},
	{"object in logs", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		return r.copy(o, o+"/"+pickS(t, "name", "logs/old", "extensions/old"))
	}},
	{"object twice", func(t *rapid.T, r *structRoot) bool {
		return r.copy(r.obj(t), r.place(t)+"another")
	}},
	{"root declaration missing", func(t *rapid.T, r *structRoot) bool { return r.del(r.rootDecl()) }},
	{"several root declarations", func(t *rapid.T, r *structRoot) bool {
		v := pickS(t, "version", "1.0", "1.1", "1.2", "2.0", "0.9")
		return r.put("0=ocfl_"+v, "ocfl_"+v+"\n")
	}},
	{"root declaration content", func(t *rapid.T, r *structRoot) bool {
		d := r.rootDecl()
		r.files[d] = pickS(t, "content", "", "ocfl_1.2\n", strings.TrimPrefix(d, "0="), strings.TrimPrefix(d, "0=")+"\n\n", "0="+strings.TrimPrefix(d, "0=")+"\n", " "+strings.TrimPrefix(d, "0=")+"\n", "OCFL_1.1\n")
		r.what = " " + short([]byte(r.files[d]))
		return true
	}},
	{"other root version", func(t *rapid.T, r *structRoot) bool {
		r.del(r.rootDecl())
		v := pickS(t, "version", "1.0", "1.0", "1.1", "1.2", "x")
		return r.put("0=ocfl_"+v, "ocfl_"+v+"\n")
	}},
	{"object declaration missing", func(t *rapid.T, r *structRoot) bool { return r.del(r.decl(r.obj(t))) }},
	{"several object declarations", func(t *rapid.T, r *structRoot) bool {
		v := pickS(t, "version", "1.0", "1.1", "1.2", "2.0", "0.9")
		return r.put(r.obj(t)+"/0=ocfl_object_"+v, "ocfl_object_"+v+"\n")
	}},
	{"other object declaration", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		r.del(r.decl(o))
		v := pickS(t, "declaration", "ocfl_object_1.0", "ocfl_object_1.1", "ocfl_object_1.2", "ocfl_object_", "ocfl_1.1", "ocfl_object_1.1.0", "OCFL_object_1.1")
		return r.put(o+"/0="+v, v+"\n")
	}},
	{"object declaration content", func(t *rapid.T, r *structRoot) bool {
		d := r.decl(r.obj(t))
		v := strings.TrimPrefix(path.Base(d), "0=")
		r.files[d] = pickS(t, "content", "", "ocfl_object_1.2\n", v, v+"\n\n", "0="+v+"\n", " "+v+"\n", "ocfl_1.1\n")
		r.what = " " + d + " " + short([]byte(r.files[d]))
		return true
	}},
	{"layout file", func(t *rapid.T, r *structRoot) bool {
		r.files["ocfl_layout.json"] = pickS(t, "content", "", "{", "[]", "3", "null", `"0002-flat-direct-storage-layout"`, "{}", `{"extension":"0002-flat-direct-storage-layout"}`, `{"description":"flat"}`,
			`{"extension":3,"description":"x"}`, `{"extension":"0002-flat-direct-storage-layout","description":4}`, `{"extension":"0002-flat-direct-storage-layout","description":"x","more":1}`, `{"extension":null,"description":null}`)
		r.what = " " + r.files["ocfl_layout.json"]
		return true
	}},
	{"file in the extensions of the root", func(t *rapid.T, r *structRoot) bool {
		return r.put("extensions/"+pickS(t, "name", "readme.txt", "config.json", ".hidden", "0002-flat-direct-storage-layout.md"), "text")
	}},
	{"folder in the extensions of the root", func(t *rapid.T, r *structRoot) bool {
		return r.put("extensions/"+pickS(t, "name", "unknown/data/file.bin", "1234-mine/x.txt"), "text")
	}},
	{"file in the extensions of an object", func(t *rapid.T, r *structRoot) bool {
		return r.put(r.obj(t)+"/extensions/"+pickS(t, "name", "readme.txt", "config.json", ".hidden"), "text")
	}},
	{"folder in the extensions of an object", func(t *rapid.T, r *structRoot) bool {
		return r.put(r.obj(t)+"/extensions/"+pickS(t, "name", "unknown/data/file.bin", "1234-mine/x.txt"), "text")
	}},
	{"logs of an object", func(t *rapid.T, r *structRoot) bool {
		return r.put(r.obj(t)+"/logs/"+pickS(t, "name", "log.txt", "a/b", "0=ocfl_object_1.1", "inventory.json"), "text")
	}},
	{"file in an object", func(t *rapid.T, r *structRoot) bool {
		return r.put(r.obj(t)+"/"+pickS(t, "name", "readme.txt", "inventory.json.md5", "inventory.json.bak", ".hidden", "0=other", "v9", "ocfl_layout.json", "v01", "inventory.jsonx"), "text")
	}},
	{"logs is a file", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		r.del(o + "/logs")
		return r.put(o+"/logs", "text")
	}},
	{"folder in an object", func(t *rapid.T, r *structRoot) bool {
		return r.put(r.obj(t)+"/"+pickS(t, "name", "other/file", "content/x", "v0/x", "V1/x", "vx/x", "v/x", "v1.0/x", "Logs/x", "empty/", "v99/", ".git/x"), "text")
	}},
	{"root inventory missing", func(t *rapid.T, r *structRoot) bool { return r.del(r.obj(t) + "/inventory.json") }},
	{"root sidecar missing", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		return inv != nil && r.del(o+"/inventory.json."+inv.alg)
	}},
	{"version folder missing", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		return inv != nil && r.del(o+"/"+rapid.SampledFrom(sortedKeys(inv.versions)).Draw(t, "version"))
	}},
	{"version inventory missing", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil {
			return false
		}
		p := o + "/" + rapid.SampledFrom(sortedKeys(inv.versions)).Draw(t, "version") + "/inventory.json"
		ok := r.del(p)
		if rapid.Bool().Draw(t, "sidecar") {
			for _, a := range []string{"sha256", "sha512"} {
				if _, has := r.files[p+"."+a]; has {
					r.del(p + "." + a)
				}
			}
		}
		return ok
	}},
	{"version sidecar missing", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil {
			return false
		}
		p := o + "/" + rapid.SampledFrom(sortedKeys(inv.versions)).Draw(t, "version") + "/inventory.json"
		for _, a := range []string{"sha256", "sha512"} {
			if _, has := r.files[p+"."+a]; has {
				return r.del(p + "." + a)
			}
		}
		return false
	}},
	{"newer version folder", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil {
			return false
		}
		n := vnum(inv.head) + 1
		return r.copy(o+"/"+inv.head, o+"/"+vname(n))
	}},
	{"older root inventory", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil || len(inv.versions) < 2 {
			return false
		}
		v := rapid.SampledFrom(sortedKeys(inv.versions)).Draw(t, "version")
		raw, ok := r.files[o+"/"+v+"/inventory.json"]
		if !ok || v == inv.head {
			return false
		}
		r.files[o+"/inventory.json"] = raw
		old := r.head(o)
		if old == nil {
			return false
		}
		r.del(o + "/inventory.json." + inv.alg)
		r.reseal(o+"/inventory.json", old.alg)
		r.what += " root inventory of " + v
		return true
	}},
	{"inventory of another version", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil || len(inv.versions) < 2 {
			return false
		}
		from := rapid.SampledFrom(sortedKeys(inv.versions)).Draw(t, "from")
		to := rapid.SampledFrom(sortedKeys(inv.versions)).Draw(t, "to")
		raw, ok := r.files[o+"/"+from+"/inventory.json"]
		if !ok || from == to {
			return false
		}
		for _, a := range []string{"sha256", "sha512"} {
			delete(r.files, o+"/"+to+"/inventory.json."+a)
		}
		r.files[o+"/"+to+"/inventory.json"] = raw
		for _, a := range []string{"sha256", "sha512"} {
			if _, ok := r.files[o+"/"+from+"/inventory.json."+a]; ok {
				r.reseal(o+"/"+to+"/inventory.json", a)
			}
		}
		r.what += " " + o + " " + from + " in " + to
		return true
	}},
	{"content elsewhere", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil {
			return false
		}
		var l []string
		for f := range sub(r.files, o) {
			if p := strings.SplitN(f, "/", 3); len(p) == 3 && p[1] == inv.cdir() {
				l = append(l, f)
			}
		}
		if len(l) == 0 {
			return false
		}
		slices.Sort(l)
		f := rapid.SampledFrom(l).Draw(t, "file")
		p := strings.SplitN(f, "/", 3)
		all := rapid.Bool().Draw(t, "all of the version")
		place := pickS(t, "place", "other", "", "Content", inv.cdir()+"x", "extensions")
		names := map[string]string{}
		for _, v := range sortedKeys(inv.versions) {
			names[v] = v
		}
		r.rewrite(o, names, func(q string) string {
			if q == f || all && strings.HasPrefix(q, p[0]+"/"+p[1]+"/") {
				return path.Join(p[0], place, strings.SplitN(q, "/", 3)[2])
			}
			return q
		})
		r.what += " " + f + " in " + place
		return true
	}},
	{"versions renamed", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil {
			return false
		}
		names := map[string]string{}
		width := rapid.SampledFrom([]int{0, 2, 3, 5}).Draw(t, "digits")
		mixed := rapid.Bool().Draw(t, "mixed")
		for _, v := range sortedKeys(inv.versions) {
			w := width
			if mixed {
				w = rapid.SampledFrom([]int{0, 1, 2, 3}).Draw(t, "digits of "+v)
			}
			names[v] = fmt.Sprintf("v%0*d", w, vnum(v))
		}
		r.rename(o, names)
		return true
	}},
	{"file in a version", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil {
			return false
		}
		return r.put(o+"/"+rapid.SampledFrom(sortedKeys(inv.versions)).Draw(t, "version")+"/"+pickS(t, "name", "readme.txt", "inventory.json.md5", ".hidden", "0=ocfl_object_1.1", "inventory.json.sha512x"), "text")
	}},
	{"folder in a version", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil {
			return false
		}
		return r.put(o+"/"+rapid.SampledFrom(sortedKeys(inv.versions)).Draw(t, "version")+"/"+pickS(t, "name", "other/x", "logs/x", "Content/x", "contents/x", "extensions/x"), "text")
	}},
	{"file in the content of a version", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil {
			return false
		}
		return r.put(o+"/"+rapid.SampledFrom(sortedKeys(inv.versions)).Draw(t, "version")+"/"+inv.cdir()+"/"+pickS(t, "name", "surplus", "sur/plus/x", ".hidden", "empty/", "e/m/p/t/y/"), "text")
	}},
	{"content is a file", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil {
			return false
		}
		p := o + "/" + rapid.SampledFrom(sortedKeys(inv.versions)).Draw(t, "version") + "/" + inv.cdir()
		r.del(p)
		return r.put(p, "text")
	}},
	{"version is a file", func(t *rapid.T, r *structRoot) bool {
		o := r.obj(t)
		inv := r.head(o)
		if inv == nil {
			return false
		}
		p := o + "/" + rapid.SampledFrom(sortedKeys(inv.versions)).Draw(t, "version")
		r.del(p)
		return r.put(p, "text")
	}},
}

// C32: validation reports violations in the structure of a storage root.
func TestC32(t *testing.T) {
	f := newFactory(factoryOpts{})
	const check = "structures"
	runCheck(t, check, 16000, 400000, func(t *rapid.T) {
		fr := genFRoot(t, 3)
		r := &structRoot{files: map[string]string{}}
		for p, c := range fr.files() {
			r.files[p] = c
		}
		r.objs = objectFolders(r.files)
		if len(r.objs) == 0 {
			infra("no objects in %v", sortedKeys(r.files))
		}
		m := rapid.SampledFrom(structMuts).Draw(t, "change")
		if !m.do(t, r) {
			count(check, "", false, nil, "not applicable")
			return
		}
		// a file in the place of a folder is no tree
		for p := range r.files {
			for d := path.Dir(p); d != "."; d = path.Dir(d) {
				if _, ok := r.files[d]; ok {
					count(check, "", false, nil, "not applicable")
					return
				}
			}
		}
		_, pr := checkRoot(r.files, false)
		w := worldOf(r.files)
		var errs []string
		if msg := noPanic(func() { errs = validate(w.mount(rootDir), f) }); msg != "" {
			t.Fatalf("validation panics after %s%s: %s\n%s", m.name, r.what, msg, dumpFiles(r.files))
		}
		if len(errs) == 0 && len(pr) > 0 {
			t.Fatalf("not reported: %s:%s\n  violations: %s\n%s", m.name, r.what, joinProblems(pr), dumpFiles(r.files))
		}
		if len(errs) > 0 && len(pr) == 0 {
			t.Fatalf("reported although conformant: %s:%s\n  errors: %s\n%s", m.name, r.what, strings.Join(errs, "\n  "), dumpFiles(r.files))
		}
		res := "violation"
		if len(pr) == 0 {
			res = "conformant"
		}
		count(check, m.name+r.what+j(fr.describe()), true, map[string]any{"change": m.name + ":" + r.what, "root": fr.describe(), "violations": len(pr)}, m.name, res)
	})
}
