package zzverif

import (
	"fmt"
	"path"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"pgregory.net/rapid"
)

var hostileLogical = []string{"../x", "../../outside.txt", "/abs", "a/../../x", "..", ".", "", "a//b", "./x", "a/.", "a/..", "x/", "a\\..\\b", "manifest.sha512", "manifest.sha256", "..x", "...", "\x00", "a\x00b", "C:/x", "../target2/x", "deep/../../../../store/root/0=ocfl_1.0"}

// reseal writes the inventory of an object (root and head copy) with fresh
// sidecars.
func (o *fObject) reseal(files map[string]string, inv map[string]any) {
	raw := o.Style.render(inv)
	last := o.Vers[len(o.Vers)-1]
	alg, _ := inv["digestAlgorithm"].(string)
	put := func(dir string) {
		files[dir+"/inventory.json"] = string(raw)
		files[dir+"/inventory.json."+alg] = last.sidecar(alg, raw)
	}
	put(o.Folder)
	if last.Stored {
		put(o.Folder + "/" + last.Name)
	}
}

// C14: extraction delivers verified content below the target only.
func TestC14(t *testing.T) {
	f := newFactory(factoryOpts{})
	runCheck(t, "altered", 12000, 400000, func(t *rapid.T) {
		r := genFRoot(t, 2)
		files := r.files()
		files["secret.txt"] = "secret" // in the storage root, outside of all objects
		o := r.Objs[rapid.IntRange(0, len(r.Objs)-1).Draw(t, "object")]
		last := len(o.Vers) - 1
		inv := deepCopy(o.invs[last]).(map[string]any)
		man := inv["manifest"].(map[string]any)
		alg := inv["digestAlgorithm"].(string)
		vn := o.Vers[rapid.IntRange(0, last).Draw(t, "version")].Name
		state := inv["versions"].(map[string]any)[vn].(map[string]any)["state"].(map[string]any)
		what := rapid.SampledFrom([]string{"nothing", "content", "content", "content", "other object's content", "swap", "logical path", "logical path", "logical path", "content path", "content path", "no content path"}).Draw(t, "what")
		kind := what
		desc := what
		var usedFiles, all []string
		for _, d := range sortedKeys(man) {
			for _, p := range man[d].([]any) {
				all = append(all, p.(string))
				if _, ok := state[d]; ok {
					usedFiles = append(usedFiles, p.(string))
				}
			}
		}
		if len(usedFiles) == 0 {
			usedFiles = all
		}
		if len(all) == 0 {
			what, kind = "nothing", "nothing"
		}
		choose := func() string { return rapid.SampledFrom(usedFiles).Draw(t, "file") }
		anyState := func() (string, []any, int) {
			ds := sortedKeys(state)
			if len(ds) == 0 {
				return "", nil, 0
			}
			d := rapid.SampledFrom(ds).Draw(t, "digest")
			l := state[d].([]any)
			if len(l) == 0 {
				return d, l, -1
			}
			return d, l, rapid.IntRange(0, len(l)-1).Draw(t, "entry")
		}
		switch what {
		case "content":
			p := o.Folder + "/" + choose()
			s := files[p]
			switch k := rapid.IntRange(0, 5).Draw(t, "how"); {
			case k == 0:
				delete(files, p)
				kind += " lost"
			case k == 1:
				files[p] = s + rapid.SampledFrom([]string{"x", "\x00", "\n"}).Draw(t, "more")
				kind += " extended"
			case k == 2 && len(s) > 0:
				files[p] = s[:rapid.IntRange(0, len(s)-1).Draw(t, "cut")]
				kind += " cut"
			case k == 3:
				delete(files, p)
				files[p+"/"] = ""
				kind += " a folder"
			case len(s) > 0:
				b := []byte(s)
				b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
				files[p] = string(b)
				kind += " flipped"
			default:
				files[p] = "no longer empty"
				kind += " filled"
			}
			desc = kind + " " + p
		case "other object's content", "swap":
			p, q := o.Folder+"/"+choose(), o.Folder+"/"+rapid.SampledFrom(all).Draw(t, "second")
			if files[p] == files[q] {
				kind = "nothing"
			}
			files[p], files[q] = files[q], files[p]
			desc = what + " " + p + " " + q
		case "logical path":
			d, l, i := anyState()
			h := rapid.SampledFrom(hostileLogical).Draw(t, "logical")
			if d == "" {
				if len(man) == 0 {
					break
				}
				state[sortedKeys(man)[0]] = []any{h}
			} else if i < 0 || rapid.Bool().Draw(t, "extra") {
				state[d] = append(l, h)
			} else {
				if rapid.IntRange(0, 3).Draw(t, "prefix") == 0 {
					h = l[i].(string) + "/" + h // conflicts with or climbs from an existing name
					h = rapid.SampledFrom([]string{h, l[i].(string)}).Draw(t, "twice")
					state[d] = append(l, h)
				} else {
					l[i] = h
				}
			}
			desc = fmt.Sprintf("%s %q", what, h)
			o.reseal(files, inv)
		case "content path":
			d, l, _ := anyState()
			target := rapid.SampledFrom([]string{"../secret.txt", "../../outside.txt", "/store/outside.txt", "/outside.txt", "v1/../../../outside.txt", "..", ".", "", "v1", "inventory.json", "../" + r.Objs[0].Folder + "/inventory.json", "./" + choose(), "v1//x", "extensions/../" + choose()}).Draw(t, "content path")
			up := strings.Repeat("../", strings.Count(o.Folder, "/")+1)
			if strings.HasSuffix(target, "secret.txt") {
				target = up + "secret.txt"
			}
			if strings.HasSuffix(target, "../outside.txt") {
				target = up + "../outside.txt"
			}
			if rapid.IntRange(0, 3).Draw(t, "other object") == 0 && len(r.Objs) > 1 {
				q := r.Objs[0]
				if q == o {
					q = r.Objs[1]
				}
				ps := sortedKeys(q.Content)
				if len(ps) > 0 {
					target = up + q.Folder + "/" + ps[0]
				}
			}
			// the digest is the right one for the file outside
			secret := map[string]string{"secret.txt": "secret", "outside.txt": "outside"}[path.Base(target)]
			if s, ok := files[path.Join(o.Folder, target)]; ok {
				secret = s
			}
			nd := o.Vers[last].dig(alg, secret)
			if d == "" {
				state[nd] = []any{"stolen"}
			} else {
				delete(state, d)
				if x, ok := state[nd].([]any); ok {
					l = append(append([]any{}, x...), l...)
				}
				state[nd] = l
			}
			if old, ok := man[nd].([]any); ok && rapid.Bool().Draw(t, "append") {
				man[nd] = append(old, target)
			} else {
				man[nd] = []any{target}
			}
			desc = fmt.Sprintf("%s %q", what, target)
			o.reseal(files, inv)
		case "no content path":
			d, _, _ := anyState()
			if d == "" {
				break
			}
			if rapid.Bool().Draw(t, "drop") {
				delete(man, d)
			} else {
				man[d] = []any{}
			}
			o.reseal(files, inv)
		}
		treeOf(files)
		// what the inventory demands
		want := map[string]map[string]bool{} // logical path -> digests (lower case)
		entries, twice := 0, false
		for d, l := range state {
			for _, p := range l.([]any) {
				s := p.(string)
				if want[s] == nil {
					want[s] = map[string]bool{}
				}
				want[s][strings.ToLower(d)] = true
				entries++
				twice = twice || len(want[s]) > 1
			}
		}
		w := worldOf(files)
		before := w.snapshot("/")
		w.logging = true
		opened := []string{}
		w.hook = func(kind, p string, n int) (int, error) {
			if kind == "open" {
				opened = append(opened, p)
			}
			return n, nil
		}
		tw := newWorld()
		tw.put("/other/file", []byte("untouched"))
		target := rapid.SampledFrom([]string{"/target", "/a/b/target"}).Draw(t, "target")
		dst := tw.mount(target)
		manifest := rapid.Bool().Draw(t, "manifest")
		by := rapid.SampledFrom([]string{"folder", "object"}).Draw(t, "by")
		version := vn
		if vn == o.Vers[last].Name {
			version = rapid.SampledFrom([]string{vn, "latest", ""}).Draw(t, "how named")
		}
		var err error
		fail := func(format string, a ...any) {
			t.Helper()
			t.Fatalf("%s\n%s, version %s of %s, manifest %v, by %s\n%s\ninventory %s", fmt.Sprintf(format, a...), desc, version, o.Folder, manifest, by, dumpFiles(files), j(inv))
		}
		if msg := noPanic(func() {
			var sr ocfl.StorageRoot
			sr, err = loadRoot(newCtx(), w.mount(rootDir), f)
			if err != nil {
				return
			}
			opened = nil
			if by == "folder" {
				err = sr.Extract(dst, o.Folder, "", version, manifest, "")
				return
			}
			var ob ocfl.Object
			if ob, err = sr.LoadObjectByFolder(o.Folder); err != nil {
				return
			}
			err = ob.Extract(dst, version, manifest, "")
		}); msg != "" {
			fail("extraction panics: %s", msg)
		}
		if d := diffSnap(before, w.snapshot("/")); d != "" || len(w.log) > 0 {
			fail("extraction changes the storage root: %s", d)
		}
		if len(w.escapes) > 0 || len(tw.escapes) > 0 {
			fail("extraction uses paths outside: reading %v, writing %v", w.escapes, tw.escapes)
		}
		for _, p := range opened {
			if !strings.HasPrefix(p, rootDir+"/"+o.Folder+"/") && strings.Contains(p, "outside") || strings.HasSuffix(p, "/secret.txt") {
				fail("extraction reads %s outside of the object", p)
			}
			for _, q := range r.Objs {
				if q != o && strings.HasPrefix(p, rootDir+"/"+q.Folder+"/") {
					fail("extraction reads %s of another object", p)
				}
			}
		}
		got := map[string]string{}
		prefix := strings.TrimPrefix(target, "/") + "/"
		for p, c := range tw.files("/") {
			if p = strings.TrimPrefix(p, "/"); p == "other/file" && c == "untouched" {
				continue
			}
			if !strings.HasPrefix(p, prefix) {
				fail("extraction writes %s outside of the target", p)
			}
			got[strings.TrimPrefix(p, prefix)] = c
		}
		cl := []string{kind, "by " + by}
		if err != nil {
			if kind == "nothing" {
				fail("extraction of an intact version fails: %v", err)
			}
			count("altered", j(files)+desc+vn, true, map[string]any{"change": desc, "error": err.Error(), "root": r.describe()}, append(cl, "refused")...)
			return
		}
		// success: every file is there and is what the version records
		if twice {
			fail("a path with two contents is extracted without error")
		}
		mf := "manifest." + alg
		lines := []string{}
		for _, p := range sortedKeys(want) {
			ds := sortedKeys(want[p])
			c, ok := got[p]
			if !ok {
				fail("success, but %q was not extracted", p)
			}
			if digestOf(alg, []byte(c)) != ds[0] {
				fail("success, but %q has digest %s instead of %s", p, digestOf(alg, []byte(c)), ds[0])
			}
			lines = append(lines, ds[0]+" "+p)
		}
		for p := range got {
			if _, ok := want[p]; !ok && !(manifest && p == mf) {
				fail("unexpected file %q", p)
			}
		}
		if manifest {
			var have []string
			for _, l := range strings.Split(strings.TrimSuffix(got[mf], "\n"), "\n") {
				if l == "" {
					continue
				}
				d, p, _ := strings.Cut(l, " ")
				l = strings.ToLower(d) + " " + strings.TrimSpace(p)
				if entries > len(want) && slices.Contains(have, l) {
					continue // an inventory which lists a path twice
				}
				have = append(have, l)
			}
			// names may hold blanks at either end; compare the trimmed texts
			for i, l := range lines {
				d, p, _ := strings.Cut(l, " ")
				lines[i] = d + " " + strings.TrimSpace(p)
			}
			sort.Strings(have)
			sort.Strings(lines)
			if strings.Join(have, "\n") != strings.Join(lines, "\n") {
				fail("manifest file lists\n%s\ninstead of\n%s", strings.Join(have, "\n"), strings.Join(lines, "\n"))
			}
		}
		count("altered", j(files)+desc+vn, entries > 0, map[string]any{"change": desc, "files": len(got), "root": r.describe()}, append(cl, "extracted", map[bool]string{true: "with manifest"}[manifest])...)
	})
	// All objects of a root with one altered file: success only without it.
	runCheck(t, "whole root", 4000, 120000, func(t *rapid.T) {
		r := genFRoot(t, 3)
		files := r.files()
		altered := ""
		if rapid.Bool().Draw(t, "alter") {
			var cont []string
			for _, o := range r.Objs {
				for p := range o.Content {
					cont = append(cont, o.Folder+"/"+p)
				}
			}
			sort.Strings(cont)
			if len(cont) > 0 {
				altered = rapid.SampledFrom(cont).Draw(t, "file")
				files[altered] += "x"
			}
		}
		w := worldOf(files)
		tw := newWorld()
		var err error
		manifest := rapid.Bool().Draw(t, "manifest")
		version := rapid.SampledFrom([]string{"latest", "", "first"}).Draw(t, "version")
		if version == "first" {
			version = r.Objs[0].Vers[0].Name
			for _, o := range r.Objs {
				if o.Vers[0].Name != version {
					version = "latest"
					break
				}
			}
		}
		if msg := noPanic(func() {
			var sr ocfl.StorageRoot
			if sr, err = loadRoot(newCtx(), w.mount(rootDir), f); err == nil {
				err = sr.Extract(tw.mount("/target"), "", "", version, manifest, "")
			}
		}); msg != "" {
			t.Fatalf("extraction panics: %s\n%s", msg, dumpFiles(files))
		}
		if err != nil {
			if altered == "" {
				t.Fatalf("extraction of an intact root fails: %v\n%s", err, dumpFiles(files))
			}
			count("whole root", j(files)+version, true, map[string]any{"altered": altered, "error": err.Error()}, "refused")
			return
		}
		want := map[string]string{}
		for _, o := range r.Objs {
			v := o.Vers[len(o.Vers)-1]
			if version == o.Vers[0].Name {
				v = o.Vers[0]
			}
			for p, c := range v.State {
				want[o.Folder+"/"+p] = c
			}
			if manifest {
				want[o.Folder+"/manifest."+o.Vers[len(o.Vers)-1].Alg] = "?"
			}
		}
		got := tw.files("/target")
		for p := range got {
			if want[p] == "?" && manifest {
				want[p] = got[p]
			}
		}
		if d := filesDiff(got, want); d != "" {
			t.Fatalf("extraction of the whole root, altered %q: %s\n%s", altered, d, dumpFiles(files))
		}
		count("whole root", j(files)+version, len(want) > 1, map[string]any{"altered": altered, "files": len(got)}, "extracted", fmt.Sprintf("objects=%d", len(r.Objs)))
	})
}
