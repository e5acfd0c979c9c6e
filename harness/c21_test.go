package zzverif

// C21: content areas partition an object.

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

type areaStep struct {
	Area, Kind string // folder data reader
	Path       string
	Tree       map[string]blob
	Blob       blob
	Dedup      bool
}

func (a areaStep) String() string {
	what := a.Path + "=" + a.Blob.String()
	if a.Kind == "folder" {
		var l []string
		for _, p := range sortedKeys(a.Tree) {
			l = append(l, p+"="+a.Tree[p].String())
		}
		what = strings.Join(l, " ")
	}
	return fmt.Sprintf("%s:%s dedup=%v %s", a.Area, a.Kind, a.Dedup, what)
}

var areaFolders = []string{"data", "data2", "da", "dat/a", "dat/ab", "meta", "meta.x", "metadata", "d-a", "DATA", "x/y", "x/yz", "ü", "with space"}
var areaNames = []string{"metadata", "other", "meta", "index", "all", "Content", "ü b"}

func TestC21(t *testing.T) {
	runCheck(t, "areas", 2400, 60000, func(t *rapid.T) {
		// areas never contain each other
		folders := rapid.Permutation(areaFolders).Draw(t, "folders")
		n := rapid.IntRange(1, 4).Draw(t, "areas")
		areas := map[string]string{}
		names := append([]string{"content"}, rapid.Permutation(areaNames).Draw(t, "areaNames")...)
		for _, f := range folders {
			if len(areas) == n {
				break
			}
			ok := true
			for _, g := range areas {
				ok = ok && !conflicts(f, g) && f != g
			}
			if ok {
				areas[names[len(areas)]] = f
			}
		}
		if n == 1 && rapid.IntRange(0, 3).Draw(t, "rootArea") == 0 {
			areas["content"] = ""
		}
		sub := map[string]any{}
		for _, a := range sortedKeys(areas) {
			f := areas[a]
			if rapid.IntRange(0, 5).Draw(t, "slash"+a) == 0 && f != "" {
				f += "/"
			}
			sub[a] = map[string]any{"path": f, "description": "area " + a}
		}
		cfg := &histCfg{Version: rapid.SampledFrom([]string{"1.0", "1.1"}).Draw(t, "version"), Layout: layouts()[2].exts, Digest: rapid.SampledFrom([]string{"sha512", "sha256"}).Draw(t, "digest")}
		cfg.Exts = []extCfg{initialExt, objManager, ext("NNNN-content-subpath", "subPath", sub)}
		switch rapid.IntRange(0, 2).Draw(t, "contentPath") {
		case 1:
			cfg.Exts = append(cfg.Exts, dclean(true))
		case 2:
			cfg.Exts = append(cfg.Exts, ext("NNNN-direct-path-layout"))
		}
		used := sortedKeys(areas)
		def := "content"
		params := map[string]string{}
		if rapid.IntRange(0, 2).Draw(t, "param") == 0 {
			def = rapid.SampledFrom(used).Draw(t, "defaultArea")
			params["ext-NNNN-content-subpath-area"] = def
		}
		var log []string
		fail := func(format string, a ...any) {
			t.Fatalf("areas %s, default %q, extensions %v, sessions\n  %s\n%s", j(sub), def, extNames(cfg.Exts), strings.Join(log, "\n  "), cut(fmt.Sprintf(format, a...), 1500))
		}
		h, err := newHist(cfg)
		if err != nil {
			fail("%v", err)
		}
		h.f = newFactory(factoryOpts{params: params})
		if err := h.reload(); err != nil {
			fail("%v", err)
		}
		const id = "obj"
		// per version: area -> name -> content
		type state map[string]map[string]string
		var versions []state
		full := func(s state) map[string]string {
			r := map[string]string{}
			for a, files := range s {
				for n, c := range files {
					r[cleanJoin(areas[a], n)] = c
				}
			}
			return r
		}
		cur := state{}
		for a := range areas {
			cur[a] = map[string]string{}
		}
		shared, prefix := false, false
		for _, a := range used {
			for _, b := range used {
				prefix = prefix || a != b && areas[a] != "" && strings.HasPrefix(areas[b], areas[a])
			}
		}
		for k := rapid.IntRange(1, 4).Draw(t, "sessions"); k > 0; k-- {
			echo := rapid.IntRange(0, 3).Draw(t, "echo") == 0
			next := state{}
			for a, files := range cur {
				next[a] = map[string]string{}
				for n, c := range files {
					next[a][n] = c
				}
			}
			touched := map[string]bool{}
			taken := func(a, p string) bool {
				if touched[a+"\x00"+p] {
					return true
				}
				for q := range next[a] {
					if conflicts(p, q) {
						return true
					}
				}
				return areas[a] == "" && strings.HasPrefix(p, "README.md")
			}
			added := map[string]map[string]string{} // content -> areas which added it
			add := func(a, p string, b blob) {
				touched[a+"\x00"+p] = true
				next[a][p] = b.bytes()
				blobIndex[b.bytes()] = b
				if added[b.bytes()] == nil {
					added[b.bytes()] = map[string]string{}
				}
				added[b.bytes()][a] = p
			}
			var steps []areaStep
			for i := rapid.IntRange(0, 5).Draw(t, "steps"); i > 0; i-- {
				st := areaStep{Area: rapid.SampledFrom(used).Draw(t, "area"), Dedup: rapid.Bool().Draw(t, "dedup")}
				st.Kind = rapid.SampledFrom([]string{"folder", "data", "reader"}).Draw(t, "kind")
				if st.Kind == "folder" {
					st.Tree = map[string]blob{}
					for m := rapid.IntRange(0, 4).Draw(t, "files"); m > 0; m-- {
						p := genPath(t, "path")
						if !taken(st.Area, p) {
							st.Tree[p] = genBlob(t)
							add(st.Area, p, st.Tree[p])
						}
					}
				} else {
					st.Path = genPath(t, "path")
					if taken(st.Area, st.Path) {
						continue
					}
					st.Blob = genBlob(t)
					add(st.Area, st.Path, st.Blob)
				}
				steps = append(steps, st)
			}
			if echo {
				for p := range next[def] {
					if !touched[def+"\x00"+p] {
						delete(next[def], p)
					}
				}
				if areas[def] == "" {
					echo = false
					next[def] = map[string]string{}
					for p, c := range cur[def] {
						next[def][p] = c
					}
					for _, st := range steps {
						for p, b := range st.Tree {
							next[def][p] = b.bytes()
						}
						if st.Kind != "folder" {
							next[def][st.Path] = st.Blob.bytes()
						}
					}
				}
			}
			var desc []string
			for _, st := range steps {
				desc = append(desc, st.String())
			}
			log = append(log, fmt.Sprintf("echo=%v [%s]", echo, strings.Join(desc, "; ")))
			o, err := h.open(id)
			if err != nil {
				fail("%v", err)
			}
			if _, err := o.StartUpdate(newWorld().mount("/none"), "m", "u", "mailto:u", echo); err != nil {
				fail("StartUpdate: %v", err)
			}
			for i, st := range steps {
				area := st.Area
				if area == def && (i%2 == 0) {
					area = "" // the default area
				}
				switch st.Kind {
				case "folder":
					err = o.AddFolder((&session{}).source(step{Tree: st.Tree}), nil, st.Dedup, area)
				case "data":
					err = o.AddData([]byte(st.Blob.bytes()), st.Path, st.Dedup, area, false, false)
				default:
					_, err = o.AddReader(io.NopCloser(bytes.NewReader([]byte(st.Blob.bytes()))), []string{st.Path}, area, false, false)
				}
				if err != nil {
					fail("%s: %v", st, err)
				}
			}
			if err := o.EndUpdate(); err != nil {
				fail("EndUpdate: %v", err)
			}
			if err := o.Close(); err != nil {
				fail("Close: %v", err)
			}
			inv, folder, err := h.inventory(id)
			if err != nil {
				fail("%v", err)
			}
			same := sameState(full(cur), full(next))
			created := false
			switch v := vnum(inv.head); {
			case v == len(versions)+1:
				versions = append(versions, next)
				created = true
			case v != len(versions) || !same:
				fail("head is %s after %d versions", inv.head, len(versions))
			}
			cur = next
			for _, l := range added {
				shared = shared || len(l) > 1
			}
			// logical paths
			want := full(cur)
			readme := false
			for d, ps := range inv.versions[inv.head].state {
				for _, p := range ps {
					if p == "README.md" {
						readme = true
						want[p] = h.w.snapshot(rootDir)[folder+"/"+inv.manifest[d][0]]
						if strings.Contains(inv.manifest[d][0], "/") && !strings.HasPrefix(inv.manifest[d][0], "v1/") {
							fail("the description of the areas changed: %s", inv.manifest[d][0])
						}
					}
				}
			}
			if !readme {
				fail("no description of the areas")
			}
			if d := stateDiff(inv, inv.head, want, cfg.Digest); d != "" {
				fail("state of %s: %s", inv.head, d)
			}
			// new content lies in the folder of an area it was added to
			for d, ps := range inv.manifest {
				for _, p := range ps {
					rest, ok := strings.CutPrefix(p, inv.head+"/content/")
					if !ok || rest == "README.md" || !created {
						continue
					}
					okArea := false
					for c, l := range added {
						if digestOf(cfg.Digest, []byte(c)) == d {
							for a := range l {
								okArea = okArea || areas[a] == "" || strings.HasPrefix(rest, areas[a]+"/")
							}
						}
					}
					if !okArea {
						fail("content %q lies outside of the areas it was added to", p)
					}
				}
			}
		}
		// extraction
		if rapid.Bool().Draw(t, "reload") {
			if err := h.reload(); err != nil {
				fail("%v", err)
			}
		}
		for i, s := range versions {
			v := fmt.Sprintf("v%d", i+1)
			for _, a := range append(append([]string{}, used...), "") {
				name := a
				if a == "" {
					name = def
				}
				want := map[string]string{}
				for p, c := range s[name] {
					want[p] = c
				}
				got, err := h.extract(id, v, a, false)
				if err != nil {
					fail("extract %s area %q: %v", v, a, err)
				}
				if areas[name] == "" {
					delete(got, "README.md")
				}
				if d := filesDiff(got, want); d != "" {
					fail("extract %s area %q: %s", v, a, d)
				}
			}
			got, err := h.extract(id, v, "full", false)
			if err != nil {
				fail("extract %s full: %v", v, err)
			}
			if _, ok := got["README.md"]; !ok {
				fail("extract %s full: no README.md", v)
			}
			delete(got, "README.md")
			if d := filesDiff(got, full(s)); d != "" {
				fail("extract %s full: %s", v, d)
			}
		}
		o, err := h.sr.LoadObjectByID(id)
		if err != nil {
			fail("%v", err)
		}
		for a, f := range areas {
			if p, err := o.GetAreaPath(a); err != nil || strings.TrimSuffix(p, "/") != f {
				fail("GetAreaPath(%q) = %q, %v", a, p, err)
			}
		}
		// unknown areas
		unknown := rapid.SampledFrom([]string{"unknown", "data", "conten", "contents", " ", "../content"}).Draw(t, "unknown")
		if _, ok := areas[unknown]; !ok {
			before := h.w.snapshot(rootDir)
			if got, err := h.extract(id, "latest", unknown, false); err == nil && len(full(cur)) > 0 {
				fail("area %q is unknown, but extraction gives %d files", unknown, len(got))
			}
			if p, err := o.GetAreaPath(unknown); err == nil {
				fail("GetAreaPath of unknown area %q gives %q", unknown, p)
			}
			if _, err := o.StartUpdate(newWorld().mount("/none"), "m", "u", "mailto:u", false); err != nil {
				fail("StartUpdate: %v", err)
			}
			var err error
			switch rapid.IntRange(0, 2).Draw(t, "unknownKind") {
			case 0:
				err = o.AddData([]byte("x"), "new.txt", rapid.Bool().Draw(t, "unknownDedup"), unknown, false, false)
			case 1:
				_, err = o.AddReader(io.NopCloser(strings.NewReader("x")), []string{"new.txt"}, unknown, false, false)
			default:
				err = o.AddFolder((&session{}).source(step{Tree: map[string]blob{"new.txt": {Size: 3, Tag: 1}}}), nil, rapid.Bool().Draw(t, "unknownDedup"), unknown)
			}
			if err == nil {
				fail("file was added to unknown area %q", unknown)
			}
			var news []string
			for p := range h.w.snapshot(rootDir) {
				if _, ok := before[p]; !ok {
					news = append(news, p)
				}
			}
			sort.Strings(news)
			if len(news) > 0 {
				fail("refused file left %q", news)
			}
		}
		if errs := validate(h.fsys, h.f); len(errs) > 0 {
			fail("validation: %v", errs)
		}
		cl := []string{fmt.Sprintf("areas:%d", len(areas))}
		if shared {
			cl = append(cl, "content shared")
		}
		if prefix {
			cl = append(cl, "prefix folders")
		}
		if def != "content" {
			cl = append(cl, "other default")
		}
		count("areas", j(sub)+strings.Join(log, "\n")+cfg.Digest, len(areas) > 1 && len(full(cur)) > 1, map[string]any{"areas": sub, "default": def, "sessions": log}, cl...)
	})

	runCheck(t, "outside", 3000, 60000, func(t *rapid.T) {
		// paths never leave the folder of their area
		f := newFactory(factoryOpts{params: map[string]string{}})
		folder := rapid.SampledFrom(areaFolders).Draw(t, "folder")
		m := mustManager(t, f, []extCfg{initialExt, objManager, ext("NNNN-content-subpath", "subPath", map[string]any{"content": map[string]any{"path": folder, "description": ""}})})
		var segs []string
		for i := rapid.IntRange(1, 5).Draw(t, "segs"); i > 0; i-- {
			segs = append(segs, rapid.SampledFrom([]string{"..", "..", ".", "a", "b c", "", "...", "..a", folder}).Draw(t, "seg"))
		}
		p := strings.Join(segs, "/")
		sp, err1 := m.BuildObjectStatePath(nil, p, "content")
		mp, err2 := m.BuildObjectManifestPath(nil, p, "content")
		for _, r := range []struct {
			what, p string
			err     error
		}{{"logical", sp, err1}, {"content", mp, err2}} {
			if r.err == nil && r.p != folder && !strings.HasPrefix(cleanJoin(r.p), folder+"/") {
				t.Fatalf("%s path of %q in area folder %q is %q", r.what, p, folder, r.p)
			}
		}
		if err1 == nil && !strings.Contains(p, "..") && strings.Trim(cleanJoin(p), "/.") != "" {
			back, err := m.BuildObjectExtractPath(nil, sp, "content")
			if err != nil || back != cleanJoin("/" + p)[1:] {
				t.Fatalf("%q in area folder %q becomes %q and is extracted as %q (%v)", p, folder, sp, back, err)
			}
		}
		count("outside", folder+"\x00"+p, strings.Contains(p, ".."), map[string]any{"folder": folder, "path": p, "logical": sp}, map[bool]string{true: "accepted", false: "refused"}[err1 == nil])
	})
}
