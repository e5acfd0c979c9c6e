package zzverif

// Sessions on objects another implementation wrote: zero-padded version
// names, content directories of other names, changing digest algorithms,
// missing version inventories and so on.

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// contEvent is what the observers see after a session on a foreign object.
type contEvent struct {
	h             *hist
	o             *fObject
	s             *session
	before, after map[string]string
	first         *oInv // the inventory as the other implementation left it
	inv           *oInv
	states        []map[string]string
	next          map[string]string
	ver           int
	complaint     string
	log           []string
}

func (e *contEvent) fail(t *rapid.T, format string, a ...any) {
	t.Helper()
	t.Fatalf("%s\n  after the sessions\n  %s\n  on the foreign object\n%s", fmt.Sprintf(format, a...), strings.Join(e.log, "\n  "), dumpFiles(sub(e.before, e.o.Folder)))
}

// vname is the name of version n in the object's own style.
func (e *contEvent) vname(n int) string {
	w := len(e.o.Vers[0].Name)
	if strings.HasPrefix(e.o.Vers[0].Name, "v0") {
		return fmt.Sprintf("v%0*d", w-1, n)
	}
	return fmt.Sprintf("v%d", n)
}

func contProp(check string, obs func(t *rapid.T, e *contEvent)) func(*rapid.T) {
	return func(t *rapid.T) {
		r := genFRoot(t, 2)
		r.Extra = map[string]string{}
		lay := rapid.SampledFrom([]extCfg{
			ext("0004-hashed-n-tuple-storage-layout", "digestAlgorithm", "sha256", "tupleSize", 3, "numberOfTuples", 3, "shortObjectRoot", false),
			ext("0003-hash-and-id-n-tuple-storage-layout", "digestAlgorithm", "sha512", "tupleSize", 2, "numberOfTuples", 2),
			ext("0003-hash-and-id-n-tuple-storage-layout", "digestAlgorithm", "sha256", "tupleSize", 0, "numberOfTuples", 0),
		}).Draw(t, "layout")
		r.Extra["ocfl_layout.json"] = `{"extension":"` + lay.name() + `","description":"x"}`
		r.Extra["extensions/"+lay.name()+"/config.json"] = j(lay)
		for i, o := range r.Objs {
			w := oracleLayout(lay, o.ID)
			if w.err || w.path == "" {
				infra("no path for %q", o.ID)
			}
			o.Folder = w.path
			_ = i
		}
		files := r.files()
		if _, pr := checkRoot(files, false); len(pr) > 0 {
			infra("the generated root is not conformant: %v", pr)
		}
		o := r.Objs[0]
		last := o.Vers[len(o.Vers)-1]
		cfg := &histCfg{Version: r.Version, Layout: []extCfg{lay}, Digest: last.Alg, IDs: []string{o.ID}, Area: ""}
		h := &hist{cfg: cfg, w: worldOf(files), models: map[string]*model{}, folders: map[string]string{}, f: newFactory(factoryOpts{})}
		h.fsys = h.w.mount(rootDir)
		m := &model{}
		for _, v := range o.Vers {
			m.versions = append(m.versions, v.State)
			for _, p := range sortedKeys(v.State) {
				c := v.State[p]
				blobIndex[c] = blob{Size: len(c), Raw: c}
			}
		}
		h.models[o.ID] = m
		if err := h.reload(); err != nil {
			t.Fatalf("loading the root: %v\n%s", err, dumpFiles(files))
		}
		first, _, err := h.inventory(o.ID)
		if err != nil {
			infra("%v", err)
		}
		n := rapid.IntRange(1, 3).Draw(t, "sessions")
		e := &contEvent{h: h, o: o, first: first}
		full := false // the padded number is used up
		for i := 0; i < n; i++ {
			s := genSession(t, o.ID, m.head())
			e.s = s
			e.log = append(e.log, s.String())
			e.next, e.ver = h.expect(s)
			e.before = h.w.snapshot(rootDir)
			name := e.vname(len(m.versions) + 1)
			full = strings.HasPrefix(o.Vers[0].Name, "v0") && !strings.HasPrefix(name, "v0")
			err := h.run(s)
			e.after = h.w.snapshot(rootDir)
			if full {
				// no version can follow
				if err == nil {
					e.fail(t, "a version after %s is not possible, but the session succeeds", e.vname(len(m.versions)))
				}
				e.complaint, e.inv = "", first
				e.states = m.versions
				if d := filesDiff(withoutFolders(e.after), withoutFolders(e.before)); d != "" {
					e.fail(t, "rejected session: %s", d)
				}
				break
			}
			if err != nil {
				e.fail(t, "session %d failed: %v", i, err)
			}
			_, e.complaint = h.settle(s, e.next, e.ver)
			e.inv, _, err = h.inventory(o.ID)
			if err != nil {
				e.fail(t, "%v", err)
			}
			e.states = m.versions
			obs(t, e)
			if len(h.w.escapes) > 0 {
				e.fail(t, "access outside the storage root: %v", h.w.escapes)
			}
			if e.complaint != "" {
				break
			}
		}
		cls := r.classes()
		if full {
			cls = append(cls, "no further version possible")
		}
		d := map[string]any{"root": r.describe(), "sessions": e.log}
		count(check, j(d), len(m.versions) > len(o.Vers), d, cls...)
	}
}

// contStates: the states of all versions follow the foreign ones and the
// update rules.
func contStates(t *rapid.T, e *contEvent) {
	if e.complaint != "" {
		if e.ver > 0 {
			e.fail(t, "%s", e.complaint)
		}
		return
	}
	for i, want := range e.states {
		if d := stateDiff(e.inv, e.vname(i+1), want, e.inv.alg); d != "" {
			e.fail(t, "state of version %s: %s", e.vname(i+1), d)
		}
	}
}

// contExtract: all versions can be extracted.
func contExtract(t *rapid.T, e *contEvent) {
	if e.complaint != "" {
		return
	}
	if err := e.h.reload(); err != nil {
		e.fail(t, "reload: %v", err)
	}
	for i, want := range e.states {
		got, err := e.h.extract(e.s.ID, e.vname(i+1), "", false)
		if err != nil {
			e.fail(t, "extracting %s: %v", e.vname(i+1), err)
		}
		if d := filesDiff(got, want); d != "" {
			e.fail(t, "%s extracts wrongly: %s", e.vname(i+1), d)
		}
	}
	got, err := e.h.extract(e.s.ID, "latest", "", false)
	if err != nil {
		e.fail(t, "extracting latest: %v", err)
	}
	if d := filesDiff(got, e.states[len(e.states)-1]); d != "" {
		e.fail(t, "latest extracts wrongly: %s", d)
	}
}

// contConform: the result conforms.
func contConform(t *rapid.T, e *contEvent) {
	if _, pr := checkRoot(e.after, false); len(pr) > 0 {
		e.fail(t, "not conformant:\n  %s", joinProblems(pr))
	}
	of := sub(e.after, e.o.Folder)
	if e.inv.head == e.first.head {
		return
	}
	if of[e.inv.head+"/inventory.json"] != of["inventory.json"] {
		e.fail(t, "the inventory of %s is not the root inventory", e.inv.head)
	}
	if e.inv.cdir() != e.first.cdir() {
		e.fail(t, "content directory is %q", e.inv.cdir())
	}
	for f := range of {
		if strings.HasPrefix(f, "inventory.json.") && f != "inventory.json."+e.inv.alg {
			e.fail(t, "stray sidecar %s", f)
		}
	}
	if errs := validate(e.h.fsys, e.h.f); len(errs) > 0 {
		e.fail(t, "gocfl's own validation reports %v", errs)
	}
}

// contUnaltered: nothing of the old versions changes, in the files or in the
// inventory.
func contUnaltered(t *rapid.T, e *contEvent) {
	if d := altered(e.before, e.after, e.o.Folder); d != "" {
		e.fail(t, "%s", d)
	}
	for n, v := range e.first.versions {
		w := e.inv.versions[n]
		if w == nil {
			e.fail(t, "version %s is gone", n)
		}
		if v.hasMessage != w.hasMessage || v.message != w.message || v.hasUser != w.hasUser || v.hasAddr != w.hasAddr || v.userName != w.userName || v.userAddr != w.userAddr {
			e.fail(t, "metadata of %s changed from %+v to %+v", n, v, w)
		}
		a, err1 := time.Parse(time.RFC3339, v.created)
		b, err2 := time.Parse(time.RFC3339, w.created)
		if err1 != nil || err2 != nil || !a.Equal(b) {
			e.fail(t, "creation time of %s changed from %s to %s", n, v.created, w.created)
		}
	}
}

// contDigests: manifest and fixity.
func contDigests(t *rapid.T, e *contEvent) {
	if e.inv.alg != e.o.Vers[len(e.o.Vers)-1].Alg {
		e.fail(t, "digest algorithm is %s", e.inv.alg)
	}
	of := sub(e.after, e.o.Folder)
	listed := map[string]string{}
	for d, ps := range e.inv.manifest {
		for _, p := range ps {
			if _, ok := listed[p]; ok {
				e.fail(t, "content file %q is listed twice", p)
			}
			listed[p] = d
		}
	}
	for f, c := range of {
		v, rest, _ := strings.Cut(f, "/")
		if vnum(v) < 1 || !strings.HasPrefix(rest, e.inv.cdir()+"/") || strings.HasSuffix(f, "/") {
			continue
		}
		if strings.ToLower(listed[f]) != digestOf(e.inv.alg, []byte(c)) {
			if listed[f] == "" && strings.HasSuffix(f, "/unused.bin") {
				continue // a 1.0 object may store what it does not list
			}
			e.fail(t, "content file %q is listed under %q", f, listed[f])
		}
		delete(listed, f)
	}
	if len(listed) > 0 {
		e.fail(t, "listed but not stored: %v", sortedKeys(listed))
	}
	// every fixity value of the old inventory is still there
	has := func(inv *oInv, alg, p, d string) bool {
		for e, ps := range inv.fixity[alg] {
			same := e == d
			if hashOf(alg) != nil {
				same = strings.EqualFold(e, d)
			}
			for _, q := range ps {
				if q == p && same {
					return true
				}
			}
		}
		return false
	}
	for alg, blk := range e.first.fixity {
		for d, ps := range blk {
			for _, p := range ps {
				if !has(e.inv, alg, p, d) {
					e.fail(t, "the %s fixity value %q of %s is gone", alg, d, p)
				}
			}
		}
	}
	for alg, blk := range e.inv.fixity {
		if hashOf(alg) == nil {
			continue
		}
		for d, ps := range blk {
			for _, p := range ps {
				if !strings.EqualFold(d, digestOf(alg, []byte(of[p]))) {
					e.fail(t, "fixity %s of %q is %s", alg, p, d)
				}
			}
		}
	}
}

// contStored: nothing is stored twice without need.
func contStored(t *rapid.T, e *contEvent) {
	if e.complaint != "" {
		e.fail(t, "%s", e.complaint)
	}
	if e.ver < 0 {
		class("foreign", "no-op sessions")
		if d := filesDiff(withoutFolders(e.after), withoutFolders(e.before)); d != "" {
			e.fail(t, "session without changes: %s", d)
		}
	}
	if d := storedTwice(&event{h: e.h, s: e.s, before: e.before, after: e.after}, e.inv.cdir()); d != "" {
		e.fail(t, "%s", d)
	}
}

// withoutFolders keeps the files of a snapshot; opening an object for an
// update creates the empty folders of its extensions.
func withoutFolders(files map[string]string) map[string]string {
	r := map[string]string{}
	for f, c := range files {
		if !strings.HasSuffix(f, "/") {
			r[f] = c
		}
	}
	return r
}
