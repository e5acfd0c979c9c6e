package zzverif

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func vname(n int) string { return fmt.Sprintf("v%d", n) }

// C01: every version can be extracted byte for byte.
func TestC01(t *testing.T) {
	runCheck(t, "history", 2400, 40000, histProp("history", 6,
		func(t *rapid.T, e *event) {
			if e.complaint != "" {
				return // reported by C02 and C08
			}
			// the head, through the handle that wrote it
			got, err := e.h.extract(e.s.ID, "latest", "", false)
			if err != nil {
				e.fail(t, "extracting latest of %q: %v", e.s.ID, err)
			}
			if d := filesDiff(got, e.h.models[e.s.ID].head()); d != "" {
				e.fail(t, "latest version of %q extracts wrongly: %s", e.s.ID, d)
			}
		},
		func(t *rapid.T, h *hist) {
			if err := h.reload(); err != nil {
				t.Fatalf("reload: %v", err)
			}
			for id, m := range h.models {
				for i, want := range m.versions {
					names := []string{vname(i + 1)}
					if i == len(m.versions)-1 {
						names = append(names, "latest", "")
					}
					for _, v := range names {
						withManifest := rapid.Bool().Draw(t, "manifest")
						got, err := h.extract(id, v, "", withManifest)
						if err != nil {
							t.Fatalf("extracting %q %s: %v\n  config %s\n  history:\n  %s", id, v, err, h.cfg, strings.Join(h.log, "\n  "))
						}
						if withManifest {
							n := "manifest." + h.cfg.Digest
							if _, ok := got[n]; !ok {
								t.Fatalf("no %s", n)
							}
							if _, ok := want[n]; !ok {
								delete(got, n)
							}
						}
						if d := filesDiff(got, want); d != "" {
							t.Fatalf("%q %s extracts wrongly: %s\n  config %s\n  history:\n  %s", id, v, d, h.cfg, strings.Join(h.log, "\n  "))
						}
					}
					if i == 1 {
						class("history", "two or more versions extracted")
					}
				}
				if _, err := h.extract(id, vname(len(m.versions)+1), "", false); err == nil {
					t.Fatalf("extracting a version that does not exist succeeds")
				}
			}
		}))
	runCheck(t, "foreign", 600, 20000, contProp("foreign", contExtract))
}

// C02: the state of each version follows the update rules.
func TestC02(t *testing.T) {
	runCheck(t, "history", 3000, 60000, histProp("history", 7,
		func(t *rapid.T, e *event) {
			if e.complaint != "" {
				if e.ver > 0 {
					e.fail(t, "%s", e.complaint)
				}
				return // a needless version: C08
			}
			inv, _, err := e.h.inventory(e.s.ID)
			if err != nil {
				e.fail(t, "%v", err)
			}
			m := e.h.models[e.s.ID]
			for i, want := range m.versions {
				if d := stateDiff(inv, vname(i+1), want, e.h.cfg.Digest); d != "" {
					e.fail(t, "state of version v%d of %q: %s", i+1, e.s.ID, d)
				}
			}
		}, nil))
	runCheck(t, "foreign", 600, 20000, contProp("foreign", contStates))
}

// C03: everything written conforms to the specification.
func TestC03(t *testing.T) {
	runCheck(t, "conflicting paths", 800, 20000, propPathConflicts)
	runCheck(t, "history", 2400, 40000, histProp("history", 6,
		func(t *rapid.T, e *event) {
			if _, pr := checkRoot(e.after, true); len(pr) > 0 {
				e.fail(t, "not conformant:\n  %s", joinProblems(pr))
			}
		}, nil))
	runCheck(t, "foreign", 600, 20000, contProp("foreign", contConform))
}

// C07: completed versions are never altered.
func TestC07(t *testing.T) {
	runCheck(t, "history", 2400, 40000, histProp("history", 7,
		func(t *rapid.T, e *event) {
			if d := altered(e.before, e.after, e.h.folders[e.s.ID]); d != "" {
				e.fail(t, "%s", d)
			}
		}, nil))
	runCheck(t, "foreign", 600, 20000, contProp("foreign", contUnaltered))
}

// altered compares snapshots around a session on the object in folder: only
// the root inventory, its sidecar, the object's extensions and one new version
// folder may change.
func altered(before, after map[string]string, folder string) string {
	oldHead := 0
	for f := range before {
		if strings.HasPrefix(f, folder+"/v") {
			v, _, _ := strings.Cut(strings.TrimPrefix(f, folder+"/"), "/")
			if n := vnum(v); n > oldHead {
				oldHead = n
			}
		}
	}
	free := func(f string) bool {
		if !strings.HasPrefix(f, folder+"/") {
			return false
		}
		r := strings.TrimPrefix(f, folder+"/")
		top, _, _ := strings.Cut(r, "/")
		return r == "inventory.json" || strings.HasPrefix(r, "inventory.json.") || top == "extensions" || vnum(top) > oldHead
	}
	_, existed := before[folder+"/inventory.json"]
	for f, c := range before {
		if free(f) {
			continue
		}
		a, ok := after[f]
		if !ok {
			return fmt.Sprintf("%q was removed", f)
		}
		if a != c {
			return fmt.Sprintf("%q was changed from %s to %s", f, short([]byte(c)), short([]byte(a)))
		}
	}
	for f := range after {
		if _, ok := before[f]; ok || free(f) {
			continue
		}
		if !existed && (strings.HasPrefix(f, folder+"/") || strings.HasPrefix(folder+"/", f)) {
			continue
		}
		return fmt.Sprintf("%q was added", f)
	}
	return ""
}

// C08: deduplication.
func TestC08(t *testing.T) {
	runCheck(t, "history", 3000, 60000, histProp("history", 6,
		func(t *rapid.T, e *event) {
			if e.complaint != "" {
				e.fail(t, "%s", e.complaint)
			}
			if e.ver < 0 {
				class("history", "no-op sessions")
				for f, c := range e.after {
					b, ok := e.before[f]
					if !ok {
						e.fail(t, "session without changes added %q", f)
					}
					if b != c {
						e.fail(t, "session without changes altered %q", f)
					}
				}
				for f := range e.before {
					if _, ok := e.after[f]; !ok {
						e.fail(t, "session without changes removed %q", f)
					}
				}
			}
			if d := storedTwice(e, "content"); d != "" {
				e.fail(t, "%s", d)
			}
		}, nil))
	runCheck(t, "foreign", 600, 20000, contProp("foreign", contStored))
}

// storedTwice looks at the content files a session stored. Every file that was
// stored must be one a step without deduplication added, or a content which
// was new when its step ran.
func storedTwice(e *event, cdir string) string {
	folder := e.h.folders[e.s.ID] + "/"
	have := map[string]bool{} // contents already in the object
	for f, c := range e.before {
		if strings.HasPrefix(f, folder) && isContentIn(strings.TrimPrefix(f, folder), cdir) {
			have[c] = true
		}
	}
	// contents which may be stored, and how often
	max := map[string]int{}
	for _, st := range e.s.Steps {
		switch st.Kind {
		case "folder":
			for _, b := range st.Tree {
				c := b.bytes()
				if !st.Dedup {
					max[c]++
				} else if !have[c] {
					max[c]++
				}
				have[c] = true
			}
		case "data", "reader":
			c := st.Blob.bytes()
			if st.Kind == "reader" || !st.Dedup || !have[c] {
				max[c]++
			}
			have[c] = true
		}
	}
	got := map[string]int{}
	for f, c := range e.after {
		if _, ok := e.before[f]; !ok && strings.HasPrefix(f, folder) && isContentIn(strings.TrimPrefix(f, folder), cdir) {
			got[c]++
		}
	}
	for c, n := range got {
		if n > max[c] {
			return fmt.Sprintf("content %s was stored %d time(s), at most %d needed", short([]byte(c)), n, max[c])
		}
	}
	return ""
}

func isContent(f string) bool { return isContentIn(f, "content") }

func isContentIn(f, cdir string) bool {
	p := strings.SplitN(f, "/", 3)
	return len(p) == 3 && vnum(p[0]) > 0 && p[1] == cdir && !strings.HasSuffix(f, "/")
}

// C09: manifest and fixity digests.
func TestC09(t *testing.T) {
	runCheck(t, "history", 2400, 40000, histProp("history", 5,
		func(t *rapid.T, e *event) {
			folder := e.h.folders[e.s.ID]
			of := sub(e.after, folder)
			inv, _, err := e.h.inventory(e.s.ID)
			if err != nil {
				e.fail(t, "%v", err)
			}
			if inv.alg != e.h.cfg.Digest {
				e.fail(t, "digest algorithm is %s", inv.alg)
			}
			listed := map[string]string{}
			for d, ps := range inv.manifest {
				for _, p := range ps {
					if _, ok := listed[p]; ok {
						e.fail(t, "content file %q is listed twice", p)
					}
					listed[p] = d
				}
			}
			for f, c := range of {
				if !isContent(f) {
					continue
				}
				if listed[f] != digestOf(inv.alg, []byte(c)) {
					e.fail(t, "content file %q is listed under %q", f, listed[f])
				}
				for _, alg := range e.h.cfg.Fixity {
					if alg == inv.alg {
						continue
					}
					n := 0
					for d, ps := range inv.fixity[alg] {
						for _, p := range ps {
							if p == f {
								n++
								if d != digestOf(alg, []byte(c)) {
									e.fail(t, "fixity %s of %q is %s", alg, f, d)
								}
							}
						}
					}
					if n != 1 {
						e.fail(t, "%q is listed %d times under fixity %s", f, n, alg)
					}
				}
				delete(listed, f)
			}
			if len(listed) > 0 {
				e.fail(t, "listed but not stored: %v", sortedKeys(listed))
			}
			for alg := range inv.fixity {
				ok := false
				for _, a := range e.h.cfg.Fixity {
					ok = ok || a == alg
				}
				if !ok {
					e.fail(t, "fixity block for %s was not asked for", alg)
				}
			}
			if e.n > 0 && len(e.h.cfg.Fixity) > 0 && e.created {
				class("history", "fixity after an update")
			}
		}, nil))
	runCheck(t, "foreign", 600, 20000, contProp("foreign", contDigests))
}
