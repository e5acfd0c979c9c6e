package zzverif

import (
	"fmt"
	"path"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// crashState judges the storage root as a crash or a failed session left it.
//
//	before, after: snapshots around the whole session
//	folder: the object's folder; isNew: the session creates the object;
//	again: the session to run then, if this one left no trace in the inventory
func crashState(e *event, w *world, folder string, isNew bool, again *session, cnt map[string]int) string {
	snap := w.snapshot(rootDir)
	rootInv := folder + "/inventory.json"
	for p, c := range e.before {
		if p == rootInv || strings.HasPrefix(p, rootInv+".") {
			continue
		}
		if strings.HasPrefix(p, folder+"/extensions/") {
			continue // judged by what the object still delivers
		}
		g, ok := snap[p]
		if !ok {
			return fmt.Sprintf("%s is lost", p)
		}
		if g != c {
			return fmt.Sprintf("%s is changed", p)
		}
	}
	raw, has := snap[rootInv]
	if !has {
		cnt["no root inventory"]++
		if !isNew {
			if _, ok := e.before[rootInv]; ok {
				return "the root inventory is removed"
			}
		}
		return ""
	}
	if v, err := jparse([]byte(raw)); err != nil || v == nil {
		cnt["torn root inventory"]++
		return ""
	}
	pr := &problems{}
	inv := parseInv([]byte(raw), pr, rootInv)
	if inv == nil || inv.head == "" {
		return "the root inventory names no version: " + joinProblems(pr.l)
	}
	files := sub(snap, folder)
	vi, ok := files[inv.head+"/inventory.json"]
	if !ok {
		return fmt.Sprintf("the root inventory names %s, which has no inventory", inv.head)
	}
	if vi != raw {
		return fmt.Sprintf("the inventory of %s differs from the root inventory", inv.head)
	}
	side := files[inv.head+"/inventory.json."+inv.alg]
	if d, _, _ := strings.Cut(side, " "); !strings.EqualFold(strings.TrimSpace(d), digestOf(inv.alg, []byte(vi))) {
		return fmt.Sprintf("the root inventory names %s, whose sidecar is %q", inv.head, side)
	}
	for d, ps := range inv.manifest {
		for _, p := range ps {
			c, ok := files[p]
			if !ok {
				return fmt.Sprintf("the root inventory names %s, but %s is not stored", inv.head, p)
			}
			if !strings.EqualFold(digestOf(inv.alg, []byte(c)), d) {
				return fmt.Sprintf("the root inventory names %s, but %s has other content", inv.head, p)
			}
		}
	}
	old := !isNew && raw == e.before[rootInv]
	complete := raw == e.after[rootInv] && files["inventory.json."+inv.alg] == sub(e.after, folder)["inventory.json."+inv.alg]
	if !old && !complete {
		cnt["root inventory ahead of its sidecar"]++
		return ""
	}
	// the object has to work
	m := e.h.models[e.s.ID]
	k := len(m.versions) - 1
	if old && raw != e.after[rootInv] && e.created {
		k--
	}
	if k < 0 {
		return "a version is shown which was never completed"
	}
	if old {
		cnt["old version in place"]++
	} else {
		cnt["new version in place"]++
	}
	x := &hist{cfg: e.h.cfg, w: w, f: e.h.f, models: map[string]*model{e.s.ID: {versions: m.versions[: k+1 : k+1]}}}
	x.fsys = w.mount(rootDir)
	if err := x.reload(); err != nil {
		return fmt.Sprintf("the storage root cannot be loaded: %v", err)
	}
	for _, q := range []struct {
		v    string
		want map[string]string
	}{{"latest", m.versions[k]}, {vname(1), m.versions[0]}} {
		got, err := x.extract(e.s.ID, q.v, "", false)
		if err != nil {
			return fmt.Sprintf("version %s of %d cannot be extracted: %v", q.v, k+1, err)
		}
		if d := filesDiff(got, q.want); d != "" {
			return fmt.Sprintf("version %s of %d is extracted differently: %s", q.v, k+1, d)
		}
	}
	if again != nil && old && raw != e.after[rootInv] {
		// the session can be repeated, or another one be run
		if again == e.s {
			if err := x.run(e.s); err != nil {
				return fmt.Sprintf("the session cannot be repeated: %v", err)
			}
			cnt["session repeated"]++
			if msg := repeated(e, w, folder); msg != "" {
				return "after the session was repeated, " + msg
			}
		} else if msg := continued(x, again, cnt); msg != "" {
			return "with another session afterwards, " + msg
		}
	}
	return ""
}

// continued runs a session on an object with the remains of another one.
func continued(x *hist, s *session, cnt map[string]int) string {
	next, ver := x.expect(s)
	if err := x.run(s); err != nil {
		return fmt.Sprintf("which fails: %v\n  %s", err, s)
	}
	cnt["another session run"]++
	x.folders = map[string]string{}
	if _, c := x.settle(s, next, ver); c != "" {
		return fmt.Sprintf("%s\n  %s", c, s)
	}
	if _, pr := checkRoot(x.w.snapshot(rootDir), true); len(pr) > 0 {
		return fmt.Sprintf("the storage root is invalid: %s\n  %s", joinProblems(pr), s)
	}
	got, err := x.extract(s.ID, "latest", "", false)
	if err != nil {
		return fmt.Sprintf("the object cannot be extracted: %v\n  %s", err, s)
	}
	if d := filesDiff(got, x.models[s.ID].head()); d != "" {
		return fmt.Sprintf("extraction differs: %s\n  %s", d, s)
	}
	return ""
}

// repeated compares the state after a crash and the same session again with
// that after the session alone.
func repeated(e *event, w *world, folder string) string {
	tree := w.snapshot(rootDir)
	if _, pr := checkRoot(tree, true); len(pr) > 0 {
		return "the storage root is invalid: " + joinProblems(pr)
	}
	inv, _, err := (&hist{cfg: e.h.cfg, w: w, f: e.h.f, folders: e.h.folders}).inventory(e.s.ID)
	if err != nil {
		return err.Error()
	}
	pr := &problems{}
	want := parseInv([]byte(e.after[folder+"/inventory.json"]), pr, folder)
	if inv.head != want.head {
		return fmt.Sprintf("head is %s, want %s", inv.head, want.head)
	}
	for v := range want.versions {
		if d := filesDiff(inv.logical(v), want.logical(v)); d != "" {
			return fmt.Sprintf("version %s differs: %s", v, d)
		}
	}
	return ""
}

// C10: crash at any point of a session.
func TestC10(t *testing.T) {
	runCheck(t, "crash points", 1000, 30000, histPropT("crash points", 4, true, func(t *rapid.T, e *event) {
		if e.complaint != "" || len(e.ops) == 0 {
			return
		}
		folder := e.h.folders[e.s.ID]
		_, existed := e.before[folder+"/inventory.json"]
		w := e.base.clone()
		cnt := map[string]int{}
		points := 0
		bad := func(at, msg string) {
			var l []string
			for _, o := range e.ops {
				l = append(l, fmt.Sprintf("%s %s (%d)", o.kind, strings.TrimPrefix(o.path, rootDir+"/"), len(o.data)))
			}
			e.fail(t, "crash %s: %s\n  operations:\n   %s", at, msg, strings.Join(l, "\n   "))
		}
		// all points from the first inventory on, and some while the content
		// is stored
		first := 0
		for first < len(e.ops) {
			p := strings.TrimPrefix(e.ops[first].path, rootDir+"/"+folder+"/")
			if strings.HasPrefix(path.Base(p), "inventory.json") && strings.Count(p, "/") <= 1 {
				break
			}
			first++
		}
		chosen := map[int]bool{}
		for k := 0; k < 5 && first > 0; k++ {
			chosen[rapid.IntRange(0, first-1).Draw(t, "point")] = true
		}
		// the points after which the session is repeated, or another is run
		again := map[int]*session{}
		if existed {
			cur := e.h.models[e.s.ID].versions
			if e.created {
				cur = cur[:len(cur)-1]
			}
			draw := func(from, to int) {
				if from >= to {
					return
				}
				i := rapid.IntRange(from, to-1).Draw(t, "again")
				again[i] = e.s
				if rapid.Bool().Draw(t, "another") {
					again[i] = genSession(t, e.s.ID, cur[len(cur)-1])
				}
			}
			draw(0, first)
			draw(first, len(e.ops))
		}
		for i, o := range e.ops {
			if o.kind == "close" {
				continue
			}
			if i < first && !chosen[i] && again[i] == nil {
				w.apply(o, -1)
				continue
			}
			if o.kind == "write" && len(o.data) > 1 {
				cut := rapid.IntRange(1, len(o.data)-1).Draw(t, "cut")
				for _, c := range []int{cut, len(o.data) - 1} {
					v := w.clone()
					v.apply(o, c)
					points++
					if msg := crashState(e, v, folder, !existed, nil, cnt); msg != "" {
						bad(fmt.Sprintf("after %d of %d bytes of operation %d (%s)", c, len(o.data), i, o.path), msg)
					}
				}
			}
			w.apply(o, -1)
			points++
			if msg := crashState(e, w.clone(), folder, !existed, again[i], cnt); msg != "" {
				bad(fmt.Sprintf("after operation %d (%s %s)", i, o.kind, o.path), msg)
			}
		}
		// the replay is faithful
		if d := diffSnap(w.snapshot(rootDir), e.after); d != "" {
			infra("replay of the operations differs from the session: %s", d)
		}
		class("crash points", fmt.Sprintf("session existing=%v", existed))
		for k, n := range cnt {
			for ; n > 0; n-- {
				class("crash points", "point: "+k)
			}
		}
		for ; points > 0; points-- {
			class("crash points", "points")
		}
	}, nil))
}
