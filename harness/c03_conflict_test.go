package zzverif

import (
	"fmt"
	"path"
	"strings"

	"pgregory.net/rapid"
)

// propPathConflicts lets a session name a path which is a folder of another
// path, or the other way round. Such a version must not be written, unless the
// session also takes the other path away.
func propPathConflicts(t *rapid.T) {
	const check = "conflicting paths"
	cfg := genCfg(t)
	h, err := newHist(cfg)
	if err != nil {
		t.Fatalf("creating the storage root (%s): %v", cfg, err)
	}
	if !h.grow(t, rapid.IntRange(1, 3).Draw(t, "sessions")) {
		return
	}
	var ids []string
	for _, id := range sortedKeys(h.models) {
		if len(h.models[id].head()) > 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return
	}
	id := rapid.SampledFrom(ids).Draw(t, "object")
	cur := h.models[id].head()
	p := rapid.SampledFrom(sortedKeys(cur)).Draw(t, "path")
	// the new path
	var q string
	kind := "below a file"
	if d := path.Dir(p); d != "." && rapid.Bool().Draw(t, "above") {
		kind = "folder of a file"
		for q = d; path.Dir(q) != "." && rapid.Bool().Draw(t, "up"); {
			q = path.Dir(q)
		}
	} else {
		q = p + "/" + rapid.SampledFrom([]string{"x", "a/b", "ü", " "}).Draw(t, "name")
	}
	s := &session{ID: id, Msg: "m", User: "Jane Doe", Addr: "mailto:jane@example.org", Reload: rapid.Bool().Draw(t, "reload"), Chunk: 1000}
	// the paths in the way
	resolved := true
	hit := map[string]bool{}
	for _, o := range sortedKeys(cur) {
		if !conflicts(o, q) {
			continue
		}
		hit[o] = true
		switch rapid.SampledFrom([]string{"", "delete", "delete", "delete", "rename"}).Draw(t, "way") {
		case "":
			resolved = false
		case "delete":
			s.Steps = append(s.Steps, step{Kind: "delete", Paths: []string{o}})
		case "rename":
			s.Steps = append(s.Steps, step{Kind: "rename", Paths: []string{o, fmt.Sprintf("elsewhere/%d", len(s.Steps))}})
		}
	}
	for _, o := range sortedKeys(cur) {
		if o == "elsewhere" || strings.HasPrefix(o, "elsewhere/") {
			return
		}
	}
	b := genBlob(t)
	if rapid.IntRange(0, 2).Draw(t, "sameContent") == 0 {
		b = blobOf(cur[rapid.SampledFrom(sortedKeys(cur)).Draw(t, "sameAs")])
	}
	dedup := rapid.Bool().Draw(t, "dedup")
	how := rapid.SampledFrom([]string{"folder", "data", "reader", "rename"}).Draw(t, "how")
	var others []string
	for _, o := range sortedKeys(cur) {
		if !hit[o] {
			others = append(others, o)
		}
	}
	if how == "rename" && len(others) == 0 {
		how = "data"
	}
	switch how {
	case "folder":
		s.Steps = append(s.Steps, step{Kind: "folder", Tree: map[string]blob{q: b}, Dedup: dedup})
	case "rename":
		s.Steps = append(s.Steps, step{Kind: "rename", Paths: []string{rapid.SampledFrom(others).Draw(t, "other"), q}})
	default:
		s.Steps = append(s.Steps, step{Kind: how, Paths: []string{q}, Blob: b, Dedup: dedup})
	}
	next, ver := h.expect(s)
	before := h.w.snapshot(rootDir)
	rerr := h.run(s)
	after := h.w.snapshot(rootDir)
	fail := func(format string, a ...any) {
		t.Fatalf("%s\n  new path: %q (%s)\n  config %s\n  history:\n  %s\n  session:\n  %s",
			fmt.Sprintf(format, a...), q, kind, cfg, strings.Join(h.log, "\n  "), s)
	}
	if resolved {
		if rerr != nil {
			fail("nothing is in the way, but the session fails: %v", rerr)
		}
	} else if rerr == nil {
		fail("the session succeeds")
	}
	if rerr == nil {
		if _, c := h.settle(s, next, ver); c != "" {
			fail("%s", c)
		}
	} else {
		folder := h.folders[id]
		for f, c := range before {
			if strings.HasPrefix(f, folder+"/extensions/") {
				continue
			}
			if after[f] != c {
				fail("after the error (%v), %s is changed", rerr, f)
			}
		}
	}
	// the object can be used further
	h.log = append(h.log, s.String())
	next2 := genSession(t, id, h.models[id].head())
	next2.Reload = true
	n, v := h.expect(next2)
	if err := h.run(next2); err != nil {
		fail("the next session fails: %v\n  %s", err, next2)
	}
	if created, c := h.settle(next2, n, v); c != "" {
		fail("the next session: %s\n  %s", c, next2)
	} else if created || rerr == nil {
		if _, pr := checkRoot(h.w.files(rootDir), true); len(pr) > 0 {
			fail("the storage root is invalid: %s", joinProblems(pr))
		}
	}
	got, err := h.extract(id, "latest", "", false)
	if err != nil {
		fail("extraction: %v", err)
	}
	if d := filesDiff(got, h.models[id].head()); d != "" {
		fail("extracted differently: %s", d)
	}
	count(check, fmt.Sprint(j(describe(cfg, []*session{s, next2})), h.log), true,
		map[string]any{"history": h.log, "new path": q, "refused": rerr != nil}, kind, how, fmt.Sprintf("nothing in the way=%v", resolved))
}
