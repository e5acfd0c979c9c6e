package zzverif

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"

	"pgregory.net/rapid"
)

// faults fails chosen operations and counts all of them.
type faults struct {
	mu      sync.Mutex
	counts  map[string]int // "world kind" -> number of operations
	on      string         // what fails ("" = only count)
	at      int            // the how manieth
	forever bool           // and all later ones
	part    int            // bytes still written (-1: all)
	err     error
	fired   []string
}

func (f *faults) hook(world string) func(kind, p string, size int) (int, error) {
	return func(kind, p string, size int) (int, error) {
		f.mu.Lock()
		defer f.mu.Unlock()
		k := world + " " + kind
		n := f.counts[k]
		f.counts[k]++
		if k != f.on || n != f.at && !(f.forever && n > f.at) {
			return size, nil
		}
		f.fired = append(f.fired, fmt.Sprintf("%s #%d of %s", k, n, p))
		if f.part < 0 || f.part > size {
			return size, f.err
		}
		return f.part, f.err
	}
}

func (f *faults) String() string {
	w := ""
	if f.forever {
		w = " and all later ones"
	}
	return fmt.Sprintf("%s number %d%s fails (%v), part %d, fired %v", f.on, f.at, w, f.err, f.part, f.fired)
}

// genFaults chooses a fault among the operations of a run without one.
func genFaults(t *rapid.T, counts map[string]int) *faults {
	var kinds []string
	for k, n := range counts {
		if n > 0 {
			kinds = append(kinds, k)
		}
	}
	sort.Strings(kinds)
	f := &faults{counts: map[string]int{}}
	f.on = rapid.SampledFrom(kinds).Draw(t, "operation")
	f.at = rapid.IntRange(0, counts[f.on]-1).Draw(t, "at")
	if rapid.Bool().Draw(t, "late") {
		f.at = counts[f.on] - 1 - f.at%4
		if f.at < 0 {
			f.at = 0
		}
	}
	f.forever = rapid.Bool().Draw(t, "forever")
	f.part = rapid.SampledFrom([]int{0, 0, 1, 100, -1}).Draw(t, "part")
	f.err = rapid.SampledFrom([]error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}).Draw(t, "error")
	return f
}

// mustReport says whether a fired fault has to lead to an error whatever the
// result looks like.
func mustReport(on string) bool {
	switch on {
	case "root create", "root write", "root close", "target create", "target write", "target close",
		"src open", "src read", "src readdir", "src seek", "src stat":
		return true
	}
	return false
}

// fork is the history on a copy of its world.
func (h *hist) fork() *hist {
	x := &hist{cfg: h.cfg, w: h.w.clone(), f: h.f, models: map[string]*model{}, folders: map[string]string{}}
	for id, m := range h.models {
		x.models[id] = &model{versions: append([]map[string]string{}, m.versions...)}
	}
	for id, f := range h.folders {
		x.folders[id] = f
	}
	x.fsys = x.w.mount(rootDir)
	return x
}

// grow runs sessions without faults.
func (h *hist) grow(t *rapid.T, n int) bool {
	for i := 0; i < n; i++ {
		s := genSession(t, rapid.SampledFrom(h.cfg.IDs).Draw(t, "object"), nil)
		if m := h.models[s.ID]; m != nil {
			s = genSession(t, s.ID, m.head())
		}
		h.log = append(h.log, s.String())
		next, ver := h.expect(s)
		if err := h.run(s); err != nil {
			t.Fatalf("session %d without faults failed: %v\n  config %s\n  history:\n  %s", i, err, h.cfg, strings.Join(h.log, "\n  "))
		}
		if _, complaint := h.settle(s, next, ver); complaint != "" {
			return false
		}
	}
	return true
}

func propUpdateFaults(t *rapid.T) {
	const check = "faults of a session"
	cfg := genCfg(t)
	h, err := newHist(cfg)
	if err != nil {
		t.Fatalf("creating the storage root (%s): %v", cfg, err)
	}
	if !h.grow(t, rapid.IntRange(0, 2).Draw(t, "sessions")) {
		return
	}
	id := rapid.SampledFrom(cfg.IDs).Draw(t, "object")
	s := genSession(t, id, h.models[id].head())
	s.Reload = true
	next, ver := h.expect(s)

	// without faults
	dry := h.fork()
	cnt := &faults{counts: map[string]int{}}
	dry.w.hook = cnt.hook("root")
	s.srcHook = cnt.hook("src")
	if err := dry.run(s); err != nil {
		t.Fatalf("session without faults failed: %v\n  config %s\n  history:\n  %s\n  %s", err, cfg, strings.Join(h.log, "\n  "), s)
	}
	dry.w.hook = nil
	created, complaint := dry.settle(s, next, ver)
	if complaint != "" {
		return
	}
	folder := dry.folders[id]
	complete := dry.w.snapshot(rootDir)

	for k := 0; k < 4; k++ {
		f := genFaults(t, cnt.counts)
		x := h.fork()
		before := x.w.snapshot(rootDir)
		x.w.hook = f.hook("root")
		s.srcHook = f.hook("src")
		hung := false
		var rerr error
		pan := noPanic(func() { hung = bounded(func() { rerr = x.run(s) }) })
		x.w.mu.Lock()
		x.w.hook = nil
		x.w.mu.Unlock()
		fail := func(format string, a ...any) {
			t.Fatalf("%s\n  fault: %s\n  config %s\n  history:\n  %s\n  session with the fault:\n  %s",
				fmt.Sprintf(format, a...), f, cfg, strings.Join(h.log, "\n  "), s)
		}
		switch {
		case pan != "":
			fail("panic: %s", pan)
		case hung:
			fail("the session does not end")
		case rerr == nil && len(f.fired) > 0 && mustReport(f.on):
			fail("no call of the session returned an error")
		case rerr == nil:
			if _, c := x.settle(s, next, ver); c != "" {
				fail("no call of the session returned an error, but %s", c)
			}
			if _, probs := checkRoot(x.w.files(rootDir), true); len(probs) > 0 {
				fail("no call of the session returned an error, but the storage root is invalid:\n   %s", joinProblems(probs))
			}
			if m := x.models[id]; m != nil && len(m.versions) > 0 {
				if err := x.reload(); err != nil {
					fail("no call of the session returned an error, but the storage root cannot be loaded: %v", err)
				}
				got, err := x.extract(id, "latest", "", false)
				if err != nil {
					fail("no call of the session returned an error, but the object cannot be extracted: %v", err)
				}
				if d := filesDiff(got, m.head()); d != "" {
					fail("no call of the session returned an error, but the content is not as expected: %s", d)
				}
			}
		default:
			// nothing that was there may be damaged, and nothing is claimed
			// that is not there
			after := x.w.snapshot(rootDir)
			inv := folder + "/inventory.json"
			e := &event{h: x, s: s, before: before, after: after}
			if raw, ok := after[inv]; ok {
				pr := &problems{}
				if v := parseInv([]byte(raw), pr, inv); v != nil {
					if raw != before[inv] {
						x.models[id] = &model{versions: append(append([]map[string]string{}, h.models[id].all()...), next)}
						e.created = true
					}
					side := after[inv+"."+v.alg]
					if d, _, _ := strings.Cut(side, " "); !strings.EqualFold(strings.TrimSpace(d), digestOf(v.alg, []byte(raw))) {
						delete(after, inv) // the sidecar is not there yet
					}
				}
			}
			_, existed := before[inv]
			states := map[string]int{}
			if msg := crashState(e, x.w, folder, !existed, nil, states); msg != "" {
				fail("after the error (%.300v): %s", rerr, msg)
			}
			if after[inv] == before[inv] && existed && complete[inv] != before[inv] {
				// without the fault, the session can be repeated, or another
				// be run
				s.srcHook = nil
				y := h.fork()
				y.w, y.fsys = x.w, x.w.mount(rootDir)
				if rapid.Bool().Draw(t, "another") {
					o := genSession(t, id, h.models[id].head())
					o.Reload = true
					if msg := continued(y, o, states); msg != "" {
						fail("after the error (%.300v), with another session, %s", rerr, msg)
					}
				} else {
					if err := y.run(s); err != nil {
						fail("after the error (%.300v), the session cannot be repeated: %v", rerr, err)
					}
					if msg := repeated(&event{h: dry, s: s, after: complete}, x.w, folder); msg != "" {
						fail("after the error (%.300v) and the same session again, %s", rerr, msg)
					}
					states["session repeated"]++
				}
			}
			for c := range states {
				class(check, "after the error: "+c)
			}
		}
		res := "reported"
		if rerr == nil {
			res = "no effect"
		}
		count(check, fmt.Sprint(j(describe(cfg, []*session{s})), h.log, f.on, f.at, f.forever, f.part), len(f.fired) > 0,
			map[string]any{"history": h.log, "session": s.String(), "fault": f.String(), "result": res},
			f.on+": "+res, fmt.Sprintf("version created=%v", created))
	}
}

func (m *model) all() []map[string]string {
	if m == nil {
		return nil
	}
	return m.versions
}

func propRootFaults(t *rapid.T) {
	const check = "faults creating a root"
	cfg := genCfg(t)
	create := func(f *faults) (*hist, error, string, bool) {
		h := &hist{cfg: cfg, w: newWorld(), models: map[string]*model{}, folders: map[string]string{}, f: newFactory(factoryOpts{})}
		h.fsys = h.w.mount(rootDir)
		h.w.hook = f.hook("root")
		var err error
		var hung bool
		pan := noPanic(func() { hung = bounded(func() { err = h.createRoot() }) })
		h.w.mu.Lock()
		h.w.hook = nil
		h.w.mu.Unlock()
		return h, err, pan, hung
	}
	cnt := &faults{counts: map[string]int{}}
	if _, err, pan, _ := create(cnt); err != nil || pan != "" {
		t.Fatalf("creating the storage root (%s): %v %s", cfg, err, pan)
	}
	f := genFaults(t, cnt.counts)
	h, err, pan, hung := create(f)
	fail := func(format string, a ...any) {
		t.Fatalf("%s\n  fault: %s\n  config %s", fmt.Sprintf(format, a...), f, cfg)
	}
	switch {
	case pan != "":
		fail("panic: %s", pan)
	case hung:
		fail("creating the storage root does not end")
	case err == nil && len(f.fired) > 0 && mustReport(f.on):
		fail("creating the storage root returned no error")
	case err == nil:
		if _, probs := checkRoot(h.w.files(rootDir), true); len(probs) > 0 {
			fail("creating the storage root returned no error, but it is invalid:\n   %s", joinProblems(probs))
		}
		if err := h.reload(); err != nil {
			fail("creating the storage root returned no error, but it cannot be loaded: %v", err)
		}
	}
	count(check, fmt.Sprint(cfg, f.on, f.at, f.forever, f.part), len(f.fired) > 0, map[string]any{"config": cfg.String(), "fault": f.String()}, fmt.Sprintf("%s: error=%v", f.on, err != nil))
}

func propReadFaults(t *rapid.T) {
	const check = "faults of extraction and validation"
	cfg := genCfg(t)
	h, err := newHist(cfg)
	if err != nil {
		t.Fatalf("creating the storage root (%s): %v", cfg, err)
	}
	if !h.grow(t, rapid.IntRange(1, 3).Draw(t, "sessions")) {
		return
	}
	ids := sortedKeys(h.models)
	id := rapid.SampledFrom(ids).Draw(t, "object")
	m := h.models[id]
	k := rapid.IntRange(1, len(m.versions)).Draw(t, "version")
	v := vname(k)
	op := rapid.SampledFrom([]string{"extract", "extract", "metadata", "check"}).Draw(t, "do")
	manifest := rapid.Bool().Draw(t, "manifest")

	var files map[string]string
	var meta string
	run := func(f *faults) (err error, probs []string, pan string, hung bool) {
		x := h.fork()
		w := newWorld()
		dst := w.mount("/target")
		x.w.hook = f.hook("root")
		w.hook = f.hook("target")
		pan = noPanic(func() {
			hung = bounded(func() {
				if err = x.reload(); err != nil {
					probs = vErrors(x.ctx)
					return
				}
				switch op {
				case "extract":
					err = x.sr.Extract(dst, "", id, v, manifest, "")
				case "metadata":
					var md any
					md, err = x.sr.ExtractMeta("", id)
					meta = j(md)
				case "check":
					err = x.sr.Check()
					probs = vErrors(x.ctx)
				}
			})
		})
		x.w.mu.Lock()
		x.w.hook = nil
		x.w.mu.Unlock()
		files = w.files("/target")
		for p, b := range files {
			if strings.HasPrefix(p, "manifest.") {
				lines := strings.Split(b, "\n") // their order is not specified
				sort.Strings(lines)
				files[p] = strings.Join(lines, "\n")
			}
		}
		return
	}
	cnt := &faults{counts: map[string]int{}}
	err, probs, pan, _ := run(cnt)
	if err != nil || pan != "" || len(probs) > 0 {
		t.Fatalf("%s without faults: %v %v %s\n  config %s\n  history:\n  %s", op, err, probs, pan, cfg, strings.Join(h.log, "\n  "))
	}
	wantFiles, wantMeta := files, meta
	for n := 0; n < 4; n++ {
		f := genFaults(t, cnt.counts)
		err, probs, pan, hung := run(f)
		fail := func(format string, a ...any) {
			t.Fatalf("%s of %s %s: %s\n  fault: %s\n  config %s\n  history:\n  %s", op, id, v,
				fmt.Sprintf(format, a...), f, cfg, strings.Join(h.log, "\n  "))
		}
		switch {
		case pan != "":
			fail("panic: %s", pan)
		case hung:
			fail("does not end")
		case err != nil:
		case len(f.fired) > 0 && mustReport(f.on):
			fail("no error")
		case op == "extract":
			if d := filesDiff(files, wantFiles); d != "" {
				fail("no error, but %s", d)
			}
		case op == "metadata":
			if meta != wantMeta {
				fail("no error, but %s instead of %s", meta, wantMeta)
			}
		case op == "check" && len(probs) == 0 && len(f.fired) > 0 && (f.on == "root read" || f.on == "root open"):
			fail("valid although a file could not be read")
		}
		count(check, fmt.Sprint(cfg, h.log, op, v, f.on, f.at, f.forever, f.part), len(f.fired) > 0,
			map[string]any{"history": h.log, "operation": op + " " + id + " " + v, "fault": f.String(), "error": fmt.Sprintf("%.200v", err)},
			fmt.Sprintf("%s %s: reported=%v", op, f.on, err != nil || len(probs) > 0))
	}
}

// C11: failing storage.
func TestC11(t *testing.T) {
	runCheck(t, "faults of a session", 3000, 90000, propUpdateFaults)
	runCheck(t, "faults creating a root", 300, 3000, propRootFaults)
	runCheck(t, "faults of extraction and validation", 1500, 40000, propReadFaults)
}
