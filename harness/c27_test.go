package zzverif

// C27: independent sessions and readers run at the same time.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"pgregory.net/rapid"
)

// races returns what the race detector has reported so far (check.py makes it
// write to a file).
func races() string {
	l, _ := filepath.Glob(filepath.Join(outDir, "race.*"))
	var all []byte
	for _, f := range l {
		b, _ := os.ReadFile(f)
		all = append(all, b...)
	}
	return string(all)
}

// job is what one of the concurrent workers does.
type job struct {
	ID       string
	Sessions []*session // none: it reads the object
	Rounds   int
	Ask      []string // it looks for these ids only
	world    int
	model    *model // state before
	states   []map[string]string
}

func (x *job) String() string {
	if x.Ask != nil {
		return fmt.Sprintf("storage root %d: look for %q %d times", x.world, x.Ask, x.Rounds)
	}
	if len(x.Sessions) == 0 {
		return fmt.Sprintf("storage root %d: read %q %d times", x.world, x.ID, x.Rounds)
	}
	var l []string
	for _, s := range x.Sessions {
		l = append(l, s.String())
	}
	return fmt.Sprintf("storage root %d: %s", x.world, strings.Join(l, "\n      "))
}

// ask looks for objects.
func (x *job) ask(h *hist) (string, error) {
	var b strings.Builder
	for i := 0; i < x.Rounds; i++ {
		for _, id := range x.Ask {
			ok, err := h.sr.ObjectExists(id)
			fmt.Fprintf(&b, "%q %v %v\n", id, ok, err != nil)
		}
	}
	return b.String(), nil
}

// read performs all reading operations on the object of a job.
func (x *job) read(h *hist) (string, error) {
	o, err := h.sr.LoadObjectByID(x.ID)
	if err != nil {
		return "", fmt.Errorf("LoadObjectByID: %w", err)
	}
	if o.GetID() != x.ID {
		return "", fmt.Errorf("LoadObjectByID(%q) yields %q", x.ID, o.GetID())
	}
	if err := h.sr.CheckObjectByID(x.ID); err != nil {
		return "", fmt.Errorf("CheckObjectByID: %w", err)
	}
	for v, want := range x.model.versions {
		got, err := h.extract(x.ID, vname(v+1), "", v%2 == 0)
		if err != nil {
			return "", fmt.Errorf("extracting %s: %w", vname(v+1), err)
		}
		if m := "manifest." + h.cfg.Digest; v%2 == 0 {
			if _, ok := want[m]; !ok {
				delete(got, m)
			}
		}
		if d := filesDiff(got, want); d != "" {
			return "", fmt.Errorf("%s extracts wrongly: %s", vname(v+1), d)
		}
	}
	var report bytes.Buffer
	if err := h.sr.Stat(&report, "", x.ID, []ocfl.StatInfo{ocfl.StatObjects, ocfl.StatObjectVersions, ocfl.StatObjectVersionState, ocfl.StatObjectManifest}); err != nil {
		return "", fmt.Errorf("Stat: %w", err)
	}
	m, err := h.sr.ExtractMeta("", x.ID)
	if err != nil {
		return "", fmt.Errorf("ExtractMeta: %w", err)
	}
	b, err := json.Marshal(m)
	return string(b), err
}

func TestC27(t *testing.T) {
	runCheck(t, "concurrency", 260, 8000, func(t *rapid.T) {
		cfg := genCfg(t)
		var all []string
		for _, l := range layouts() {
			if j(l.exts) == j(cfg.Layout) {
				all = l.ids
			}
		}
		cfg.IDs = all
		if rapid.IntRange(0, 5).Draw(t, "longIDs") == 0 {
			// folders which depend on a digest the storage root computes
			e := dclean(rapid.Bool().Draw(t, "utf"))
			e["maxPathSegmentLen"] = 20
			cfg.Layout = []extCfg{initialExt, rootManager, e}
			cfg.IDs = nil
			for _, c := range []string{"a", "b", "c", "d"} {
				cfg.IDs = append(cfg.IDs, strings.Repeat("long-"+c, 6))
			}
		}
		mode := rapid.SampledFrom([]string{"own handles", "own handles", "one handle", "two storage roots"}).Draw(t, "mode")
		roots := 1
		if mode == "two storage roots" {
			roots = 2
		}
		disk := rapid.IntRange(0, 2).Draw(t, "disk") == 0
		procs := rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "processors")
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
		// objects which exist before
		var hs []*hist
		var jobs []*job
		var log []string
		fail := func(format string, a ...any) {
			t.Helper()
			var l []string
			for _, x := range jobs {
				l = append(l, x.String())
			}
			t.Fatalf("%s\n  %s, config %s\n  before:\n    %s\n  at the same time:\n    %s", cut(fmt.Sprintf(format, a...), 6000), mode, cfg,
				strings.Join(log, "\n    "), strings.Join(l, "\n    "))
		}
		for i := 0; i < roots; i++ {
			h, err := newHist(cfg)
			if err != nil {
				fail("%v", err)
			}
			if i > 0 {
				h.f = hs[0].f
			}
			hs = append(hs, h)
			for _, id := range cfg.IDs {
				for n := rapid.IntRange(0, 2).Draw(t, "before"); n > 0; n-- {
					s := genSession(t, id, h.models[id].head())
					log = append(log, s.String())
					next, ver := h.expect(s)
					if err := h.run(s); err != nil {
						fail("session before: %v", err)
					}
					if _, complaint := h.settle(s, next, ver); complaint != "" {
						return // reported elsewhere
					}
				}
			}
		}
		// what happens at the same time
		writers, readers, askers := 0, 0, 0
		for i, h := range hs {
			for _, id := range cfg.IDs {
				x := &job{ID: id, world: i, model: &model{}, Rounds: 1}
				if m := h.models[id]; m != nil {
					x.model.versions = append(x.model.versions, m.versions...)
				}
				k := rapid.IntRange(0, 3).Draw(t, "job")
				switch {
				case k == 0:
					continue
				case k == 1 && h.models[id] != nil:
					readers++
					x.Rounds = rapid.IntRange(1, 3).Draw(t, "rounds")
				default:
					writers++
					cur := h.models[id].head()
					for n := rapid.IntRange(1, 3).Draw(t, "sessions"); n > 0; n-- {
						s := genSession(t, id, cur)
						s.Reload = s.Reload && mode != "one handle"
						if s.Chunk == 7 {
							s.Chunk = 1000 // the race detector is slow
						}
						cur = s.apply(cur)
						x.Sessions = append(x.Sessions, s)
						x.states = append(x.states, cur)
					}
				}
				jobs = append(jobs, x)
			}
			// ids for which the answer stays the same
			var ask []string
			busy := map[string]bool{}
			for _, x := range jobs {
				busy[x.ID] = busy[x.ID] || x.world == i && len(x.Sessions) > 0
			}
			for _, id := range cfg.IDs {
				if !busy[id] || h.models[id] != nil {
					ask = append(ask, id)
				}
				ask = append(ask, id+"-none", id+strings.Repeat("x", 60))
			}
			for n := rapid.IntRange(0, 2).Draw(t, "askers"); n > 0; n-- {
				askers++
				jobs = append(jobs, &job{world: i, Ask: ask, Rounds: rapid.IntRange(1, 10).Draw(t, "rounds")})
			}
		}
		// one after the other, on a copy
		perform := func(h *hist, x *job) (string, error) {
			if x.Ask != nil {
				return x.ask(h)
			}
			if len(x.Sessions) == 0 {
				var res string
				for i := 0; i < x.Rounds; i++ {
					r, err := x.read(h)
					if err != nil {
						return "", err
					}
					if i > 0 && r != res {
						return "", fmt.Errorf("metadata changed from\n%s\nto\n%s", res, r)
					}
					res = r
				}
				return res, nil
			}
			h.models = map[string]*model{x.ID: {versions: append([]map[string]string{}, x.model.versions...)}}
			for i, s := range x.Sessions {
				if err := h.run(s); err != nil {
					return "", fmt.Errorf("session %d: %w", i, err)
				}
				h.models[x.ID].versions = append(h.models[x.ID].versions, x.states[i])
			}
			return "", nil
		}
		var forks []*hist
		for _, h := range hs {
			f := h.fork()
			if err := f.reload(); err != nil {
				fail("%v", err)
			}
			forks = append(forks, f)
		}
		want := make([]string, len(jobs))
		for i, x := range jobs {
			h := *forks[x.world]
			r, err := perform(&h, x)
			if err != nil {
				fail("one after the other: %v", err)
			}
			want[i] = r
		}
		// at the same time
		before := races()
		got := make([]string, len(jobs))
		errs := make([]error, len(jobs))
		handles := make([]*hist, len(jobs))
		var stores []*folder
		if disk {
			// the file system of the operating system orders the operations less
			tmp, err := os.MkdirTemp("", "zzverif-c27-")
			if err != nil {
				infra("%v", err)
			}
			defer os.RemoveAll(tmp)
			for i, h := range hs {
				f := &folder{dir: filepath.Join(tmp, fmt.Sprint(i))}
				for p, c := range h.w.snapshot(rootDir) {
					q := filepath.Join(f.dir, p)
					if strings.HasSuffix(p, "/") {
						os.MkdirAll(q, 0o755)
						continue
					}
					os.MkdirAll(filepath.Dir(q), 0o755)
					if err := os.WriteFile(q, []byte(c), 0o644); err != nil {
						infra("%v", err)
					}
				}
				if h.fsys, err = f.open(); err != nil {
					infra("%v", err)
				}
				if err := h.reload(); err != nil {
					fail("%v", err)
				}
				stores = append(stores, f)
			}
		}
		for i, x := range jobs {
			c := *hs[x.world]
			handles[i] = &c
			if mode != "one handle" {
				c.sr = nil
			}
		}
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				p := noPanic(func() {
					h := handles[i]
					if h.sr == nil {
						if errs[i] = h.reload(); errs[i] != nil {
							return
						}
					}
					got[i], errs[i] = perform(h, jobs[i])
				})
				if p != "" {
					errs[i] = fmt.Errorf("panic: %s", p)
				}
			}(i)
		}
		if bounded(func() { close(start); wg.Wait() }) {
			fail("the jobs do not end")
		}
		for i, x := range jobs {
			if errs[i] != nil {
				fail("%s\nfails: %v", x, errs[i])
			}
			if got[i] != want[i] {
				fail("%s\nyields other metadata\n  %s\nthan one after the other\n  %s", x, got[i], want[i])
			}
		}
		for i, h := range hs {
			snap := h.w.snapshot(rootDir)
			if disk {
				var err error
				if snap, err = stores[i].files(); err != nil {
					infra("%v", err)
				}
			}
			a, b := flatten(snap), flatten(forks[i].w.snapshot(rootDir))
			if d := filesDiff(comparable(a), comparable(b)); d != "" {
				fail("storage root %d differs from one after the other: %s", i, d)
			}
			if len(h.w.escapes) > 0 {
				fail("writes outside of the storage root: %v", h.w.escapes)
			}
			if _, pr := checkRoot(snap, true); len(pr) > 0 {
				fail("storage root %d is not conformant:\n  %s", i, joinProblems(pr))
			}
		}
		if r := races(); len(r) > len(before) {
			var l []string
			for _, line := range strings.Split(r[len(before):], "\n") {
				if strings.Contains(line, "RACE") || strings.Contains(line, "by goroutine") || strings.Contains(line, "/gocfl/v2/") && !strings.Contains(line, "zzverif") {
					l = append(l, strings.TrimSpace(line))
				}
			}
			fail("%s", cut(strings.Join(l, "\n"), 5000))
		}
		d := map[string]any{"mode": mode, "config": cfg.String(), "jobs": fmt.Sprint(jobs)}
		count("concurrency", j(d)+strings.Join(log, "\n"), writers >= 1 && writers+readers+askers >= 2, d, mode, map[bool]string{true: "on disk", false: "in memory"}[disk], fmt.Sprintf("writers=%d", min(writers, 5)), fmt.Sprintf("readers=%d", min(readers, 5)), fmt.Sprintf("askers=%d", askers), fmt.Sprintf("processors=%d", procs))
	})
}
