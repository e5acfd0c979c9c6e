package zzverif

// Core of the harness: tiers, seeds, evidence collection and the wrapper
// around rapid that all checks use.

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	tier    = envOr("VERIF_TIER", "quick")
	shard   = envInt("VERIF_SHARD", 0)
	nshards = envInt("VERIF_SHARDS", 1)
	outDir  = os.Getenv("VERIF_OUT")
	scale   = envFloat("VERIF_SCALE", 1)
	budget  = envFloat("VERIF_BUDGET", 0)
	started = time.Now()
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}
func envFloat(k string, d float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(k), 64); err == nil {
		return v
	}
	return d
}

// collector gathers what a run covered; one per process, written at exit.
type collector struct {
	mu       sync.Mutex
	Evals    int                 `json:"evaluations"`
	NT       map[uint64]struct{} `json:"-"`
	Hashes   []uint64            `json:"hashes"`
	Samples  []any               `json:"samples"`
	Classes  map[string]int      `json:"classes"`
	Known    []string            `json:"known"`
	perCheck map[string]int
}

var col = &collector{NT: map[uint64]struct{}{}, Classes: map[string]int{}, perCheck: map[string]int{}}

// count registers one generated case. key identifies the case (distinctness),
// nontrivial says whether it meets the stated rule.
func count(check, key string, nontrivial bool, sample any, classes ...string) {
	col.mu.Lock()
	defer col.mu.Unlock()
	col.Evals++
	col.Classes[check+":cases"]++
	for _, c := range classes {
		if c != "" {
			col.Classes[check+":"+c]++
		}
	}
	if !nontrivial {
		return
	}
	col.Classes[check+":nontrivial"]++
	h := fnv.New64a()
	h.Write([]byte(check))
	h.Write([]byte{0})
	h.Write([]byte(key))
	v := h.Sum64()
	if _, ok := col.NT[v]; ok {
		return
	}
	col.NT[v] = struct{}{}
	n := col.perCheck[check]
	col.perCheck[check]++
	if sample != nil && (n < 2 || n == 7) && len(col.Samples) < 40 {
		col.Samples = append(col.Samples, map[string]any{"check": check, "case": sample})
	}
}

func class(check, c string) {
	col.mu.Lock()
	col.Classes[check+":"+c]++
	col.mu.Unlock()
}

func knownFinding(s string) {
	col.mu.Lock()
	defer col.mu.Unlock()
	for _, k := range col.Known {
		if k == s {
			return
		}
	}
	col.Known = append(col.Known, s)
}

func writeEvidence() {
	if outDir == "" {
		return
	}
	col.mu.Lock()
	defer col.mu.Unlock()
	for h := range col.NT {
		col.Hashes = append(col.Hashes, h)
	}
	sort.Slice(col.Hashes, func(i, j int) bool { return col.Hashes[i] < col.Hashes[j] })
	b, err := json.Marshal(col)
	if err != nil {
		// samples may hold something unmarshalable; never lose the run for it
		col.Samples = []any{fmt.Sprintf("unmarshalable: %v", err)}
		b, _ = json.Marshal(col)
	}
	_ = os.WriteFile(filepath.Join(outDir, fmt.Sprintf("part-%d.json", shard)), b, 0644)
}

func TestMain(m *testing.M) {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2500 << 20)
	if s := os.Getenv("VERIF_RAPID_SEED"); s != "" {
		_ = flag.Set("rapid.seed", s)
	}
	_ = flag.Set("rapid.shrinktime", envOr("VERIF_SHRINK", "20s"))
	rc := m.Run()
	writeEvidence()
	os.Exit(rc)
}

// runCheck runs prop as the sub-check name, with a tier dependent number of
// generated cases divided over the shards.
func runCheck(t *testing.T, name string, quick, thorough int, prop func(*rapid.T)) {
	t.Helper()
	t.Run(name, func(t *testing.T) {
		n := quick
		if tier == "thorough" {
			n = thorough
		}
		n = int(float64(n)*scale)/nshards + 1
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
		rapid.Check(t, func(rt *rapid.T) {
			if overBudget() {
				class(name, "skipped-time-budget")
				return
			}
			prop(rt)
		})
	})
}

// overBudget says that the run has used up its wall time: remaining cases are
// skipped (and counted as such) so that the check still gives an answer.
func overBudget() bool {
	return budget > 0 && time.Since(started) > time.Duration(budget*float64(time.Second))
}

// once runs a deterministic sub-check in shard 0 only.
func once(t *testing.T, name string, f func(t *testing.T)) {
	t.Helper()
	if shard != 0 {
		return
	}
	t.Run(name, f)
}

// infra aborts the process with an error that is not a violation.
func infra(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "INFRA: "+format+"\n", a...)
	writeEvidence()
	os.Exit(3)
}

// bounded runs f in its own goroutine; a panic is passed on, and a call that
// has not returned after 20 s (the calls take milliseconds) is reported
// through the returned flag.
func bounded(f func()) (hung bool) {
	done := make(chan any, 1)
	go func() {
		var p any = "none"
		defer func() {
			if r := recover(); r != nil {
				p = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			} else {
				p = nil
			}
			done <- p
		}()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
		return false
	case <-time.After(20 * time.Second):
		return true
	}
}

type fataler interface {
	Fatalf(format string, args ...any)
	Helper()
}

// noPanic runs f and reports a panic as an error text ("" if none).
func noPanic(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			// keep only the frames of the code under test
			var keep []string
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, "/repo/pkg/") || strings.Contains(l, "je4") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 8 {
				keep = keep[:8]
			}
			msg = fmt.Sprintf("%v\n  %s", r, strings.Join(keep, "\n  "))
		}
	}()
	f()
	return ""
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func j(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}
