package zzverif

import (
	"fmt"
	"path"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// fault is one byte-level fault applied to a storage root.
type fault struct {
	Kind, File, To string
	At             int
	Data           string
}

func (f fault) String() string {
	return fmt.Sprintf("%s %q %q at %d %q", f.Kind, f.File, f.To, f.At, f.Data)
}

// genFault draws a fault; ok is false when it would not change anything.
func genFault(t *rapid.T, files map[string]string) (f fault, res map[string]string, ok bool) {
	res = map[string]string{}
	for k, v := range files {
		res[k] = v
	}
	// choose a class of files first, so that few large classes do not win
	cls := map[string][]string{}
	for _, p := range sortedKeys(files) {
		if strings.HasSuffix(p, "/") {
			continue
		}
		b := path.Base(p)
		c := "content"
		switch {
		case !strings.Contains(p, "/"):
			if !strings.HasPrefix(p, "0=") {
				continue // the property is about objects and declarations
			}
			c = "root declaration"
		case strings.HasPrefix(b, "0="):
			c = "declaration"
		case b == "inventory.json":
			c = "inventory"
		case strings.HasPrefix(b, "inventory.json."):
			c = "sidecar"
		}
		cls[c] = append(cls[c], p)
		if c == "content" {
			cls["content2"] = cls[c]
		}
	}
	c := rapid.SampledFrom(sortedKeys(cls)).Draw(t, "class")
	f.File = rapid.SampledFrom(cls[c]).Draw(t, "file")
	old := files[f.File]
	f.Kind = rapid.SampledFrom([]string{"flip", "flip", "truncate", "extend", "insert", "replace", "swap", "remove", "rename", "add", "empty"}).Draw(t, "fault")
	switch f.Kind {
	case "flip":
		if len(old) == 0 {
			return f, nil, false
		}
		f.At = rapid.IntRange(0, len(old)-1).Draw(t, "at")
		x := byte(rapid.IntRange(1, 255).Draw(t, "xor"))
		b := []byte(old)
		b[f.At] ^= x
		f.Data = string(b[f.At])
		res[f.File] = string(b)
	case "truncate":
		if len(old) == 0 {
			return f, nil, false
		}
		f.At = rapid.IntRange(0, len(old)-1).Draw(t, "at")
		res[f.File] = old[:f.At]
	case "empty":
		res[f.File] = ""
	case "extend":
		f.Data = rapid.SampledFrom([]string{"\x00", "a", " ", "\n", "{}"}).Draw(t, "data")
		res[f.File] = old + f.Data
	case "insert":
		f.At = rapid.IntRange(0, len(old)).Draw(t, "at")
		f.Data = rapid.SampledFrom([]string{"\x00", "0", " ", "/"}).Draw(t, "data")
		res[f.File] = old[:f.At] + f.Data + old[f.At:]
	case "replace", "swap":
		f.To = rapid.SampledFrom(cls[c]).Draw(t, "other")
		res[f.File] = files[f.To]
		if f.Kind == "swap" {
			res[f.To] = old
		}
	case "remove":
		delete(res, f.File)
	case "rename":
		d := path.Dir(f.File)
		f.To = path.Join(d, rapid.SampledFrom([]string{"renamed", path.Base(f.File) + "x", strings.ToUpper(path.Base(f.File)) + "_", "../moved", "sub/moved", "inventory.json.md5", "." + path.Base(f.File)}).Draw(t, "to"))
		if strings.HasPrefix(f.To, "..") {
			return f, nil, false
		}
		delete(res, f.File)
		res[f.To] = old
	case "add":
		f.To = path.Join(path.Dir(f.File), rapid.SampledFrom([]string{"added", "sub/added", "../added", "x.json", "0=other", "inventory.json.sha1"}).Draw(t, "to"))
		if strings.HasPrefix(f.To, "..") {
			return f, nil, false
		}
		if rapid.Bool().Draw(t, "copy") {
			res[f.To] = old
		} else {
			res[f.To] = ""
		}
	}
	// a file in the place of a folder is no tree
	for p := range res {
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			if _, ok := res[d]; ok {
				return f, nil, false
			}
		}
	}
	if len(res) == len(files) {
		same := true
		for p, v := range res {
			if w, ok := files[p]; !ok || w != v {
				same = false
			}
		}
		if same {
			return f, nil, false
		}
	}
	return f, res, true
}

// C05: any corruption of stored bytes is detected.
func TestC05(t *testing.T) {
	f := newFactory(factoryOpts{})
	runCheck(t, "foreign", 20000, 500000, func(t *rapid.T) {
		r := genFRoot(t, 2)
		files := r.files()
		var flt fault
		var bad map[string]string
		for i := 0; ; i++ {
			var ok bool
			if flt, bad, ok = genFault(t, files); ok {
				break
			}
			if i == 20 {
				count("foreign", "", false, nil, "no fault")
				return
			}
		}
		_, pr := checkRoot(bad, false)
		if len(pr) == 0 {
			count("foreign", "", false, nil, "harmless fault", "harmless "+flt.Kind)
			return
		}
		w := worldOf(bad)
		var errs []string
		if msg := noPanic(func() { errs = validate(w.mount(rootDir), f) }); msg != "" {
			t.Fatalf("validation panics after %s: %s\n%s", flt, msg, dumpFiles(bad))
		}
		if len(errs) == 0 {
			t.Fatalf("fault is not reported: %s\n  violations: %s\n%s", flt, joinProblems(pr), dumpFiles(bad))
		}
		for folder, pr := range brokenObjects(bad) {
			if msg := noPanic(func() { errs = validateObject(w.mount(rootDir), f, folder, "") }); msg != "" {
				t.Fatalf("validation of %q panics after %s: %s\n%s", folder, flt, msg, dumpFiles(bad))
			}
			if len(errs) == 0 {
				t.Fatalf("fault is not reported by the validation of %q: %s\n  violations: %s\n%s", folder, flt, joinProblems(pr), dumpFiles(bad))
			}
		}
		desc := map[string]any{"fault": flt.String(), "violation": pr[0], "root": r.describe()}
		kind := "content"
		switch b := path.Base(flt.File); {
		case !strings.Contains(flt.File, "/"):
			kind = "root declaration"
		case strings.HasPrefix(b, "inventory.json."):
			kind = "sidecar"
		case b == "inventory.json":
			kind = "inventory"
		case strings.HasPrefix(b, "0="):
			kind = "declaration"
		}
		count("foreign", flt.String()+j(r.describe()), true, desc, flt.Kind+" "+kind)
	})
	runCheck(t, "own", 1500, 30000, func(t *rapid.T) {
		var h *hist
		histProp("own history", 3, func(*rapid.T, *event) {}, func(_ *rapid.T, x *hist) { h = x })(t)
		files := h.w.snapshot(rootDir)
		if _, pr := checkRoot(files, true); len(pr) > 0 {
			return // reported by C03
		}
		flat := map[string]string{}
		for p, c := range files {
			if !strings.HasSuffix(p, "/") {
				flat[p] = c
			}
		}
		ids := map[string]string{}
		for _, o := range objectFolders(flat) {
			if inv, _ := checkObject(sub(flat, o), false); inv != nil {
				ids[inv.id] = o
			}
		}
		for i := 0; i < 6; i++ {
			flt, bad, ok := genFault(t, flat)
			if !ok || strings.Contains(flt.File, "extensions/") || strings.Contains(flt.To, "extensions/") {
				continue
			}
			_, pr := checkRoot(bad, false)
			if len(pr) == 0 {
				count("own", "", false, nil, "harmless fault")
				continue
			}
			w := worldOf(bad)
			var errs []string
			if msg := noPanic(func() { errs = validate(w.mount(rootDir), h.f) }); msg != "" {
				t.Fatalf("validation panics after %s: %s\n%s", flt, msg, dumpFiles(bad))
			}
			if len(errs) == 0 {
				t.Fatalf("fault is not reported: %s\n  violations: %s\n%s", flt, joinProblems(pr), dumpFiles(bad))
			}
			broken := brokenObjects(bad)
			for id, folder := range ids {
				if len(broken[folder]) == 0 {
					continue
				}
				if msg := noPanic(func() { errs = validateObject(w.mount(rootDir), h.f, "", id) }); msg != "" {
					t.Fatalf("validation of object %q panics after %s: %s\n%s", id, flt, msg, dumpFiles(bad))
				}
				if len(errs) == 0 {
					t.Fatalf("fault is not reported by the validation of object %q: %s\n  violations: %s\n%s", id, flt, joinProblems(broken[folder]), dumpFiles(bad))
				}
			}
			count("own", flt.String()+strings.Join(h.log, ";"), true, map[string]any{"fault": flt.String(), "history": h.log}, flt.Kind)
		}
	})
}
