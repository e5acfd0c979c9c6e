package zzverif

import (
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// C04: conformant storage roots validate without errors.
func TestC04(t *testing.T) {
	f := newFactory(factoryOpts{})
	runCheck(t, "foreign", 16000, 400000, func(t *rapid.T) {
		r := genFRoot(t, 2)
		files := r.files()
		if _, pr := checkRoot(files, false); len(pr) > 0 {
			infra("generator made a root which is not conformant: %v\n%s", pr, dumpFiles(files))
		}
		w := worldOf(files)
		var errs []string
		if msg := noPanic(func() { errs = validate(w.mount(rootDir), f) }); msg != "" {
			t.Fatalf("validation panics: %s\n%s", msg, dumpFiles(files))
		}
		if len(errs) > 0 {
			t.Fatalf("conformant root is reported: %s\n%s", joinProblems(errs), dumpFiles(files))
		}
		o := rapid.SampledFrom(r.Objs).Draw(t, "object alone")
		if msg := noPanic(func() { errs = validateObject(w.mount(rootDir), f, o.Folder, "") }); msg != "" {
			t.Fatalf("validation of object %q panics: %s\n%s", o.Folder, msg, dumpFiles(files))
		}
		if len(errs) > 0 {
			t.Fatalf("conformant object %q is reported: %s\n%s", o.Folder, joinProblems(errs), dumpFiles(files))
		}
		nt := false
		cl := r.classes()
		for _, c := range cl {
			if !strings.HasPrefix(c, "root") && !strings.HasPrefix(c, "decl") {
				nt = true
			}
		}
		count("foreign", j(r.describe()), nt, r.describe(), cl...)
	})
	runCheck(t, "own", 1200, 20000, histProp("own", 5, func(t *rapid.T, e *event) {
		if errs := validate(e.h.fsys, e.h.f); len(errs) > 0 {
			e.fail(t, "own storage root is reported: %s", joinProblems(errs))
		}
		if errs := validateObject(e.h.fsys, e.h.f, "", e.s.ID); len(errs) > 0 && e.ver > 0 {
			e.fail(t, "own object is reported: %s", joinProblems(errs))
		}
	}, nil))
}
