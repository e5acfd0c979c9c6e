package zzverif

// C24: metadata and statistics against the inventory.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"pgregory.net/rapid"
)

// metaDiff compares extracted metadata with an inventory.
func metaDiff(m *ocfl.ObjectMetadata, inv *oInv) string {
	if m == nil {
		return "no metadata"
	}
	if m.ID != inv.id || string(m.DigestAlgorithm) != inv.alg || m.Head != inv.head {
		return fmt.Sprintf("id %q, digest algorithm %q, head %q instead of %q, %q, %q", m.ID, m.DigestAlgorithm, m.Head, inv.id, inv.alg, inv.head)
	}
	if a, b := sortedKeys(m.Versions), sortedKeys(inv.versions); j(a) != j(b) {
		return fmt.Sprintf("versions %v instead of %v", a, b)
	}
	for _, n := range sortedKeys(inv.versions) {
		v, w := m.Versions[n], inv.versions[n]
		if v.Message != w.message || v.Name != w.userName || v.Address != w.userAddr {
			return fmt.Sprintf("version %s: message %q, user %q, address %q instead of %q, %q, %q", n, v.Message, v.Name, v.Address, w.message, w.userName, w.userAddr)
		}
		if ti, err := time.Parse(time.RFC3339, w.created); err == nil && !ti.Equal(v.Created) {
			return fmt.Sprintf("version %s: created %s instead of %s", n, v.Created, w.created)
		}
	}
	low := map[string]*ocfl.FileMetadata{}
	for _, d := range sortedKeys(m.Files) {
		if low[strings.ToLower(d)] != nil {
			return "digest " + d + " is listed twice"
		}
		low[strings.ToLower(d)] = m.Files[d]
	}
	if len(low) != len(inv.manifest) {
		return fmt.Sprintf("files %v instead of %v", sortedKeys(low), sortedKeys(inv.manifest))
	}
	for _, d := range sortedKeys(inv.manifest) {
		f := low[strings.ToLower(d)]
		if f == nil {
			return "digest " + d + " is missing"
		}
		if a, b := sorted(f.InternalName), sorted(inv.manifest[d]); j(a) != j(b) {
			return fmt.Sprintf("digest %s: content paths %q instead of %q", d, a, b)
		}
		names := map[string][]string{}
		for v, ver := range inv.versions {
			for sd, ps := range ver.state {
				if strings.EqualFold(sd, d) && len(ps) > 0 {
					names[v] = sorted(ps)
				}
			}
		}
		got := map[string][]string{}
		for v, ps := range f.VersionName {
			if len(ps) > 0 {
				got[v] = sorted(ps)
			}
		}
		if j(got) != j(names) {
			return fmt.Sprintf("digest %s: logical names %s instead of %s", d, j(got), j(names))
		}
		fix := map[string]string{}
		for a, blk := range inv.fixity {
			for fd, ps := range blk {
				for _, p := range ps {
					if contains(inv.manifest[d], p) {
						fix[a] = strings.ToLower(fd)
					}
				}
			}
		}
		gotFix := map[string]string{}
		for a, x := range f.Checksums {
			gotFix[string(a)] = strings.ToLower(x)
		}
		if j(gotFix) != j(fix) {
			return fmt.Sprintf("digest %s: fixity %s instead of %s", d, j(gotFix), j(fix))
		}
	}
	return ""
}

func sorted(l []string) []string {
	r := append([]string{}, l...)
	sort.Strings(r)
	return r
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func invsOf(t fataler, files map[string]string) (map[string]*oInv, []string) {
	res := map[string]*oInv{}
	folders := objectFolders(files)
	for _, f := range folders {
		pr := &problems{}
		if inv := parseInv([]byte(files[path.Join(f, "inventory.json")]), pr, f); inv != nil {
			res[f] = inv
		}
	}
	return res, folders
}

// statDiff compares the report on one object with its inventory.
func statDiff(text string, inv *oInv, infos map[ocfl.StatInfo]bool) string {
	p := "[" + inv.id + "] "
	has := func(i ocfl.StatInfo) bool { return len(infos) == 0 || infos[i] }
	for _, l := range []string{"Digest: " + inv.alg, "Head: " + inv.head} {
		if !strings.Contains(text, p+l+"\n") {
			return "there is no line " + p + l
		}
	}
	n := 0
	for _, ps := range inv.manifest {
		n += len(ps)
	}
	if l := fmt.Sprintf("%sManifest: %d files (%d unique files)\n", p, n, len(inv.manifest)); !strings.Contains(text, l) {
		return "there is no line " + l + "in\n" + cut(text, 400)
	}
	_, fix, ok := strings.Cut(text, p+"Fixity: ")
	fix, _, _ = strings.Cut(fix, "\n")
	var algs []string
	for _, a := range strings.Split(fix, ",") {
		if a = strings.TrimSpace(a); a != "" {
			algs = append(algs, a)
		}
	}
	if want := sortedKeys(inv.fixity); !ok || strings.Join(sorted(algs), " ") != strings.Join(want, " ") {
		return fmt.Sprintf("fixity algorithms %v instead of %v", algs, want)
	}
	if got := strings.Count(text, p+"Version "); got != len(inv.versions) && has(ocfl.StatObjectVersions) || got > 0 && !has(ocfl.StatObjectVersions) {
		return fmt.Sprintf("%d versions instead of %d", got, len(inv.versions))
	}
	if !has(ocfl.StatObjectVersions) {
		return ""
	}
	for _, v := range inv.versionNames() {
		ver := inv.versions[v]
		head := fmt.Sprintf("%sVersion %s\n%s    User: %s (%s)\n%s    Created: ", p, v, p, ver.userName, ver.userAddr, p)
		_, rest, ok := strings.Cut(text, head)
		if !ok {
			return fmt.Sprintf("version %s is not described as %q", v, head)
		}
		_, rest, _ = strings.Cut(rest, "\n")
		if msg := fmt.Sprintf("%s    Message: %s\n", p, ver.message); !strings.HasPrefix(rest, msg) {
			return fmt.Sprintf("version %s: message is not %q", v, ver.message)
		} else {
			rest = rest[len(msg):]
		}
		// the files and below them where they are stored
		got := map[string][]string{}
		last := ""
		for {
			l, r, ok := strings.Cut(rest, "\n")
			if !ok || !strings.HasPrefix(l, p+"       ") {
				break
			}
			rest = r
			l = strings.TrimPrefix(l, p+"       ")
			// content paths start with the version folder
			if c := strings.TrimPrefix(l, "   "); c != l && last != "" && has(ocfl.StatObjectManifest) && strings.HasPrefix(c, "v") && contains(pathsFor(inv.manifest, inv.logical(v)[last]), c) {
				got[last] = append(got[last], c)
				continue
			}
			if _, ok := got[l]; ok {
				return fmt.Sprintf("version %s lists %q twice", v, l)
			}
			last = l
			got[l] = []string{}
		}
		want := map[string][]string{}
		if has(ocfl.StatObjectVersionState) {
			for l, d := range inv.logical(v) {
				want[l] = []string{}
				if has(ocfl.StatObjectManifest) {
					want[l] = sorted(pathsFor(inv.manifest, d))
				}
			}
		}
		for l := range got {
			got[l] = sorted(got[l])
		}
		if j(got) != j(want) {
			return fmt.Sprintf("version %s has files %s instead of %s", v, j(got), j(want))
		}
	}
	return ""
}

// configsDiff compares the extension configurations of a report with those
// stored below folder.
func configsDiff(text string, files map[string]string, folder string, shown bool) string {
	if !shown {
		if strings.Contains(text, "extensionName") {
			return "there are extension configurations"
		}
		return ""
	}
	var docs []any
	for _, part := range strings.Split(text, "---\n") {
		if v, err := jsonOf([]byte(part)); err == nil {
			docs = append(docs, v)
		}
	}
	for _, p := range sortedKeys(files) {
		name, ok := strings.CutPrefix(p, path.Join(folder, "extensions")+"/")
		if !ok || !strings.HasSuffix(name, "/config.json") || strings.Count(name, "/") != 1 || name == "initial/config.json" {
			continue
		}
		want, err := jsonOf([]byte(files[p]))
		if err != nil {
			return err.Error()
		}
		found := false
		for _, v := range docs {
			found = found || jequal(v, want)
		}
		if !found {
			return fmt.Sprintf("the configuration %s is missing in\n%s", files[p], cut(text, 3000))
		}
	}
	return ""
}

// reports compares everything reported on the objects of a root.
func reports(t *rapid.T, sr ocfl.StorageRoot, files map[string]string, byID bool, fail func(format string, a ...any)) (objs, vers int) {
	invs, folders := invsOf(t, files)
	check := func(what string, md *ocfl.StorageRootMetadata, err error, want ...string) {
		if err != nil {
			fail("ExtractMeta of %s: %v", what, err)
		}
		if len(md.Objects) != len(want) {
			fail("ExtractMeta of %s has objects %q instead of those in %q", what, sortedKeys(md.Objects), want)
		}
		for _, f := range want {
			inv := invs[f]
			if d := metaDiff(md.Objects[inv.id], inv); d != "" {
				fail("ExtractMeta of %s, object %q: %s", what, inv.id, d)
			}
		}
		if _, err := json.Marshal(md); err != nil {
			fail("ExtractMeta of %s cannot be stored as JSON: %v", what, err)
		}
	}
	call := func(f func()) {
		var hung bool
		if p := noPanic(func() { hung = bounded(f) }); p != "" || hung {
			fail("panic %s, hangs %v", p, hung)
		}
	}
	extract := func(what, folder, id string, want ...string) {
		var md *ocfl.StorageRootMetadata
		var err error
		call(func() { md, err = sr.ExtractMeta(folder, id) })
		check(what, md, err, want...)
	}
	extract("all", "", "", folders...)
	infos := map[ocfl.StatInfo]bool{}
	var infoList []ocfl.StatInfo
	for _, n := range sortedKeys(ocfl.StatInfoString) {
		if i := ocfl.StatInfoString[n]; rapid.Bool().Draw(t, n) {
			infos[i] = true
			infoList = append(infoList, i)
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "everything") == 0 {
		infos, infoList = map[ocfl.StatInfo]bool{}, nil
	}
	stat := func(folder, id string) string {
		var b bytes.Buffer
		var err error
		call(func() { err = sr.Stat(&b, folder, id, infoList) })
		if err != nil {
			fail("Stat(%q, %q): %v", folder, id, err)
		}
		if l := fmt.Sprintf("OCFL Version: %s\n", sr.GetVersion()); !strings.Contains(b.String(), l) {
			fail("Stat(%q, %q) has no line %s", folder, id, l)
		}
		return b.String()
	}
	all := stat("", "")
	if len(infos) == 0 || infos[ocfl.StatObjects] {
		// the reports on the objects follow one another
		pos := map[string]int{}
		var starts []int
		for _, f := range folders {
			l := "\nObject: " + f + "\n"
			if strings.Count(all, l) != 1 {
				fail("Stat of all reports %d times on %q", strings.Count(all, l), f)
			}
			pos[f] = strings.Index(all, l)
			starts = append(starts, pos[f])
		}
		starts = append(starts, len(all))
		sort.Ints(starts)
		for _, f := range folders {
			i := sort.SearchInts(starts, pos[f])
			if d := statDiff(all[pos[f]:min(starts[i+1]+1, len(all))], invs[f], infos); d != "" {
				fail("Stat of all %v, object %q: %s", infoList, invs[f].id, d)
			}
		}
	} else if strings.Contains(all, "\nObject: ") {
		fail("Stat of all %v reports on objects", infoList)
	}
	for _, f := range folders {
		inv := invs[f]
		if rapid.Bool().Draw(t, "by folder") {
			extract("folder "+f, f, "", f)
			if d := statDiff(stat(f, ""), inv, infos); d != "" {
				fail("Stat of folder %q %v: %s", f, infoList, d)
			}
		}
		if byID {
			extract("id "+inv.id, "", inv.id, f)
			report := stat("", inv.id)
			if d := statDiff(report, inv, infos); d != "" {
				fail("Stat of id %q %v: %s", inv.id, infoList, d)
			}
			before, after, _ := strings.Cut(report, "\nObject: ")
			if d := configsDiff(after, files, f, len(infos) == 0 || infos[ocfl.StatObjectExtensionConfigs]); d != "" {
				fail("Stat of id %q %v: %s", inv.id, infoList, d)
			}
			if d := configsDiff(before, files, "", len(infos) == 0 || infos[ocfl.StatExtensionConfigs]); d != "" {
				fail("Stat of id %q %v, storage root: %s", inv.id, infoList, d)
			}
		}
		vers += len(inv.versions)
	}
	return len(folders), vers
}

func TestC24(t *testing.T) {
	f := newFactory(factoryOpts{})
	runCheck(t, "foreign", 3500, 80000, func(t *rapid.T) {
		r := genFRoot(t, 3)
		files := r.files()
		if _, pr := checkRoot(files, false); len(pr) > 0 {
			infra("generator made a root which is not conformant: %v\n%s", pr, dumpFiles(files))
		}
		w := worldOf(files)
		fail := func(format string, a ...any) {
			t.Helper()
			t.Fatalf("%s\n%s", cut(fmt.Sprintf(format, a...), 1500), cut(dumpFiles(files), 12000))
		}
		sr, err := loadRoot(newCtx(), w.mount(rootDir), f)
		if err != nil {
			fail("%v", err)
		}
		objs, vers := reports(t, sr, files, false, fail)
		count("foreign", j(r.describe()), vers > objs, r.describe(), r.classes()...)
	})
	runCheck(t, "own", 700, 15000, func(t *rapid.T) {
		objs, vers := 0, 0
		histProp("history", 5, func(t *rapid.T, e *event) {
			if e.complaint != "" {
				return
			}
			if rapid.Bool().Draw(t, "reload") {
				if err := e.h.reload(); err != nil {
					e.fail(t, "%v", err)
				}
			}
			objs, vers = reports(t, e.h.sr, e.after, true, func(format string, a ...any) { e.fail(t, format, a...) })
		}, nil)(t)
		if objs > 1 {
			class("own", "several objects")
		}
		if vers > objs {
			class("own", "several versions")
		}
	})
}
