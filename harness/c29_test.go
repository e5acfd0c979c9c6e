package zzverif

// C29: the migration extension.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/je4/gocfl/v2/config"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
	configutil "github.com/je4/utils/v2/pkg/config"
	"pgregory.net/rapid"
)

// formatAction detects the format contents declare in their first bytes.
type formatAction struct{}

func formatOf(content string) string {
	if strings.HasPrefix(content, "fmt:") && len(content) > 5 && content[5] == ';' {
		return "fmt/" + content[4:5]
	}
	return ""
}

func (a formatAction) Stream(ct string, r io.Reader, filename string) (*ironmaiden.ResultV2, error) {
	data, err := io.ReadAll(r)
	res := ironmaiden.NewResultV2()
	if f := formatOf(string(data)); f != "" {
		res.Pronoms = []string{f}
	}
	res.Mimetypes = []string{"text/plain"}
	return res, err
}
func (a formatAction) DoV2(string) (*ironmaiden.ResultV2, error) { return nil, errors.New("not used") }
func (a formatAction) CanHandle(string, string) bool             { return true }
func (a formatAction) Do(*url.URL, string, *uint, *uint, *time.Duration, map[string]string) (interface{}, []string, []string, error) {
	return nil, nil, nil, errors.New("not used")
}
func (a formatAction) GetName() string                      { return "siegfried" }
func (a formatAction) GetCaps() ironmaiden.ActionCapability { return ironmaiden.ACTSTREAM }
func (a formatAction) GetWeight() uint                      { return 1 }

func formatFactory(o factoryOpts) *ocfl.ExtensionFactory {
	d := ironmaiden.NewActionDispatcher(map[int]ironmaiden.MimeWeightString{})
	d.RegisterAction(formatAction{})
	if o.creators == nil {
		o.creators = map[string]func(fs.FS) (ocfl.Extension, error){}
	}
	o.creators[extension.IndexerName] = func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewIndexerFS(fsys, "", d, false, logger)
	}
	return newFactory(o)
}

var padding = strings.Repeat("0123456789abcdef\n", 40)

// tool is the external program of a migration rule.
type tool struct {
	Kind string // mark, const, copy, fail, failAfter, nothing, empty, failSome, slow
	To   int    // format of the result
}

func (o tool) script(log string) string {
	s := map[string]string{
		"mark":      `printf "fmt:%d;m;" >"$2"; cat "$1" >>"$2"`,
		"const":     `printf "fmt:%d;const\n" >"$2"; for i in 1 2 3 4 5 6 7 8 9 10; do printf "0123456789012345678901234567890123456789012345678901234567890123456789" >>"$2"; done`,
		"copy":      `cp "$1" "$2"`,
		"fail":      `exit 3`,
		"failAfter": `cp "$1" "$2"; exit 1`,
		"nothing":   `true`,
		"empty":     `: >"$2"`,
		"failSome":  `if grep -q odd "$1"; then exit 1; fi; printf "fmt:%d;m;" >"$2"; cat "$1" >>"$2"`,
		"slow":      `printf x >"$2"; exec sleep 20`,
	}[o.Kind]
	if strings.Contains(s, "%d") {
		s = fmt.Sprintf(s, o.To)
	}
	return `head -n 1 "$1" >>` + log + `; ` + s
}

// result is what the tool makes of a content.
func (o tool) result(content string) (string, bool) {
	switch o.Kind {
	case "mark":
		return fmt.Sprintf("fmt:%d;m;", o.To) + content, true
	case "const":
		return fmt.Sprintf("fmt:%d;const\n", o.To) + strings.Repeat(strings.Repeat("0123456789", 7), 10), true
	case "copy":
		return content, true
	case "empty":
		return "", true
	case "failSome":
		if !strings.Contains(content, "odd") {
			return fmt.Sprintf("fmt:%d;m;", o.To) + content, true
		}
	}
	return "", false
}

type rule struct {
	Formats  []string
	Strategy string
	Regexp   string
	Replace  string
	Tool     tool
	ID       string
}

func genRules(t *rapid.T, slow bool) []rule {
	formats := rapid.Permutation([]string{"fmt/1", "fmt/2", "fmt/3", "fmt/4"}).Draw(t, "formats")
	var rs []rule
	for n := rapid.IntRange(1, 3).Draw(t, "rules"); n > 0; n-- {
		k := 1
		if n == 1 && rapid.Bool().Draw(t, "two") {
			k = 2
		}
		names := rapid.SampledFrom([][2]string{{`\.[a-z]+$`, ".pdf"}, {`^(.*)$`, "$1.pdf"}, {`\.txt$`, ".pdf"}, {`^(.*/)?([^/]*)$`, "${1}new-$2"}}).Draw(t, "names")
		kinds := []string{"mark", "mark", "mark", "mark", "const", "copy", "fail", "failAfter", "nothing", "empty", "failSome", "failSome"}
		if slow {
			kinds = append(kinds, "slow")
		}
		rs = append(rs, rule{Formats: formats[:k], Strategy: rapid.SampledFrom([]string{"replace", "add", "folder"}).Draw(t, "strategy"), Regexp: names[0], Replace: names[1],
			Tool: tool{Kind: rapid.SampledFrom(kinds).Draw(t, "tool"), To: rapid.IntRange(0, 5).Draw(t, "to")}, ID: fmt.Sprintf("rule-%s", formats[0])})
		formats = formats[k:]
	}
	return rs
}

func setRules(m *migration.Migration, rs []rule, log string) {
	conf := &config.GOCFLConfig{Migration: &config.Migration{Function: map[string]*config.MigrationFunction{}}}
	for i, r := range rs {
		timeout := 30 * time.Second
		if r.Tool.Kind == "slow" {
			timeout = 60 * time.Millisecond
		}
		conf.Migration.Function[fmt.Sprintf("f%d", i)] = &config.MigrationFunction{ID: r.ID, Title: "t", Command: "/bin/sh -c '" + r.Tool.script(log) + "' x {source} {destination}",
			Strategy: r.Strategy, FilenameRegexp: r.Regexp, FilenameReplacement: r.Replace, Timeout: configutil.Duration(timeout), Pronoms: r.Formats}
	}
	n, err := migration.GetMigrations(conf)
	if err != nil {
		infra("GetMigrations: %v", err)
	}
	m.Functions = n.Functions
}

var versionName = regexp.MustCompile(`^v[0-9]+\.(.+)$`)

// target is the logical path of the migrated file.
func (r rule) target(src, head string, migrated bool) (string, bool) {
	dest := regexp.MustCompile(r.Regexp).ReplaceAllString(src, r.Replace)
	if r.Strategy != "folder" {
		return dest, false
	}
	if m := versionName.FindStringSubmatch(path.Base(dest)); migrated && m != nil {
		return path.Join(path.Dir(src), head+"."+m[1]), false
	}
	return path.Join(src, head+"."+path.Base(dest)), true
}

type migRecord struct {
	source, target string // contents
	failed         bool
	id             string
}

var generatedName = regexp.MustCompile(`(^|/)((indexer|migration|filesystem)_v[0-9]+\.jsonl(\.br|\.gz)?|README\.md)$`)

func userFiles(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		if !generatedName.MatchString(k) {
			r[k] = v
		}
	}
	return r
}

func copyMap(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func propMigration(t *rapid.T) {
	tmp, err := os.MkdirTemp("", "c29")
	if err != nil {
		infra("%v", err)
	}
	defer os.RemoveAll(tmp)
	logFile := filepath.Join(tmp, "calls")
	slow := rapid.IntRange(0, 30).Draw(t, "slow") == 0
	mig := &migration.Migration{}
	cfg := &histCfg{Version: rapid.SampledFrom([]string{"1.0", "1.1"}).Draw(t, "version"), Layout: layouts()[2].exts, Digest: rapid.SampledFrom([]string{"sha512", "sha256"}).Draw(t, "digest")}
	var fixityExt []extCfg
	if rapid.IntRange(0, 2).Draw(t, "fixity") == 0 {
		cfg.Fixity = []string{"md5"}
		fixityExt = []extCfg{ext("0001-digest-algorithms")}
	}
	typ := rapid.SampledFrom([]string{"area", "path", "extension"}).Draw(t, "storageType")
	storage := rapid.SampledFrom([]string{"metadata", "content"}).Draw(t, "storageName")
	sub := rapid.Bool().Draw(t, "areas")
	if typ == "area" && !sub {
		storage = "content"
	}
	compress := rapid.SampledFrom([]string{"none", "gzip", "brotli"}).Draw(t, "compress")
	cfg.Exts = []extCfg{initialExt, objManager,
		ext("NNNN-indexer", "storageType", "extension", "storageName", "metadata", "actions", []string{"siegfried"}, "compress", "none"),
		ext("NNNN-migration", "storageType", typ, "storageName", storage, "compress", compress)}
	cfg.Exts = append(cfg.Exts, fixityExt...)
	prefix := ""
	if sub {
		prefix = "data/"
		cfg.Exts = append(cfg.Exts, ext("NNNN-content-subpath", "subPath", map[string]any{
			"content": map[string]any{"path": "data", "description": "c"}, "metadata": map[string]any{"path": "meta", "description": "m"}}))
	}
	if rapid.Bool().Draw(t, "clean") {
		cfg.Exts = append(cfg.Exts, dclean(true))
	}
	fsExt := rapid.IntRange(0, 3).Draw(t, "filesystem") == 0 // needs local files to add folders
	if fsExt {
		cfg.Exts = append(cfg.Exts, ext("NNNN-filesystem", "storageType", "extension", "storageName", "metadata", "compress", "none", "folders", ""))
	}
	var log []string
	fail := func(format string, a ...any) {
		t.Helper()
		t.Fatalf("migration records in %s %q (%s), extensions %v, digest %s, sessions\n  %s\n%s", typ, storage, compress, extNames(cfg.Exts), cfg.Digest, strings.Join(log, "\n  "), cut(fmt.Sprintf(format, a...), 2500))
	}
	h, err := newHist(cfg)
	if err != nil {
		fail("%v", err)
	}
	h.f = formatFactory(factoryOpts{migration: mig})
	if err := h.reload(); err != nil {
		fail("%v", err)
	}

	var versions []map[string]string
	cur := map[string]string{}
	all := map[string]bool{} // contents ever stored
	attempted := map[string]bool{}
	derived := map[string]bool{} // contents made by migration
	var records []migRecord
	classes := map[string]bool{}
	var rs []rule
	nMigrated, nFailed := 0, 0
	unique := 0
	var contents []string
	loose := false
	for k := genLength(t); k > 0; k-- {
		if rs == nil || rapid.IntRange(0, 2).Draw(t, "newRules") == 0 {
			rs = genRules(t, slow)
			if versions != nil {
				classes["rules changed"] = true
			}
		}
		if rapid.IntRange(0, 7).Draw(t, "noRules") == 0 {
			rs = []rule{}
		}
		setRules(mig, rs, logFile)
		if rapid.Bool().Draw(t, "reload") {
			if err := h.reload(); err != nil {
				fail("%v", err)
			}
		}
		o, err := h.open("obj")
		if err != nil {
			fail("%v", err)
		}
		echo := !fsExt && len(versions) > 0 && rapid.IntRange(0, 4).Draw(t, "echo") == 0
		var desc []string
		for _, r := range rs {
			desc = append(desc, fmt.Sprintf("%+v", r))
		}
		sw := newWorld()
		src := sw.mount("/src")
		if _, err := o.StartUpdate(src, "m", "u", "mailto:u", echo); err != nil {
			fail("StartUpdate: %v", err)
		}
		next := copyMap(cur)
		if echo {
			next = map[string]string{}
			for p, c := range cur {
				// an echo session replaces the files of the default area
				if sub && !strings.HasPrefix(p, prefix) {
					next[p] = c
				}
			}
			classes["echo"] = true
		}
		type addition struct {
			content, area string
			dedup         bool
		}
		adds := map[string]addition{}
		var order []string
		for i := rapid.IntRange(0, 4).Draw(t, "steps"); i > 0; i-- {
			p := rapid.SampledFrom([]string{"a.txt", "b.txt", "d/a.txt", "d/c.doc", "x.y.txt", "noext", "ü z.txt"}).Draw(t, "path")
			area, full := "", prefix+p
			if sub && !echo && rapid.IntRange(0, 3).Draw(t, "otherArea") == 0 {
				area, full = "metadata", "meta/"+p
				classes["other area"] = true
			}
			if _, ok := adds[full]; ok {
				continue
			}
			clash := false
			for q := range next {
				clash = clash || q != full && conflicts(q, full)
			}
			if clash {
				continue
			}
			if _, ok := cur[full]; ok && !echo && rapid.IntRange(0, 2).Draw(t, "delete") == 0 {
				if err := o.DeleteFile(full, digestOf(cfg.Digest, []byte(cur[full]))); err != nil {
					fail("DeleteFile: %v", err)
				}
				delete(next, full)
				adds[full] = addition{}
				desc = append(desc, fmt.Sprintf("delete %q", full))
				continue
			}
			var c string
			if len(contents) > 0 && rapid.IntRange(0, 2).Draw(t, "known") == 0 {
				c = rapid.SampledFrom(contents).Draw(t, "content")
			} else {
				unique++
				c = fmt.Sprintf("fmt:%d;id=%d %s\n%s", rapid.IntRange(0, 5).Draw(t, "format"), unique, rapid.SampledFrom([]string{"odd", "even"}).Draw(t, "odd"), padding)
				contents = append(contents, c)
			}
			a := addition{content: c, area: area, dedup: rapid.Bool().Draw(t, "dedup")}
			adds[full] = a
			order = append(order, full)
			next[full] = c
			desc = append(desc, fmt.Sprintf("%q=%q dedup=%v", full, strings.SplitN(c, "\n", 2)[0], a.dedup))
			if echo {
				sw.put("/src/"+p, []byte(c))
				continue
			}
			if rapid.Bool().Draw(t, "reader") {
				a.dedup = false
				adds[full] = a
				if _, err := o.AddReader(io.NopCloser(strings.NewReader(c)), []string{p}, area, false, false); err != nil {
					fail("AddReader: %v", err)
				}
				continue
			}
			if err := o.AddData([]byte(c), p, a.dedup, area, false, false); err != nil {
				fail("AddData: %v", err)
			}
		}
		if echo {
			if err := o.AddFolder(src, nil, true, ""); err != nil {
				fail("AddFolder: %v", err)
			}
		}
		log = append(log, fmt.Sprintf("echo=%v ", echo)+strings.Join(desc, "; "))
		_ = os.WriteFile(logFile, nil, 0o600)
		if err := o.EndUpdate(); err != nil {
			fail("EndUpdate: %v", err)
		}
		meta, metaErr := o.GetMetadata()
		if err := o.Close(); err != nil {
			fail("Close: %v", err)
		}
		if metaErr != nil && len(versions) > 0 {
			fail("GetMetadata: %v", metaErr)
		}

		inv, _, err := h.inventory("obj")
		if err != nil {
			// the first session had nothing to store
			if len(next) == 0 && len(versions) == 0 {
				break
			}
			fail("%v", err)
		}
		files := h.w.snapshot(rootDir)
		if _, pr := checkRoot(files, true); len(pr) > 0 {
			fail("storage root invalid: %s", joinProblems(pr))
		}
		if errs := validate(h.fsys, h.f); len(errs) > 0 {
			fail("validation: %v", errs)
		}
		state := func(n int) map[string]string {
			r := map[string]string{}
			for v := range inv.versions {
				if vnum(v) == n {
					r = userFiles(inv.logical(v))
				}
			}
			return r
		}
		digests := func(m map[string]string) map[string]string {
			r := map[string]string{}
			for p, c := range m {
				r[p] = digestOf(cfg.Digest, []byte(c))
			}
			return r
		}
		for i, v := range versions {
			if d := filesDiff(state(i+1), digests(v)); d != "" {
				fail("version %d has changed: %s", i+1, d)
			}
		}
		head := vnum(inv.head)
		// the user's version
		if sameState(cur, next) && head == len(versions) {
			if calls := callsOf(logFile); len(calls) > 0 {
				fail("migrations %v without a new version", calls)
			}
			continue
		}
		if head == len(versions) {
			fail("the session created no version")
		}
		user := len(versions) + 1
		if d := filesDiff(state(user), digests(next)); d != "" {
			fail("version %d: %s", user, d)
		}
		versions = append(versions, next)
		for _, c := range next {
			all[c] = true
		}
		// what has to be migrated
		names := map[string][]string{}
		for _, p := range sortedKeys(next) {
			names[next[p]] = append(names[next[p]], p)
		}
		type job struct {
			content, result string
			ok              bool
			r               rule
			targets         []string
			renames         map[string]string
		}
		var jobs []job
		// results of migrations, of which no source is left, give way to new results
		stale := map[string]bool{}
		for _, r := range records {
			if !r.failed {
				stale[r.target] = true
			}
		}
		for _, r := range records {
			if !r.failed && names[r.source] != nil {
				delete(stale, r.target)
			}
		}
		claimed := map[string]int{}
		for p, c := range next {
			if !stale[c] {
				claimed[p]++
			}
		}
		for _, c := range sortedKeys(names) {
			if attempted[c] {
				continue
			}
			for _, r := range rs {
				if !contains(r.Formats, formatOf(c)) {
					continue
				}
				jb := job{content: c, r: r, renames: map[string]string{}}
				jb.result, jb.ok = r.Tool.result(c)
				for _, p := range names[c] {
					to, folder := r.target(p, fmt.Sprintf("v%d", user+1), derived[c])
					jb.targets = append(jb.targets, to)
					if !contains(names[c], to) && !contains(jb.targets[:len(jb.targets)-1], to) {
						claimed[to]++
						if stale[next[to]] {
							classes["result replaced"] = true
						}
					}
					if folder {
						jb.renames[p] = path.Join(p, path.Base(p))
					}
				}
				jobs = append(jobs, jb)
			}
		}
		// names which several files claim: the outcome depends on the order
		collision := false
		for _, n := range claimed {
			collision = collision || n > 1
		}
		for p := range claimed {
			for q := range claimed {
				collision = collision || p != q && conflicts(p, q) && !strings.HasPrefix(q, p+"/v") && !strings.HasPrefix(p, q+"/v")
			}
		}
		for _, jb := range jobs {
			// a result which is to be migrated itself does not give way
			collision = collision || stale[jb.content] && func() bool {
				for _, p := range names[jb.content] {
					if claimed[p] > 0 {
						return true
					}
				}
				return false
			}()
			for p := range jb.renames {
				collision = collision || claimed[path.Join(p, path.Base(p))] > 0
			}
		}
		after := copyMap(next)
		changed := len(jobs) > 0 // attempts are recorded in any case
		var wantCalls []string
		for _, jb := range jobs {
			attempted[jb.content] = true
			wantCalls = append(wantCalls, strings.SplitN(jb.content, "\n", 2)[0])
			if !jb.ok {
				nFailed++
				classes["failed "+jb.r.Tool.Kind] = true
				records = append(records, migRecord{source: jb.content, target: jb.content, failed: true, id: jb.r.ID})
				continue
			}
			nMigrated++
			classes["strategy "+jb.r.Strategy] = true
			classes["tool "+jb.r.Tool.Kind] = true
			if derived[jb.content] {
				classes["second migration"] = true
			}
			records = append(records, migRecord{source: jb.content, target: jb.result, id: jb.r.ID})
			switch jb.r.Strategy {
			case "replace":
				for _, p := range names[jb.content] {
					if !contains(jb.targets, p) {
						delete(after, p)
					}
				}
			case "folder":
				for p, to := range jb.renames {
					delete(after, p)
					after[to] = jb.content
				}
			}
			for _, to := range jb.targets {
				after[to] = jb.result
			}
			all[jb.result] = true
		}
		for _, jb := range jobs {
			if jb.ok {
				derived[jb.result] = true
			}
		}
		calls := callsOf(logFile)
		if collision {
			// whichever file comes first gets the name: no other file may be lost
			classes["name collision"] = true
			if head > user {
				got := state(head)
				kept := map[string]bool{}
				for _, d := range got {
					kept[d] = true
				}
				for p, c := range next {
					replaced := false
					for _, jb := range jobs {
						replaced = replaced || stale[c] && contains(jb.targets, p) || jb.content == c && jb.ok && (jb.r.Strategy == "replace" || contains(jb.targets, p))
					}
					if !replaced && !kept[digestOf(cfg.Digest, []byte(c))] {
						fail("the automated version lost %q", p)
					}
				}
			}
			loose = true
			break
		}
		sort.Strings(calls)
		sort.Strings(wantCalls)
		if strings.Join(calls, "\n") != strings.Join(wantCalls, "\n") {
			fail("the tools were called for %q, want %q", calls, wantCalls)
		}
		cur = next
		if changed {
			if head != user+1 {
				fail("head is %s, want an automated version %d", inv.head, user+1)
			}
			if d := filesDiff(state(head), digests(after)); d != "" {
				fail("automated version %d: %s", head, d)
			}
			versions = append(versions, after)
			cur = after
		} else if head != user {
			fail("head is %s, want version %d", inv.head, user)
		}
		// the records
		checkRecords := func(where string, m *ocfl.ObjectMetadata) {
			want := map[string][]migRecord{}
			for _, r := range records {
				d := digestOf(cfg.Digest, []byte(r.target))
				want[d] = append(want[d], r)
			}
			for _, d := range sortedKeys(m.Files) {
				var got *extension.MigrationResult
				if x, ok := m.Files[d].Extension["NNNN-migration"]; ok {
					got, _ = x.(*extension.MigrationResult)
					if got == nil {
						fail("%s: migration record is %T", where, x)
					}
				}
				w := want[d]
				delete(want, d)
				if got == nil {
					if len(w) > 0 {
						fail("%s: no migration record of %v", where, m.Files[d].InternalName)
					}
					continue
				}
				ok := false
				for _, r := range w {
					ok = ok || digestOf(cfg.Digest, []byte(r.source)) == got.Source && r.failed == (got.Error != "") && r.id == got.ID
				}
				if !ok {
					fail("%s: unexpected migration record %s of %v", where, j(got), m.Files[d].InternalName)
				}
			}
			for d := range want {
				fail("%s: no file %s, which was migrated", where, d)
			}
		}
		if meta != nil {
			checkRecords("metadata", meta)
		}
		sr, err := loadRoot(newCtx(), h.fsys, h.f)
		if err != nil {
			fail("%v", err)
		}
		sm, err := sr.ExtractMeta("", "obj")
		if err != nil {
			fail("ExtractMeta: %v", err)
		}
		checkRecords("extracted metadata", sm.Objects["obj"])
	}
	if !loose && len(versions) > 0 {
		// every version, with the originals, can be extracted
		n := rapid.IntRange(1, len(versions)).Draw(t, "extract")
		got, err := h.extract("obj", fmt.Sprintf("v%d", n), "full", false)
		if err != nil {
			fail("extract v%d: %v", n, err)
		}
		if d := filesDiff(userFiles(got), versions[n-1]); d != "" {
			fail("extracted version %d: %s", n, cut(d, 500))
		}
	}
	classes["records in "+typ] = true
	if nMigrated > 0 && nFailed > 0 {
		classes["success and failure"] = true
	}
	count("migration", strings.Join(log, "\n")+j(cfg.Exts), nMigrated+nFailed > 0, map[string]any{"extensions": extNames(cfg.Exts), "sessions": log}, sortedKeys(classes)...)
}

// callsOf lists the first lines of the contents the tools were called with.
func callsOf(file string) []string {
	b, err := os.ReadFile(file)
	if err != nil {
		infra("%v", err)
	}
	var l []string
	for _, s := range bytes.Split(b, []byte("\n")) {
		if len(s) > 0 {
			l = append(l, string(s))
		}
	}
	return l
}

func TestC29(t *testing.T) {
	runCheck(t, "migration", 1500, 40000, propMigration)
}
