package zzverif

// C30: METS and PREMIS documents.

import (
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
	"pgregory.net/rapid"
)

type xnode struct {
	name     xml.Name
	attrs    map[string]string // by local name
	children []*xnode
	text     string
}

func parseXML(data string) (*xnode, error) {
	d := xml.NewDecoder(strings.NewReader(data))
	var root *xnode
	var stack []*xnode
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			n := &xnode{name: x.Name, attrs: map[string]string{}}
			for _, a := range x.Attr {
				if _, ok := n.attrs[a.Name.Local]; ok && a.Name.Space == "" {
					return nil, fmt.Errorf("attribute %s twice", a.Name.Local)
				}
				if a.Name.Space != "xmlns" {
					n.attrs[a.Name.Local] = a.Value
				}
			}
			if len(stack) == 0 {
				if root != nil {
					return nil, fmt.Errorf("two root elements")
				}
				root = n
			} else {
				p := stack[len(stack)-1]
				p.children = append(p.children, n)
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(x)
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("no root element")
	}
	return root, nil
}

func (n *xnode) all(name string) (l []*xnode) {
	if n.name.Local == name {
		l = append(l, n)
	}
	for _, c := range n.children {
		l = append(l, c.all(name)...)
	}
	return l
}

// get is the text of the first element with this name below n.
func (n *xnode) get(name string) string {
	if l := n.all(name); len(l) > 0 {
		return strings.TrimSpace(l[0].text)
	}
	return ""
}

var metsSchema = regexp.MustCompile(`(^|/)schemas/(mets|premis|xlink)\.xsd$`)

var digestNames = map[string]string{"sha512": "SHA-512", "sha256": "SHA-256"}

// checkMets judges the documents of one version.
func checkMets(metsDoc, premisDoc, id, alg string, inv *oInv, head, metsPath, premisPath, primary string, size func(digest string) int, complain func(string, ...any)) {
	m, err := parseXML(metsDoc)
	if err != nil {
		complain("METS is not well formed: %v", err)
		return
	}
	p, err := parseXML(premisDoc)
	if err != nil {
		complain("PREMIS is not well formed: %v", err)
		return
	}
	if m.name.Local != "mets" || m.name.Space != "http://www.loc.gov/METS/" {
		complain("METS document is %v", m.name)
		return
	}
	if p.name.Local != "premis" || p.name.Space != "http://www.loc.gov/premis/v3" {
		complain("PREMIS document is %v", p.name)
		return
	}
	if m.attrs["OBJID"] != id {
		complain("METS is about object %q", m.attrs["OBJID"])
	}
	state := map[string]string{}
	for q, d := range inv.logical(head) {
		if q != metsPath && q != premisPath {
			state[q] = d
		}
	}
	manifest := map[string]string{} // content path to digest
	for d, l := range inv.manifest {
		for _, q := range l {
			manifest[q] = d
		}
	}
	external, internal := map[string]bool{}, map[string]bool{}
	fileIDs := map[string]string{}
	one := func(what string, n *xnode, href, digest string, seen map[string]bool, want string, ok bool) {
		if !ok {
			complain("%s %q of METS is not part of version %s", what, href, head)
			return
		}
		if want != digest {
			complain("%s %q of METS has checksum %s, want %s", what, href, digest, want)
		}
		if t := n.attrs["CHECKSUMTYPE"]; t != digestNames[alg] {
			complain("%s %q of METS has checksum type %q, want %q", what, href, t, digestNames[alg])
		}
		if s := n.attrs["SIZE"]; s != "" {
			if k, err := strconv.Atoi(s); err != nil || k != size(want) {
				complain("%s %q of METS has size %s, want %d", what, href, s, size(want))
			}
		} else if size(want) > 0 {
			complain("%s %q of METS has no size", what, href)
		}
		seen[href] = true
	}
	where := func(n, l *xnode, href string) {
		if l.attrs["LOCTYPE"] == "URL" {
			d, ok := state[href]
			one("file", n, href, n.attrs["CHECKSUM"], external, d, ok)
		} else if l.attrs["OTHERLOCTYPE"] == "URL:internal" {
			d, ok := manifest[href]
			if ok {
				ok = false
				for _, sd := range state {
					ok = ok || sd == d
				}
			}
			one("content", n, href, n.attrs["CHECKSUM"], internal, d, ok)
		} else {
			complain("location type %q of %q", l.attrs["LOCTYPE"], href)
		}
	}
	for _, fs := range m.all("fileSec") {
		for _, f := range fs.all("file") {
			fileIDs[f.attrs["ID"]] = f.attrs["CHECKSUM"]
			if len(f.all("FLocat")) == 0 {
				complain("file %s of METS has no location", f.attrs["ID"])
			}
			for _, l := range f.all("FLocat") {
				where(f, l, l.attrs["href"])
			}
		}
	}
	prim := 0
	for _, s := range m.all("dmdSec") {
		for _, r := range s.all("mdRef") {
			where(r, r, r.attrs["href"])
			if s.attrs["GROUPID"] == "primary-metadata" && r.attrs["LOCTYPE"] == "URL" {
				prim++
				if primary == "" || state[r.attrs["href"]] != state[primary] {
					complain("%q is the primary metadata of METS, want %q", r.attrs["href"], primary)
				}
			}
		}
	}
	if primary != "" && prim != 1 {
		complain("METS has %d primary metadata files", prim)
	}
	for _, q := range sortedKeys(state) {
		if !external[q] && !metsSchema.MatchString(q) {
			complain("METS does not list file %q", q)
		}
	}
	for _, c := range sortedKeys(manifest) {
		used := false
		for q, d := range state {
			used = used || d == manifest[c] && !metsSchema.MatchString(q)
		}
		if used && !internal[c] {
			complain("METS does not list content %q", c)
		}
	}
	// the PREMIS document
	n := 0
	for _, s := range m.all("digiprovMD") {
		for _, r := range s.all("mdRef") {
			href := r.attrs["href"]
			if r.attrs["LOCTYPE"] == "URL" {
				if premisPath != "" && href != premisPath {
					complain("METS locates PREMIS at %q, want %q", href, premisPath)
				}
			} else if premisPath != "" && manifest[href] != inv.logical(head)[premisPath] {
				complain("METS locates PREMIS at %q, which is not its content", href)
			}
			if d := digestOf("sha512", []byte(premisDoc)); r.attrs["CHECKSUM"] != d || r.attrs["CHECKSUMTYPE"] != "SHA-512" {
				complain("METS has checksum %s of PREMIS, want %s", r.attrs["CHECKSUM"], d)
			}
			if r.attrs["SIZE"] != fmt.Sprint(len(premisDoc)) {
				complain("METS has size %s of PREMIS, want %d", r.attrs["SIZE"], len(premisDoc))
			}
			n++
		}
	}
	if n == 0 {
		complain("METS does not refer to PREMIS")
	}
	// identifiers
	ids := map[string]bool{}
	var walk func(n *xnode)
	walk = func(n *xnode) {
		if i, ok := n.attrs["ID"]; ok {
			if ids[i] {
				complain("identifier %q twice in METS", i)
			}
			ids[i] = true
		}
		for _, c := range n.children {
			walk(c)
		}
	}
	walk(m)
	for _, f := range m.all("fptr") {
		if !ids[f.attrs["FILEID"]] {
			complain("METS refers to unknown file %q", f.attrs["FILEID"])
		}
	}
	// PREMIS objects
	objects := map[string]bool{}
	for _, o := range p.all("object") {
		i := o.get("objectIdentifierValue")
		d, ok := fileIDs[i]
		if !ok {
			complain("PREMIS object %q is no file of METS", i)
			continue
		}
		if objects[i] {
			complain("PREMIS object %q twice", i)
		}
		objects[i] = true
		good := false
		for _, f := range o.all("fixity") {
			good = good || f.get("messageDigestAlgorithm") == digestNames[alg] && f.get("messageDigest") == d
		}
		if !good {
			complain("PREMIS object %q lacks the checksum %s", i, d)
		}
		if s := o.get("size"); s != fmt.Sprint(size(d)) {
			complain("PREMIS object %q has size %s, want %d", i, s, size(d))
		}
	}
	for _, i := range sortedKeys(fileIDs) {
		if !objects[i] {
			complain("file %q of METS is no PREMIS object", i)
		}
	}
}

func propMets(t *rapid.T) {
	cfg := &histCfg{Version: rapid.SampledFrom([]string{"1.0", "1.1"}).Draw(t, "version"), Layout: layouts()[3].exts, Digest: rapid.SampledFrom([]string{"sha512", "sha256"}).Draw(t, "digest")}
	cfg.Exts = []extCfg{initialExt, objManager}
	areas := rapid.SampledFrom([]map[string]string{
		nil,
		{"content": "data", "metadata": "meta"},
		{"content": "data", "metadata": "metadata", "extra": "more"},
		{"content": "x/data", "metadata": "x/meta", "extra": "y"},
	}).Draw(t, "areas")
	if areas != nil {
		m := map[string]any{}
		for a, p := range areas {
			m[a] = map[string]any{"path": p, "description": "area <" + a + ">"}
		}
		cfg.Exts = append(cfg.Exts, ext("NNNN-content-subpath", "subPath", m))
	}
	full := func(area, p string) string { return path.Join(areas[area], p) }
	typ := rapid.SampledFrom([]string{"area", "path", "extension"}).Draw(t, "storageType")
	storage := "metadata"
	metsFile, premisFile := "mets.xml", "premis.xml"
	if rapid.IntRange(0, 3).Draw(t, "names") == 0 {
		metsFile, premisFile = "m&m.xml", "doc/p.xml"
	}
	if typ == "area" && rapid.IntRange(0, 2).Draw(t, "inContent") == 0 {
		storage = "content"
	}
	if typ != "area" {
		storage = rapid.SampledFrom([]string{"", "md"}).Draw(t, "storageName")
	}
	perVersion := false
	if typ == "extension" && rapid.Bool().Draw(t, "perVersion") {
		perVersion = true
		metsFile, premisFile = "mets_%s.xml", "premis_%s.xml"
	}
	primary, primaryArea, primaryFull := "", "content", ""
	switch rapid.IntRange(0, 2).Draw(t, "primary") {
	case 1:
		primary, primaryFull = "MODS:info.json", full("content", "info.json")
	case 2:
		if areas != nil {
			primaryArea, primary, primaryFull = "metadata", "json:metadata:info.json", full("metadata", "info.json")
			if rapid.Bool().Draw(t, "default") {
				primary = "info:metadata:info.json"
			}
		}
	}
	cfg.Exts = append(cfg.Exts, ext("NNNN-mets", "storageType", typ, "storageName", storage, "metsFile", metsFile, "premisFile", premisFile))
	if primary != "info:metadata:info.json" {
		cfg.Exts[len(cfg.Exts)-1]["primaryDescriptiveMetadata"] = primary
	} // else the default
	if rapid.Bool().Draw(t, "clean") {
		cfg.Exts = append(cfg.Exts, dclean(true))
	}
	withIndexer := rapid.Bool().Draw(t, "indexer")
	if withIndexer {
		cfg.Exts = append(cfg.Exts, ext("NNNN-indexer", "storageType", "extension", "storageName", "metadata", "actions", []string{"siegfried"}, "compress", "none"))
	}
	if rapid.IntRange(0, 2).Draw(t, "fixity") == 0 {
		cfg.Fixity = []string{"md5", "sha1"}
		cfg.Exts = append(cfg.Exts, ext("0001-digest-algorithms"))
	}
	id := rapid.SampledFrom([]string{"obj", "urn:x:<a&b>", "http://x.org/a?b=\"c\" d", "ü"}).Draw(t, "id")
	user := rapid.SampledFrom([]string{"u", "<Ü & \"Co\">"}).Draw(t, "user")
	var log []string
	fail := func(format string, a ...any) {
		t.Helper()
		t.Fatalf("METS in %s %q (%s, %s), areas %v, primary %q, extensions %v, digest %s, object %q, sessions\n  %s\n%s", typ, storage, metsFile, premisFile, areas, primary, extNames(cfg.Exts), cfg.Digest, id, strings.Join(log, "\n  "), cut(fmt.Sprintf(format, a...), 2500))
	}
	h, err := newHist(cfg)
	if err != nil {
		fail("%v", err)
	}
	h.f = formatFactory(factoryOpts{})
	if err := h.reload(); err != nil {
		fail("%v", err)
	}
	var metsPath, premisPath string
	switch typ {
	case "area":
		metsPath, premisPath = full(storage, metsFile), full(storage, premisFile)
	case "path":
		metsPath, premisPath = full("content", path.Join(storage, metsFile)), full("content", path.Join(storage, premisFile))
	}
	generated := func(p string) bool {
		return p == metsPath || p == premisPath || metsSchema.MatchString(p) || p == "README.md" && areas != nil
	}
	names := []string{"a.txt", "b.txt", "d/a.txt", "d/e/c.doc", "metadata/m.xml", "schemas/s.xsd", "d/schemas/x", "<&>'\".txt", "ü %20?#.txt", "data/a.txt"}
	var areaNames []string
	for _, a := range sortedKeys(areas) {
		areaNames = append(areaNames, a)
	}
	cur := map[string]string{}
	versions := 0
	var contents []string
	classes := map[string]bool{}
	files := 0
	for k := genLength(t); k > 0; k-- {
		if rapid.Bool().Draw(t, "reload") {
			if err := h.reload(); err != nil {
				fail("%v", err)
			}
		}
		o, err := h.open(id)
		if err != nil {
			fail("%v", err)
		}
		if _, err := o.StartUpdate(nil, "m <"+user+">", user, "mailto:u", false); err != nil {
			fail("StartUpdate: %v", err)
		}
		next := copyMap(cur)
		touched := map[string]bool{}
		var desc []string
		add := func(area, p, c string, dedup bool) {
			f := full(area, p)
			if area == "" {
				f = full("content", p)
			}
			touched[f] = true
			next[f] = c
			desc = append(desc, fmt.Sprintf("%s:%q=%s dedup=%v", area, p, c, dedup))
			if err := o.AddData([]byte(c), p, dedup, area, false, false); err != nil {
				fail("AddData: %v", err)
			}
		}
		if primary != "" && (versions == 0 || rapid.IntRange(0, 3).Draw(t, "newPrimary") == 0) {
			c := rapid.SampledFrom([]string{"{}", "{1}", "content 0"}).Draw(t, "info")
			if primaryArea == "content" {
				add("", "info.json", c, rapid.Bool().Draw(t, "dedup"))
			} else {
				add("metadata", "info.json", c, rapid.Bool().Draw(t, "dedup"))
			}
		}
		for i := rapid.IntRange(0, 5).Draw(t, "steps"); i > 0; i-- {
			kind := rapid.IntRange(0, 9).Draw(t, "kind")
			if kind < 7 {
				area, p := "", rapid.SampledFrom(names).Draw(t, "path")
				if areas != nil && rapid.IntRange(0, 2).Draw(t, "otherArea") == 0 {
					area = rapid.SampledFrom(areaNames).Draw(t, "area")
				}
				f := full("content", p)
				if area != "" {
					f = full(area, p)
				}
				clash := touched[f]
				for q := range next {
					clash = clash || q != f && conflicts(q, f)
				}
				if clash {
					continue
				}
				c := fmt.Sprintf("content %d", rapid.IntRange(0, 9).Draw(t, "content"))
				if rapid.IntRange(0, 9).Draw(t, "empty") == 0 {
					c = ""
				}
				if len(contents) > 0 && rapid.IntRange(0, 3).Draw(t, "known") == 0 {
					c = rapid.SampledFrom(contents).Draw(t, "old")
				}
				contents = append(contents, c)
				add(area, p, c, rapid.Bool().Draw(t, "dedup"))
				continue
			}
			var l []string
			for _, p := range sortedKeys(cur) {
				if !touched[p] && p != primaryFull {
					l = append(l, p)
				}
			}
			if len(l) == 0 {
				continue
			}
			p := rapid.SampledFrom(l).Draw(t, "old")
			d := digestOf(cfg.Digest, []byte(cur[p]))
			touched[p] = true
			if kind == 9 {
				to := p + ".new"
				if _, ok := next[to]; ok || touched[to] {
					continue
				}
				desc = append(desc, fmt.Sprintf("rename %q to %q", p, to))
				touched[to] = true
				if err := o.RenameFile(p, to, d); err != nil {
					fail("RenameFile: %v", err)
				}
				next[to] = next[p]
				delete(next, p)
				continue
			}
			desc = append(desc, fmt.Sprintf("delete %q", p))
			if err := o.DeleteFile(p, d); err != nil {
				fail("DeleteFile: %v", err)
			}
			delete(next, p)
		}
		log = append(log, strings.Join(desc, "; "))
		if err := o.EndUpdate(); err != nil {
			fail("EndUpdate: %v", err)
		}
		if err := o.Close(); err != nil {
			fail("Close: %v", err)
		}
		inv, folder, err := h.inventory(id)
		if err != nil {
			fail("%v", err)
		}
		tree := h.w.snapshot(rootDir)
		if _, pr := checkRoot(tree, true); len(pr) > 0 {
			fail("storage root invalid: %s", joinProblems(pr))
		}
		if errs := validate(h.fsys, h.f); len(errs) > 0 {
			fail("validation: %v", errs)
		}
		if vnum(inv.head) == versions {
			if !sameState(cur, next) {
				fail("the session created no version")
			}
			continue
		}
		versions++
		cur = next
		// the user's files
		state := inv.logical(inv.head)
		want := map[string]string{}
		for p, c := range next {
			want[p] = digestOf(cfg.Digest, []byte(c))
		}
		got := map[string]string{}
		for p, d := range state {
			if !generated(p) {
				got[p] = d
			}
		}
		if d := filesDiff(got, want); d != "" {
			fail("version %s: %s", inv.head, d)
		}
		files += len(next)
		// the documents
		read := func(logical, name string) string {
			if typ == "extension" {
				p := path.Join(folder, "extensions/NNNN-mets", storage, strings.ReplaceAll(name, "%s", inv.head))
				data, ok := tree[p]
				if !ok {
					fail("there is no %s", p)
				}
				return data
			}
			l := inv.manifest[state[logical]]
			if len(l) == 0 {
				fail("version %s has no %s", inv.head, logical)
			}
			return tree[path.Join(folder, l[0])]
		}
		size := func(digest string) int {
			if l := inv.manifest[digest]; len(l) > 0 {
				return len(tree[path.Join(folder, l[0])])
			}
			return -1
		}
		var l []string
		checkMets(read(metsPath, metsFile), read(premisPath, premisFile), id, cfg.Digest, inv, inv.head, metsPath, premisPath, primaryFull, size, func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) })
		if len(l) > 0 {
			fail("version %s: %s\n%s", inv.head, strings.Join(l, "\n"), read(metsPath, metsFile))
		}
		for p := range next {
			if d := inv.manifest[state[p]]; len(d) > 1 {
				classes["several copies"] = true
			}
		}
	}
	classes["in "+typ] = true
	if perVersion {
		classes["one document per version"] = true
	}
	if versions > 1 {
		classes["several versions"] = true
	}
	if primary != "" {
		classes["primary metadata"] = true
	}
	if areas != nil {
		classes["areas"] = true
	}
	if withIndexer {
		classes["indexer"] = true
	}
	count("mets", strings.Join(log, "\n")+j(cfg.Exts)+id, files > 0, map[string]any{"extensions": extNames(cfg.Exts), "object": id, "sessions": log}, sortedKeys(classes)...)
}

// metaNames are the files extensions generate.
var metaNames = regexp.MustCompile(`(^|/)((indexer|migration|filesystem)_v[0-9]+\.jsonl(\.br|\.gz)?|README\.md|about\.json|\.keep)$`)

// propMetsRecords looks at documents which use the records of other extensions.
func propMetsRecords(t *rapid.T) {
	tmp, err := os.MkdirTemp("", "c30")
	if err != nil {
		infra("%v", err)
	}
	defer os.RemoveAll(tmp)
	logFile := filepath.Join(tmp, "calls")
	mig := &migration.Migration{}
	cfg := &histCfg{Version: rapid.SampledFrom([]string{"1.0", "1.1"}).Draw(t, "version"), Layout: layouts()[2].exts, Digest: rapid.SampledFrom([]string{"sha512", "sha256"}).Draw(t, "digest")}
	sub := rapid.Bool().Draw(t, "areas")
	// the documents come last, or the records are no files of the object
	last := rapid.Bool().Draw(t, "last")
	manager := objManager
	if last {
		manager = ext("NNNN-gocfl-extension-manager",
			"sort", map[string]any{
				"ObjectContentPath": []string{"NNNN-direct-clean-path-layout", "NNNN-content-subpath"},
				"ObjectChange":      []string{"NNNN-content-subpath", "NNNN-indexer", "NNNN-migration", "NNNN-filesystem", "NNNN-metafile", "NNNN-mets"}},
			"exclusion", map[string]any{})
	}
	record := func(name string, kv ...any) extCfg {
		typ, store := "extension", "metadata"
		if last {
			typ = rapid.SampledFrom([]string{"area", "path", "extension"}).Draw(t, "storageType")
		}
		if typ == "area" {
			store = "content"
			if sub && rapid.Bool().Draw(t, "other") {
				store = "metadata"
			}
		}
		kv = append(kv, "storageType", typ, "storageName", store, "compress", rapid.SampledFrom([]string{"none", "gzip", "brotli"}).Draw(t, "compress"))
		return ext(name, kv...)
	}
	cfg.Exts = []extCfg{initialExt, manager}
	areas := map[string]string{"": "", "content": ""}
	if sub {
		areas = map[string]string{"": "data", "content": "data", "metadata": "meta"}
		cfg.Exts = append(cfg.Exts, ext("NNNN-content-subpath", "subPath", map[string]any{
			"content": map[string]any{"path": "data", "description": "c"}, "metadata": map[string]any{"path": "meta", "description": "m"}}))
	}
	full := func(area, p string) string { return path.Join(areas[area], p) }
	classes := map[string]bool{}
	withIndexer := rapid.Bool().Draw(t, "indexer")
	withMigration := withIndexer && rapid.Bool().Draw(t, "migration")
	withFS := rapid.IntRange(0, 2).Draw(t, "filesystem") > 0
	folders := ""
	if withIndexer {
		cfg.Exts = append(cfg.Exts, record("NNNN-indexer", "actions", []string{"siegfried"}))
		classes["indexer"] = true
	}
	if withMigration {
		cfg.Exts = append(cfg.Exts, record("NNNN-migration"))
	}
	if withFS {
		folders = rapid.SampledFrom([]string{"", ".keep"}).Draw(t, "folders")
		cfg.Exts = append(cfg.Exts, record("NNNN-filesystem", "folders", folders))
		classes["filesystem"] = true
	}
	params := map[string]string{}
	withFile := rapid.IntRange(0, 2).Draw(t, "metafile") == 0
	if withFile {
		c := record("NNNN-metafile", "name", "about.json", "schema", "schema.json", "schemaUrl", "https://example.org/s.json")
		delete(c, "compress")
		c["__files"] = map[string]string{"schema.json": "{}"}
		cfg.Exts = append(cfg.Exts, c)
		classes["metafile"] = true
	}
	primary, primaryArea := "", ""
	if rapid.IntRange(0, 2).Draw(t, "primary") == 0 {
		primary, primaryArea = "info.json", "content"
		if sub && rapid.Bool().Draw(t, "metadata") {
			primaryArea = "metadata"
		}
	}
	typ := rapid.SampledFrom([]string{"area", "path", "extension"}).Draw(t, "metsType")
	storage := "content"
	if typ == "area" && sub && rapid.Bool().Draw(t, "metsMetadata") {
		storage = "metadata"
	}
	mets := ext("NNNN-mets", "storageType", typ, "storageName", storage, "metsFile", "mets.xml", "premisFile", "premis.xml", "primaryDescriptiveMetadata", "")
	primaryFull := ""
	if primary != "" {
		mets["primaryDescriptiveMetadata"] = "json:" + primary
		if sub {
			mets["primaryDescriptiveMetadata"] = "json:" + primaryArea + ":" + primary
		}
		primaryFull = full(primaryArea, primary)
		classes["primary metadata"] = true
	}
	if typ == "extension" {
		mets["metsFile"], mets["premisFile"] = "mets_%s.xml", "premis_%s.xml"
	}
	cfg.Exts = append(cfg.Exts, mets)
	if rapid.Bool().Draw(t, "clean") {
		cfg.Exts = append(cfg.Exts, dclean(true))
	}
	var log []string
	fail := func(format string, a ...any) {
		t.Helper()
		t.Fatalf("extensions %s, digest %s, sessions\n  %s\n%s", j(cfg.Exts), cfg.Digest, strings.Join(log, "\n  "), cut(fmt.Sprintf(format, a...), 2500))
	}
	h, err := newHist(cfg)
	if err != nil {
		fail("%v", err)
	}
	h.f = formatFactory(factoryOpts{migration: mig, params: params})
	if err := h.reload(); err != nil {
		fail("%v", err)
	}
	var metsPath, premisPath string
	switch typ {
	case "area":
		metsPath, premisPath = full(storage, "mets.xml"), full(storage, "premis.xml")
	case "path":
		metsPath, premisPath = full("content", storage+"/mets.xml"), full("content", storage+"/premis.xml")
	}
	generated := func(p string) bool {
		return p == metsPath || p == premisPath || metsSchema.MatchString(p) || metaNames.MatchString(p)
	}
	cur := map[string]string{} // logical path to digest
	versions, migrated := 0, 0
	migrations := map[string]*extension.MigrationResult{}
	var contents []string
	var rs []rule
	for k := genLength(t); k > 0; k-- {
		if withMigration && (rs == nil || rapid.IntRange(0, 2).Draw(t, "newRules") == 0) {
			rs = genRules(t, false)
			for i := range rs {
				if rs[i].Strategy == "folder" {
					rs[i].Strategy = "add"
				}
			}
		}
		setRules(mig, rs, logFile)
		if rapid.Bool().Draw(t, "reload") {
			if err := h.reload(); err != nil {
				fail("%v", err)
			}
		}
		about := map[string]string{}
		if withFile {
			for _, k := range []string{"user", "address", "organisation", "organisation_address"} {
				if v := rapid.SampledFrom([]string{"", "A <&> B", "x:y"}).Draw(t, k); v != "" {
					about[k] = v
				}
			}
			file := filepath.Join(tmp, fmt.Sprintf("about%d.json", k))
			if err := os.WriteFile(file, []byte(j(about)), 0o644); err != nil {
				infra("%v", err)
			}
			params["ext-NNNN-metafile-source"] = file // for the manager of the object
		}
		o, err := h.open("obj")
		if err != nil {
			fail("%v", err)
		}
		var desc []string
		if withFile {
			desc = append(desc, "about "+j(about))
		}
		for _, r := range rs {
			desc = append(desc, fmt.Sprintf("%+v", r))
		}
		user := rapid.SampledFrom([]string{"u", "v <v>"}).Draw(t, "user")
		if _, err := o.StartUpdate(newWorld().mount("/src"), "m", user, "mailto:"+user[:1], false); err != nil {
			fail("StartUpdate: %v", err)
		}
		next := copyMap(cur)
		touched := map[string]bool{}
		add := func(area, p, c string) bool {
			f := full(area, p)
			for q := range touched {
				if conflicts(f, q) || f == q {
					return false
				}
			}
			for q := range next {
				if q != f && conflicts(f, q) {
					return false
				}
			}
			touched[f] = true
			next[f] = digestOf(cfg.Digest, []byte(c))
			desc = append(desc, fmt.Sprintf("%q=%q", f, firstLine(c)))
			return true
		}
		content := func() string {
			if rapid.IntRange(0, 5).Draw(t, "empty") == 0 {
				return ""
			}
			if len(contents) > 0 && rapid.IntRange(0, 3).Draw(t, "known") == 0 {
				return rapid.SampledFrom(contents).Draw(t, "content")
			}
			c := fmt.Sprintf("fmt:%d;id=%d %s\n%s", rapid.IntRange(0, 5).Draw(t, "format"), len(contents), rapid.SampledFrom([]string{"odd", "even"}).Draw(t, "odd"), padding[:rapid.IntRange(0, len(padding)).Draw(t, "size")])
			contents = append(contents, c)
			return c
		}
		if primary != "" && (versions == 0 || rapid.IntRange(0, 3).Draw(t, "newPrimary") == 0) {
			c := fmt.Sprintf("{%d}", rapid.IntRange(0, 3).Draw(t, "info"))
			if rapid.IntRange(0, 3).Draw(t, "emptyInfo") == 0 {
				c = ""
			}
			add(primaryArea, primary, c)
			if err := o.AddData([]byte(c), primary, rapid.Bool().Draw(t, "dedup"), primaryArea, false, false); err != nil {
				fail("AddData: %v", err)
			}
		}
		for _, p := range sortedKeys(cur) {
			if rapid.IntRange(0, 7).Draw(t, "delete") == 0 && !touched[p] && p != primaryFull {
				touched[p] = true
				delete(next, p)
				desc = append(desc, fmt.Sprintf("delete %q", p))
				if err := o.DeleteFile(p, cur[p]); err != nil {
					fail("DeleteFile: %v", err)
				}
			}
		}
		for _, area := range sortedKeys(areas) {
			if area == "content" || rapid.IntRange(0, 3).Draw(t, "folder") == 0 {
				continue
			}
			dir := filepath.Join(tmp, fmt.Sprintf("%d-%s", k, area))
			if err := os.MkdirAll(dir, 0o755); err != nil {
				infra("%v", err)
			}
			for i := rapid.IntRange(0, 4).Draw(t, "files"); i > 0; i-- {
				p := rapid.SampledFrom([]string{"a.txt", "b.txt", "d/a.txt", "d/e/c.doc", "x.y.txt", "noext", "ü z.txt"}).Draw(t, "path")
				if c := content(); add(area, p, c) {
					f := filepath.Join(dir, p)
					_ = os.MkdirAll(filepath.Dir(f), 0o755)
					if err := os.WriteFile(f, []byte(c), 0o644); err != nil {
						infra("%v", err)
					}
				}
			}
			if rapid.Bool().Draw(t, "emptyFolder") {
				_ = os.MkdirAll(filepath.Join(dir, "empty"), 0o755)
			}
			src, err := osfsrw.NewFS(dir, logger)
			if err != nil {
				infra("%v", err)
			}
			if err := o.AddFolder(src, nil, rapid.Bool().Draw(t, "dedup"), area); err != nil {
				fail("AddFolder: %v", err)
			}
		}
		log = append(log, strings.Join(desc, "; "))
		if err := o.EndUpdate(); err != nil {
			fail("EndUpdate: %v", err)
		}
		if err := o.Close(); err != nil {
			fail("Close: %v", err)
		}
		inv, folder, err := h.inventory("obj")
		if err != nil {
			if len(next) == 0 && versions == 0 {
				return
			}
			fail("%v", err)
		}
		tree := h.w.snapshot(rootDir)
		if _, pr := checkRoot(tree, true); len(pr) > 0 {
			fail("storage root invalid: %s", joinProblems(pr))
		}
		if errs := validate(h.fsys, h.f); len(errs) > 0 {
			fail("validation: %v", errs)
		}
		head := vnum(inv.head)
		if head == versions {
			continue
		}
		sr, err := loadRoot(newCtx(), h.fsys, h.f)
		if err != nil {
			fail("%v", err)
		}
		sm, err := sr.ExtractMeta("", "obj")
		if err != nil {
			fail("ExtractMeta: %v", err)
		}
		meta := sm.Objects["obj"]
		for n := versions + 1; n <= head; n++ {
			v := ""
			for w := range inv.versions {
				if vnum(w) == n {
					v = w
				}
			}
			// as of version v
			then := *inv
			then.head = v
			then.manifest = map[string][]string{}
			for d, l := range inv.manifest {
				for _, p := range l {
					if vnum(strings.SplitN(p, "/", 2)[0]) <= n {
						then.manifest[d] = append(then.manifest[d], p)
					}
				}
			}
			state := then.logical(v)
			if n == versions+1 {
				got := map[string]string{}
				for p, d := range state {
					if !generated(p) {
						got[p] = d
					}
				}
				if d := filesDiff(got, next); d != "" {
					fail("version %s: %s", v, d)
				}
			}
			read := func(logical, name string) string {
				if typ == "extension" {
					p := path.Join(folder, "extensions/NNNN-mets", storage, strings.ReplaceAll(name, "%s", v))
					data, ok := tree[p]
					if !ok {
						fail("there is no %s", p)
					}
					return data
				}
				l := inv.manifest[state[logical]]
				if len(l) == 0 {
					fail("version %s has no %s", v, logical)
				}
				return tree[path.Join(folder, l[0])]
			}
			size := func(digest string) int {
				if l := inv.manifest[digest]; len(l) > 0 {
					return len(tree[path.Join(folder, l[0])])
				}
				return -1
			}
			var l []string
			complain := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
			metsDoc, premisDoc := read(metsPath, "mets_%s.xml"), read(premisPath, "premis_%s.xml")
			checkMets(metsDoc, premisDoc, "obj", cfg.Digest, &then, v, metsPath, premisPath, primaryFull, size, complain)
			// the agents
			who, address := user, "mailto:"+user[:1]
			if n > versions+1 {
				who, address = "gocfl", "https://github.com/je4/gocfl"
			}
			if about["user"] != "" {
				who, address = about["user"], about["address"]
			}
			checkAgents(metsDoc, premisDoc, who, address, about["organisation"], about["organisation_address"], complain)
			if len(l) == 0 {
				// the migrations of this session belong to the automated version
				migs := migrations
				if n > versions+1 {
					migs = migrationsOf(meta)
				}
				migrated += checkMetsRecords(metsDoc, premisDoc, meta, n == head, migs, complain)
			}
			if len(l) > 0 {
				fail("version %s: %s\n%s\n%s", v, strings.Join(l, "\n"), cut(metsDoc, 1000), cut(premisDoc, 1000))
			}
		}
		if head > versions+1 {
			classes["automated version"] = true
		}
		versions = head
		migrations = migrationsOf(meta)
		cur = map[string]string{}
		for p, d := range inv.logical(inv.head) {
			if !generated(p) {
				cur[p] = d
			}
		}
	}
	if migrated > 0 {
		classes["migration events"] = true
	}
	if folders != "" {
		classes["files for folders"] = true
	}
	if last {
		classes["records among the files"] = true
	}
	count("mets records", strings.Join(log, "\n")+j(cfg.Exts), versions > 0 && (withIndexer || withFS), map[string]any{"extensions": extNames(cfg.Exts), "sessions": log}, sortedKeys(classes)...)
}

// checkAgents looks for the person and the organisation responsible.
func checkAgents(metsDoc, premisDoc, who, address, organisation, organisationAddress string, complain func(string, ...any)) {
	m, err := parseXML(metsDoc)
	if err != nil {
		return
	}
	p, err := parseXML(premisDoc)
	if err != nil {
		return
	}
	for _, h := range m.all("metsHdr") {
		for _, a := range h.all("agent") {
			if a.attrs["ROLE"] == "ARCHIVIST" && (a.get("name") != who || a.get("note") != address) {
				complain("archivist is %q (%s), want %q (%s)", a.get("name"), a.get("note"), who, address)
			}
		}
	}
	agents := map[string]bool{}
	for _, a := range p.all("agent") {
		agents[a.get("agentIdentifierType")+" "+a.get("agentName")+" "+a.get("agentIdentifierValue")] = true
	}
	for _, w := range []string{"local " + who + " " + address, "organization " + organisation + " " + organisationAddress} {
		if !agents[w] {
			complain("no agent %q of PREMIS: %v", w, sortedKeys(agents))
		}
	}
}

func migrationsOf(meta *ocfl.ObjectMetadata) map[string]*extension.MigrationResult {
	r := map[string]*extension.MigrationResult{}
	for d, f := range meta.Files {
		if x, ok := f.Extension["NNNN-migration"].(*extension.MigrationResult); ok {
			r[d] = x
		}
	}
	return r
}

// checkMetsRecords compares the documents with the records of the indexer and of the migrations.
func checkMetsRecords(metsDoc, premisDoc string, meta *ocfl.ObjectMetadata, indexed bool, migrations map[string]*extension.MigrationResult, complain func(string, ...any)) int {
	m, err := parseXML(metsDoc)
	if err != nil {
		return 0
	}
	p, err := parseXML(premisDoc)
	if err != nil {
		return 0
	}
	files := map[string]string{} // id to checksum
	type event struct{ source, target, outcome, agent string }
	want := map[event]int{}
	for _, fs := range m.all("fileSec") {
		for _, f := range fs.all("file") {
			d := f.attrs["CHECKSUM"]
			files[f.attrs["ID"]] = d
			fm := meta.Files[d]
			if fm == nil {
				complain("there is no metadata of %s", d)
				continue
			}
			if x, ok := fm.Extension["NNNN-indexer"].(*ironmaiden.ResultV2); ok && indexed {
				if mime := f.attrs["MIMETYPE"]; mime != x.Mimetype {
					complain("file %q has type %q, want %q", f.attrs["ID"], mime, x.Mimetype)
				}
			}
			if x, ok := migrations[d]; ok {
				e := event{source: x.Source, target: d, outcome: "success", agent: x.ID}
				if x.Error != "" {
					e.outcome, e.target = "fail", ""
				}
				want[e]++
			}
		}
	}
	// files of the metadata area are no objects, but have identifiers
	located := map[string]string{}
	for i, d := range files {
		located[i] = d
	}
	for _, r := range m.all("dmdSec") {
		if i, ok := strings.CutPrefix(r.attrs["ID"], "dmdSec-ext-"); ok && len(r.all("mdRef")) > 0 {
			located[i] = r.all("mdRef")[0].attrs["CHECKSUM"]
		}
	}
	for _, o := range p.all("object") {
		d := files[o.get("objectIdentifierValue")]
		if fm := meta.Files[d]; fm != nil {
			if x, ok := fm.Extension["NNNN-indexer"].(*ironmaiden.ResultV2); ok && indexed && x.Mimetype != "" {
				found := false
				for _, f := range o.all("formatName") {
					found = found || strings.TrimSpace(f.text) == x.Mimetype
				}
				if !found {
					complain("object %s lacks its type %q", d, x.Mimetype)
				}
			}
		}
	}
	n := 0
	got := map[event]int{}
	ids := map[string]bool{}
	for _, e := range p.all("event") {
		i := e.get("eventIdentifierValue")
		if i == "" || ids[i] {
			complain("event %q twice", i)
		}
		ids[i] = true
		if e.get("eventType") != "migration" {
			continue
		}
		n++
		ev := event{outcome: e.get("eventOutcome"), agent: e.get("linkingAgentIdentifierValue")}
		for _, l := range e.all("linkingObjectIdentifier") {
			d, ok := located[l.get("linkingObjectIdentifierValue")]
			if !ok {
				complain("migration event refers to unknown file %q", l.get("linkingObjectIdentifierValue"))
			}
			switch l.get("linkingObjectRole") {
			case "source":
				ev.source = d
			case "outcome":
				ev.target = d
			}
		}
		got[ev]++
	}
	known := map[string]bool{}
	for _, d := range located {
		known[d] = true
	}
	for e, k := range want {
		if !known[e.source] {
			// the source is not part of this version
			delete(want, e)
			e.source = ""
			want[e] += k
		}
	}
	for e, k := range want {
		if got[e] != k {
			complain("%d migration events %+v, want %d", got[e], e, k)
		}
	}
	for e := range got {
		if want[e] == 0 {
			complain("unexpected migration event %+v", e)
		}
	}
	return n
}

func TestC30(t *testing.T) {
	runCheck(t, "mets", 3000, 60000, propMets)
	runCheck(t, "mets records", 1200, 30000, propMetsRecords)
}
