package zzverif

// An independent implementation of the OCFL 1.0/1.1 specification rules for
// storage roots and objects, working on snapshots (path -> content).

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/crypto/blake2b"
)

func hashOf(alg string) hash.Hash {
	switch alg {
	case "md5":
		return md5.New()
	case "sha1":
		return sha1.New()
	case "sha256":
		return sha256.New()
	case "sha512":
		return sha512.New()
	case "sha512/256":
		return sha512.New512_256()
	case "blake2b-160":
		h, _ := blake2b.New(20, nil)
		return h
	case "blake2b-256":
		h, _ := blake2b.New256(nil)
		return h
	case "blake2b-384":
		h, _ := blake2b.New384(nil)
		return h
	case "blake2b-512":
		h, _ := blake2b.New512(nil)
		return h
	}
	return nil
}

func digestOf(alg string, data []byte) string {
	h := hashOf(alg)
	if h == nil {
		infra("oracle: unknown digest %s", alg)
	}
	h.Write(data)
	return hex.EncodeToString(h.Sum(nil))
}

// jparse parses JSON into map/slice/string/json.Number/bool/nil and reports
// duplicate keys.
func jparse(data []byte) (any, error) {
	if !utf8.Valid(data) {
		return nil, fmt.Errorf("not valid UTF-8")
	}
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var val func() (any, error)
	val = func() (any, error) {
		tok, err := dec.Token()
		if err != nil {
			return nil, err
		}
		d, ok := tok.(json.Delim)
		if !ok {
			return tok, nil
		}
		switch d {
		case '{':
			m := map[string]any{}
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return nil, err
				}
				ks := k.(string)
				if _, dup := m[ks]; dup {
					return nil, fmt.Errorf("duplicate key %q", ks)
				}
				v, err := val()
				if err != nil {
					return nil, err
				}
				m[ks] = v
			}
			if _, err := dec.Token(); err != nil {
				return nil, err
			}
			return m, nil
		case '[':
			l := []any{}
			for dec.More() {
				v, err := val()
				if err != nil {
					return nil, err
				}
				l = append(l, v)
			}
			if _, err := dec.Token(); err != nil {
				return nil, err
			}
			return l, nil
		}
		return nil, fmt.Errorf("unexpected %v", d)
	}
	v, err := val()
	if err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err == nil {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

type oVer struct {
	created, message    string
	userName, userAddr  string
	hasMessage, hasUser bool
	hasAddr             bool
	state               map[string][]string
}

type oInv struct {
	id, typ, alg, head, contentDir string
	manifest                       map[string][]string
	versions                       map[string]*oVer
	fixity                         map[string]map[string][]string
}

func (i *oInv) cdir() string {
	if i.contentDir == "" {
		return "content"
	}
	return i.contentDir
}

// versionNums returns the version names in numeric order.
func (i *oInv) versionNames() []string {
	var l []string
	for v := range i.versions {
		l = append(l, v)
	}
	sort.Slice(l, func(a, b int) bool { return vnum(l[a]) < vnum(l[b]) })
	return l
}

var reVersion = regexp.MustCompile(`^v(0*)([1-9][0-9]*)$`)

func vnum(v string) int {
	m := reVersion.FindStringSubmatch(v)
	if m == nil {
		return -1
	}
	n, err := strconv.Atoi(m[2])
	if err != nil {
		return -1
	}
	return n
}

// logical returns logical path -> digest (lower case) of a version.
func (i *oInv) logical(v string) map[string]string {
	res := map[string]string{}
	ver := i.versions[v]
	if ver == nil {
		return nil
	}
	for d, ps := range ver.state {
		for _, p := range ps {
			res[p] = strings.ToLower(d)
		}
	}
	return res
}

type problems struct{ l []string }

func (p *problems) add(format string, a ...any) { p.l = append(p.l, fmt.Sprintf(format, a...)) }

func asPaths(v any) ([]string, bool) {
	l, ok := v.([]any)
	if !ok {
		return nil, false
	}
	res := []string{}
	for _, x := range l {
		s, ok := x.(string)
		if !ok {
			return nil, false
		}
		res = append(res, s)
	}
	return res, true
}

func checkPath(p string) string {
	if p == "" {
		return "empty path"
	}
	if strings.HasPrefix(p, "/") || strings.HasSuffix(p, "/") {
		return "begins or ends with /"
	}
	for _, s := range strings.Split(p, "/") {
		if s == "" || s == "." || s == ".." {
			return "bad path segment"
		}
	}
	return ""
}

// checkPathSet checks uniqueness and that no path is a folder of another one.
func checkPathSet(pr *problems, what string, paths []string) {
	seen := map[string]bool{}
	for _, p := range paths {
		if s := checkPath(p); s != "" {
			pr.add("%s: %q: %s", what, p, s)
		}
		if seen[p] {
			pr.add("%s: %q occurs twice", what, p)
		}
		seen[p] = true
	}
	for p := range seen {
		for d := path.Dir(p); d != "." && d != "/"; d = path.Dir(d) {
			if seen[d] {
				pr.add("%s: %q is both a file and a folder of %q", what, d, p)
			}
		}
	}
}

var reSeconds = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)$`)

// parseInv parses an inventory and checks everything that can be decided from
// the document alone.
func parseInv(data []byte, pr *problems, where string) *oInv {
	v, err := jparse(data)
	if err != nil {
		pr.add("%s: invalid JSON: %v", where, err)
		return nil
	}
	m, ok := v.(map[string]any)
	if !ok {
		pr.add("%s: not an object", where)
		return nil
	}
	inv := &oInv{manifest: map[string][]string{}, versions: map[string]*oVer{}, fixity: map[string]map[string][]string{}}
	str := func(k string, must bool) string {
		x, ok := m[k]
		if !ok {
			if must {
				pr.add("%s: %s missing", where, k)
			}
			return ""
		}
		s, ok := x.(string)
		if !ok || s == "" {
			pr.add("%s: %s is not a non-empty string", where, k)
		}
		return s
	}
	inv.id = str("id", true)
	inv.typ = str("type", true)
	inv.alg = str("digestAlgorithm", true)
	inv.head = str("head", true)
	inv.contentDir = str("contentDirectory", false)
	switch inv.typ {
	case "https://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory":
	default:
		pr.add("%s: type %q", where, inv.typ)
	}
	if inv.alg != "sha512" && inv.alg != "sha256" {
		pr.add("%s: digestAlgorithm %q", where, inv.alg)
		return nil
	}
	if inv.contentDir == "." || inv.contentDir == ".." || strings.Contains(inv.contentDir, "/") {
		pr.add("%s: contentDirectory %q", where, inv.contentDir)
	}
	dlen := hashOf(inv.alg).Size() * 2
	digestMap := func(x any, what string, size int) map[string][]string {
		res := map[string][]string{}
		mm, ok := x.(map[string]any)
		if !ok {
			pr.add("%s: %s is not an object", where, what)
			return res
		}
		low := map[string]bool{}
		for d, ps := range mm {
			l, ok := asPaths(ps)
			if !ok {
				pr.add("%s: %s %s: not a list of strings", where, what, d)
				continue
			}
			if len(l) == 0 {
				pr.add("%s: %s %s: empty list of paths", where, what, d)
			}
			if low[strings.ToLower(d)] {
				pr.add("%s: %s %s: digest occurs twice", where, what, d)
			}
			low[strings.ToLower(d)] = true
			if size > 0 {
				if b, err := hex.DecodeString(d); err != nil || len(b)*2 != size {
					pr.add("%s: %s %q: not a digest", where, what, d)
				}
			}
			res[d] = l
		}
		return res
	}
	mx, ok := m["manifest"]
	if !ok {
		pr.add("%s: manifest missing", where)
		mx = map[string]any{}
	}
	inv.manifest = digestMap(mx, "manifest", dlen)
	if fx, ok := m["fixity"]; ok {
		fm, ok := fx.(map[string]any)
		if !ok {
			pr.add("%s: fixity is not an object", where)
		}
		for alg, x := range fm {
			size := 0
			if h := hashOf(alg); h != nil {
				size = h.Size() * 2
			}
			inv.fixity[alg] = digestMap(x, "fixity "+alg, size)
		}
	}
	vx, ok := m["versions"].(map[string]any)
	if !ok {
		pr.add("%s: versions missing or not an object", where)
		return inv
	}
	pad := map[string]bool{}
	nums := []int{}
	for name, x := range vx {
		mt := reVersion.FindStringSubmatch(name)
		if mt == nil {
			pr.add("%s: bad version name %q", where, name)
			continue
		}
		if mt[1] == "" {
			pad["none"] = true
		} else {
			pad[strconv.Itoa(len(name))] = true
		}
		nums = append(nums, vnum(name))
		vm, ok := x.(map[string]any)
		if !ok {
			pr.add("%s: version %s is not an object", where, name)
			continue
		}
		ov := &oVer{state: map[string][]string{}}
		inv.versions[name] = ov
		c, ok := vm["created"].(string)
		if !ok {
			pr.add("%s: version %s: created missing or not a string", where, name)
		} else if _, err := time.Parse(time.RFC3339, c); err != nil || !reSeconds.MatchString(c) {
			pr.add("%s: version %s: created %q is not RFC3339", where, name, c)
		}
		ov.created = c
		if x, ok := vm["message"]; ok {
			if ov.message, ok = x.(string); !ok {
				pr.add("%s: version %s: message is not a string", where, name)
			}
			ov.hasMessage = true
		}
		if x, ok := vm["user"]; ok {
			ov.hasUser = true
			u, ok := x.(map[string]any)
			if !ok {
				pr.add("%s: version %s: user is not an object", where, name)
			}
			if ov.userName, ok = u["name"].(string); !ok {
				pr.add("%s: version %s: user without name", where, name)
			}
			if a, ok := u["address"]; ok {
				ov.hasAddr = true
				if ov.userAddr, ok = a.(string); !ok {
					pr.add("%s: version %s: user address is not a string", where, name)
				}
			}
		}
		sx, ok := vm["state"]
		if !ok {
			pr.add("%s: version %s: state missing", where, name)
			continue
		}
		ov.state = digestMap(sx, "state of "+name, dlen)
		all := []string{}
		for d, ps := range ov.state {
			all = append(all, ps...)
			if _, ok := inv.manifest[d]; !ok {
				found := false
				for md := range inv.manifest {
					if strings.EqualFold(md, d) {
						found = true
					}
				}
				if !found {
					pr.add("%s: state of %s: digest %s not in manifest", where, name, d)
				}
			}
		}
		checkPathSet(pr, where+": state of "+name, all)
	}
	if len(nums) == 0 {
		pr.add("%s: no versions", where)
	}
	sort.Ints(nums)
	for k, n := range nums {
		if n != k+1 {
			pr.add("%s: version sequence %v", where, nums)
			break
		}
	}
	if len(pad) > 1 {
		pr.add("%s: mixed version padding", where)
	}
	if len(nums) > 0 && (inv.versions[inv.head] == nil || vnum(inv.head) != nums[len(nums)-1]) {
		pr.add("%s: head %q is not the most recent version", where, inv.head)
	}
	// content paths
	all := []string{}
	used := map[string]bool{}
	for _, v := range inv.versions {
		for d := range v.state {
			used[strings.ToLower(d)] = true
		}
	}
	for d, ps := range inv.manifest {
		all = append(all, ps...)
		if !used[strings.ToLower(d)] && inv.typ != "https://ocfl.io/1.0/spec/#inventory" {
			pr.add("%s: manifest digest %s of %v not used by any version", where, d, ps)
		}
		for _, p := range ps {
			parts := strings.SplitN(p, "/", 3)
			if len(parts) < 3 || inv.versions[parts[0]] == nil || parts[1] != inv.cdir() {
				pr.add("%s: content path %q is not below a version's content folder", where, p)
			}
		}
	}
	checkPathSet(pr, where+": manifest", all)
	inMan := map[string]bool{}
	for _, p := range all {
		inMan[p] = true
	}
	for alg, m := range inv.fixity {
		all := []string{}
		for _, ps := range m {
			all = append(all, ps...)
			for _, p := range ps {
				if !inMan[p] {
					pr.add("%s: fixity %s: %q not in manifest", where, alg, p)
				}
			}
		}
		checkPathSet(pr, where+": fixity "+alg, all)
	}
	return inv
}

var reSidecar = regexp.MustCompile(`^([0-9a-fA-F]+)[ \t]+inventory\.json\n?$`)

// what is left open when judging files of others: additional whitespace
var reSidecarLoose = regexp.MustCompile(`^[\s\v]*([0-9a-fA-F]+)[\s\v]+inventory\.json[\s\v]*$`)

// checkObject applies all object rules to the files of an object root.
// own selects the stricter rules that hold for what this software writes
// (every version has its inventory).
func checkObject(files map[string]string, own bool) (*oInv, []string) {
	pr := &problems{}
	// declaration
	decl := ""
	for f := range files {
		if !strings.Contains(f, "/") && strings.HasPrefix(f, "0=") {
			if decl != "" {
				pr.add("several declarations")
			}
			decl = f
		}
	}
	switch decl {
	case "":
		pr.add("no declaration")
	case "0=ocfl_object_1.0", "0=ocfl_object_1.1":
		if files[decl] != strings.TrimPrefix(decl, "0=")+"\n" {
			pr.add("declaration content %q", files[decl])
		}
	default:
		pr.add("declaration %q", decl)
	}
	raw, ok := files["inventory.json"]
	if !ok {
		pr.add("no inventory.json")
		return nil, pr.l
	}
	inv := parseInv([]byte(raw), pr, "inventory")
	if inv == nil {
		return nil, pr.l
	}
	if strings.HasPrefix(decl, "0=ocfl_object_") && inv.typ != "https://ocfl.io/"+strings.TrimPrefix(decl, "0=ocfl_object_")+"/spec/#inventory" {
		pr.add("type %q does not fit declaration %q", inv.typ, decl)
	}
	side := func(prefix string, inv *oInv, raw string) {
		s, ok := files[prefix+"inventory.json."+inv.alg]
		if !ok {
			pr.add("%ssidecar missing", prefix)
			return
		}
		re := reSidecarLoose
		if own {
			re = reSidecar
		}
		m := re.FindStringSubmatch(s)
		if m == nil {
			pr.add("%ssidecar malformed: %q", prefix, s)
			return
		}
		if !strings.EqualFold(m[1], digestOf(inv.alg, []byte(raw))) {
			pr.add("%ssidecar has the wrong digest", prefix)
		}
	}
	side("", inv, raw)
	// object root content
	for f := range files {
		top, _, sub := strings.Cut(f, "/")
		if !sub {
			switch top {
			case decl, "inventory.json", "inventory.json." + inv.alg:
			default:
				pr.add("stray file %q in object root", f)
			}
			continue
		}
		if top != "extensions" && top != "logs" && inv.versions[top] == nil {
			pr.add("stray folder %q in object root", top)
		}
		if top == "extensions" && strings.Count(f, "/") == 1 && !strings.HasSuffix(f, "/") {
			pr.add("file %q in extensions folder", f)
		}
	}
	// content
	dig := map[string]string{}
	for d, ps := range inv.manifest {
		for _, p := range ps {
			dig[p] = strings.ToLower(d)
		}
	}
	for p, d := range dig {
		c, ok := files[p]
		if !ok {
			pr.add("manifest: %q does not exist", p)
		} else if digestOf(inv.alg, []byte(c)) != d {
			pr.add("manifest: wrong digest for %q", p)
		}
	}
	for alg, m := range inv.fixity {
		if hashOf(alg) == nil {
			continue
		}
		for d, ps := range m {
			for _, p := range ps {
				if c, ok := files[p]; ok && digestOf(alg, []byte(c)) != strings.ToLower(d) {
					pr.add("fixity %s: wrong digest for %q", alg, p)
				}
			}
		}
	}
	names := inv.versionNames()
	for _, v := range names {
		has := false
		for f := range files {
			if strings.HasPrefix(f, v+"/") {
				has = true
				break
			}
		}
		if !has {
			pr.add("no folder of version %s", v)
		}
	}
	for f := range files {
		parts := strings.SplitN(f, "/", 3)
		if len(parts) < 2 || inv.versions[parts[0]] == nil {
			continue
		}
		v := parts[0]
		if len(parts) == 3 && parts[1] == inv.cdir() {
			if parts[2] == "" {
				continue
			}
			if strings.HasSuffix(f, "/") {
				// empty folder?
				has := false
				for g := range files {
					if strings.HasPrefix(g, f) && g != f {
						has = true
						break
					}
				}
				if !has {
					pr.add("empty folder %q", f)
				}
				continue
			}
			if _, ok := dig[f]; !ok {
				pr.add("content file %q not in manifest", f)
			}
			continue
		}
		if f == v+"/" || f == v+"/inventory.json" || strings.HasPrefix(f, v+"/inventory.json.") && !strings.HasSuffix(f, "/") {
			continue
		}
		if len(parts) == 2 {
			pr.add("stray file %q", f)
		} else if own {
			pr.add("stray folder content %q", f)
		}
	}
	// version inventories
	for _, v := range names {
		vraw, ok := files[v+"/inventory.json"]
		if !ok {
			if own {
				pr.add("%s: no inventory", v)
			}
			for f := range files {
				if strings.HasPrefix(f, v+"/inventory.json") {
					pr.add("%s: sidecar without inventory", v)
				}
			}
			continue
		}
		if v == inv.head && vraw != raw {
			pr.add("%s: inventory differs from the root inventory", v)
		}
		vi := inv
		if vraw != raw {
			vi = parseInv([]byte(vraw), pr, v+" inventory")
		}
		if vi == nil {
			continue
		}
		side(v+"/", vi, vraw)
		for f := range files {
			if strings.HasPrefix(f, v+"/inventory.json.") && f != v+"/inventory.json."+vi.alg {
				pr.add("stray sidecar %q", f)
			}
		}
		if vi.id != inv.id {
			pr.add("%s: id %q differs from %q", v, vi.id, inv.id)
		}
		if vi.head != v {
			pr.add("%s: head is %q", v, vi.head)
		}
		if vi.cdir() != inv.cdir() {
			pr.add("%s: content directory %q differs", v, vi.contentDir)
		}
		if vi.typ > inv.typ {
			pr.add("%s: type %q later than root's", v, vi.typ)
		}
		// states
		for vv := range vi.versions {
			if inv.versions[vv] == nil {
				pr.add("%s: version %s not in root inventory", v, vv)
				continue
			}
			a, b := vi.logical(vv), inv.logical(vv)
			if len(a) != len(b) {
				pr.add("%s: state of %s differs from root", v, vv)
				continue
			}
			for p, d := range a {
				e, ok := b[p]
				if !ok {
					pr.add("%s: state of %s: %q not in root", v, vv, p)
				} else if vi.alg == inv.alg && d != e {
					pr.add("%s: state of %s: %q has another digest in root", v, vv, p)
				} else if vi.alg != inv.alg {
					// compare by content
					pa, pb := pathsFor(vi.manifest, d), pathsFor(inv.manifest, e)
					if len(pa) == 0 || len(pb) == 0 || files[pa[0]] != files[pb[0]] {
						pr.add("%s: state of %s: %q has other content in root", v, vv, p)
					}
				}
			}
		}
		// manifest covers content of versions up to v
		vdig := map[string]string{}
		for d, ps := range vi.manifest {
			for _, p := range ps {
				vdig[p] = strings.ToLower(d)
				if vnum(strings.SplitN(p, "/", 2)[0]) > vnum(v) {
					pr.add("%s: manifest lists later content %q", v, p)
				}
				c, ok := files[p]
				if !ok {
					pr.add("%s: manifest: %q does not exist", v, p)
				} else if digestOf(vi.alg, []byte(c)) != strings.ToLower(d) {
					pr.add("%s: manifest: wrong digest for %q", v, p)
				}
			}
		}
		for alg, m := range vi.fixity {
			if hashOf(alg) == nil {
				continue
			}
			for d, ps := range m {
				for _, p := range ps {
					if c, ok := files[p]; ok && digestOf(alg, []byte(c)) != strings.ToLower(d) {
						pr.add("%s: fixity %s: wrong digest for %q", v, alg, p)
					}
				}
			}
		}
		for p := range dig {
			if vnum(strings.SplitN(p, "/", 2)[0]) <= vnum(v) {
				if _, ok := vdig[p]; !ok {
					pr.add("%s: manifest misses %q", v, p)
				}
			}
		}
	}
	sort.Strings(pr.l)
	return inv, pr.l
}

func pathsFor(m map[string][]string, d string) []string {
	for k, ps := range m {
		if strings.EqualFold(k, d) {
			return ps
		}
	}
	return nil
}

// sub selects the entries below a folder, relative to it.
func sub(files map[string]string, dir string) map[string]string {
	if dir == "" {
		return files
	}
	res := map[string]string{}
	for f, c := range files {
		if strings.HasPrefix(f, dir+"/") && f != dir+"/" {
			res[strings.TrimPrefix(f, dir+"/")] = c
		}
	}
	return res
}

// objectFolders finds the object roots of a storage root snapshot.
func objectFolders(files map[string]string) []string {
	set := map[string]bool{}
	for f := range files {
		b := path.Base(f)
		if strings.HasPrefix(b, "0=ocfl_object_") && strings.Contains(f, "/") && !strings.HasSuffix(f, "/") && !strings.HasPrefix(f, "extensions/") {
			set[path.Dir(f)] = true
		}
	}
	var l []string
	for d := range set {
		// content of an object may look like a declaration
		nested := false
		for e := range set {
			if d != e && strings.HasPrefix(d, e+"/") {
				rest := strings.TrimPrefix(d, e+"/")
				top, _, _ := strings.Cut(rest, "/")
				if vnum(top) > 0 || top == "extensions" || top == "logs" {
					nested = true
				}
			}
		}
		if !nested {
			l = append(l, d)
		}
	}
	sort.Strings(l)
	return l
}

// checkRoot applies all rules to a storage root snapshot (with folders).
func checkRoot(files map[string]string, own bool) (map[string]*oInv, []string) {
	pr := &problems{}
	decl := ""
	for f := range files {
		if !strings.Contains(f, "/") && strings.HasPrefix(f, "0=ocfl_") && !strings.HasPrefix(f, "0=ocfl_object_") {
			if decl != "" {
				pr.add("several root declarations")
			}
			decl = f
		}
	}
	switch decl {
	case "0=ocfl_1.0", "0=ocfl_1.1":
		if files[decl] != strings.TrimPrefix(decl, "0=")+"\n" {
			pr.add("root declaration content %q", files[decl])
		}
	default:
		pr.add("root declaration %q", decl)
	}
	if l, ok := files["ocfl_layout.json"]; ok {
		v, err := jparse([]byte(l))
		m, ok := v.(map[string]any)
		if err != nil || !ok {
			pr.add("ocfl_layout.json is not a JSON object: %v", err)
		} else {
			for _, k := range []string{"extension", "description"} {
				if s, ok := m[k].(string); !ok || s == "" {
					pr.add("ocfl_layout.json: no %s", k)
				}
			}
		}
	}
	invs := map[string]*oInv{}
	ids := map[string]string{}
	folders := objectFolders(files)
	for _, d := range folders {
		of := sub(files, d)
		inv, p := checkObject(of, own)
		for _, s := range p {
			pr.add("object %s: %s", d, s)
		}
		invs[d] = inv
		if inv != nil {
			if o, ok := ids[inv.id]; ok {
				pr.add("objects %s and %s have the same id", o, d)
			}
			ids[inv.id] = d
			for f := range of {
				if strings.HasPrefix(f, "0=ocfl_object_") && f > "0=ocfl_object_"+strings.TrimPrefix(decl, "0=ocfl_") {
					pr.add("object %s: later version than the root", d)
				}
			}
		}
	}
	inObj := func(f string) bool {
		for _, d := range folders {
			if strings.HasPrefix(f, d+"/") {
				return true
			}
		}
		return false
	}
	for _, d := range folders {
		for _, e := range folders {
			if d != e && strings.HasPrefix(e, d+"/") {
				pr.add("object %s lies inside object %s", e, d)
			}
		}
	}
	for f := range files {
		if strings.HasSuffix(f, "/") {
			has := false
			for g := range files {
				if g != f && strings.HasPrefix(g, f) {
					has = true
					break
				}
			}
			if !has && (own || !inObj(f) && f != "extensions/") {
				pr.add("empty folder %q", f)
			}
			continue
		}
		if !strings.Contains(f, "/") {
			continue
		}
		if strings.HasPrefix(f, "extensions/") {
			if strings.Count(f, "/") == 1 {
				pr.add("file %q in extensions folder", f)
			}
			continue
		}
		if !inObj(f) {
			pr.add("file %q in the storage hierarchy", f)
		}
	}
	sort.Strings(pr.l)
	return invs, pr.l
}

func joinProblems(l []string) string {
	if len(l) > 10 {
		l = append(append([]string{}, l[:10]...), fmt.Sprintf("... %d more", len(l)-10))
	}
	return strings.Join(l, "\n  ")
}
