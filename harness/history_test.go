package zzverif

// Histories of update sessions against storage roots: generator, reference
// model and driver shared by the checks on versions, content and inventories.

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"sync"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"pgregory.net/rapid"
)

// ---- contents -------------------------------------------------------------

// blob is a content, described compactly so that cases stay readable.
type blob struct {
	Size int
	Tag  int
	Raw  string `json:",omitempty"` // content which was not generated here
}

var blobCache = map[blob]string{}
var blobMutex sync.Mutex

func (b blob) bytes() string {
	if b.Size == 0 {
		return ""
	}
	if b.Raw != "" {
		return b.Raw
	}
	blobMutex.Lock()
	defer blobMutex.Unlock()
	if s, ok := blobCache[b]; ok {
		return s
	}
	var sb strings.Builder
	x := uint32(b.Tag)*2654435761 + 12345
	for sb.Len() < b.Size {
		x = x*1664525 + 1013904223
		if b.Size < 64 {
			sb.WriteString(fmt.Sprintf("c%d.", b.Tag))
		} else {
			sb.Write([]byte{byte(x >> 24), byte(x >> 16)})
		}
	}
	s := sb.String()[:b.Size]
	if len(blobCache) < 200 {
		blobCache[b] = s
	}
	return s
}

func (b blob) String() string { return fmt.Sprintf("blob(%d,%d)", b.Size, b.Tag) }

func genBlob(t *rapid.T) blob {
	k := rapid.IntRange(0, 99).Draw(t, "blobKind")
	tag := rapid.IntRange(0, 4).Draw(t, "blobTag")
	switch {
	case k < 8:
		return blob{Size: 0, Tag: 0}
	case k < 80:
		return blob{Size: 5 + tag, Tag: tag}
	case k < 90:
		return blob{Size: rapid.SampledFrom([]int{1, 31, 63, 511, 512, 4096}).Draw(t, "blobSize"), Tag: tag}
	case k < 97:
		return blob{Size: rapid.SampledFrom([]int{32768, 32769, 40000, 100000}).Draw(t, "blobBig"), Tag: tag}
	default:
		return blob{Size: 1100000, Tag: tag}
	}
}

// ---- configuration --------------------------------------------------------

type histCfg struct {
	Version string
	Layout  []extCfg
	Digest  string
	Fixity  []string
	Exts    []extCfg
	IDs     []string
	Area    string // area passed to the Add calls
}

func (c *histCfg) String() string {
	return fmt.Sprintf("ocfl %s, layout %s, %s, fixity %v, extensions %v, ids %q, area %q", c.Version, j(c.Layout[len(c.Layout)-1]), c.Digest, c.Fixity, extNames(c.Exts), c.IDs, c.Area)
}

var rootManager = ext("NNNN-gocfl-extension-manager",
	"sort", map[string]any{"StorageRootPath": []string{"NNNN-direct-clean-path-layout"}},
	"exclusion", map[string]any{"StorageRootPath": [][]string{{
		"NNNN-direct-clean-path-layout", "0003-hash-and-id-n-tuple-storage-layout",
		"0004-hashed-n-tuple-storage-layout", "0002-flat-direct-storage-layout",
		"0006-flat-omit-prefix-storage-layout", "NNNN-pairtree-storage-layout", "NNNN-direct-path-layout"}}})
var objManager = ext("NNNN-gocfl-extension-manager",
	"sort", map[string]any{
		"ObjectContentPath": []string{"NNNN-direct-clean-path-layout", "NNNN-content-subpath"},
		"ObjectChange":      []string{"NNNN-indexer", "NNNN-metafile"}},
	"exclusion", map[string]any{"ObjectContentPath": [][]string{{"NNNN-direct-clean-path-layout", "NNNN-direct-path-layout"}}})
var initialExt = ext("initial", "extension", "NNNN-gocfl-extension-manager")

func dclean(utf bool) extCfg {
	return ext("NNNN-direct-clean-path-layout", "maxPathnameLen", 32000, "maxPathSegmentLen", 127,
		"replacementString", "_", "whitespaceReplacementString", " ", "utfEncode", utf)
}

type layoutChoice struct {
	name string
	exts []extCfg
	ids  []string
}

func layouts() []layoutChoice {
	gen := []string{"urn:x:one", "http://example.org/ns/obj 1", "id:ä/ö", "simple", "a..b", "info:x/" + strings.Repeat("long", 30)}
	flat := []string{"obj-1", "o2", "urn:nbn:x", "weiß nicht", "A.B"}
	return []layoutChoice{
		{"default", []extCfg{initialExt, rootManager, ext("0006-flat-omit-prefix-storage-layout", "delimiter", ":"), dclean(false), ext("NNNN-direct-path-layout")}, []string{"urn:x:one", "http://example.org/ns/obj 1", "simple", "id:ä/ö"}},
		{"direct-clean-utf", []extCfg{initialExt, rootManager, dclean(true)}, gen},
		{"flat-direct", []extCfg{initialExt, rootManager, ext("0002-flat-direct-storage-layout")}, flat},
		{"0003", []extCfg{initialExt, rootManager, ext("0003-hash-and-id-n-tuple-storage-layout", "digestAlgorithm", "sha256", "tupleSize", 3, "numberOfTuples", 3)}, gen},
		{"0004", []extCfg{initialExt, rootManager, ext("0004-hashed-n-tuple-storage-layout", "digestAlgorithm", "md5", "tupleSize", 2, "numberOfTuples", 4, "shortObjectRoot", true)}, gen},
		{"0006", []extCfg{initialExt, rootManager, ext("0006-flat-omit-prefix-storage-layout", "delimiter", ":")}, []string{"urn:x:one", "urn:x:two", "simple", "a:b c"}},
		{"0007", []extCfg{initialExt, rootManager, ext("0007-n-tuple-omit-prefix-storage-layout", "delimiter", ":", "tupleSize", 4, "numberOfTuples", 2, "zeroPadding", "left", "reverseObjectRoot", true)}, []string{"namespace:12887296", "urn:uuid:6e8bc430-9c3a", "abc123", "x:y"}},
		{"pairtree", []extCfg{initialExt, rootManager, ext("NNNN-pairtree-storage-layout", "uriBase", "https://x.org", "storeDir", "", "shortyLength", 2, "digestAlgorithm", "sha512")}, flat},
		{"direct-path", []extCfg{initialExt, rootManager, ext("NNNN-direct-path-layout")}, []string{"a/b", "a/c", "plain", "p q/r"}},
	}
}

// genCfg draws the configuration of a history.
func genCfg(t *rapid.T) *histCfg {
	c := &histCfg{}
	c.Version = rapid.SampledFrom([]string{"1.1", "1.0"}).Draw(t, "version")
	l := rapid.SampledFrom(layouts()).Draw(t, "layout")
	c.Layout = l.exts
	c.Digest = rapid.SampledFrom([]string{"sha512", "sha256"}).Draw(t, "digest")
	nid := rapid.IntRange(1, 2).Draw(t, "ids")
	for i := 0; i < nid; i++ {
		id := rapid.SampledFrom(l.ids).Draw(t, "id")
		dup := false
		for _, o := range c.IDs {
			dup = dup || o == id
		}
		if !dup {
			c.IDs = append(c.IDs, id)
		}
	}
	c.Exts = []extCfg{initialExt, objManager}
	fx := rapid.IntRange(0, 5).Draw(t, "fixity")
	switch fx {
	case 1:
		c.Fixity = []string{"sha256"}
	case 2:
		c.Fixity = []string{"sha512"}
	case 3:
		c.Fixity = []string{"md5"}
	case 4:
		c.Fixity = []string{"md5", "sha1", "sha256"}
	case 5:
		c.Fixity = []string{"blake2b-160", "sha512", "blake2b-384"}
	}
	if fx > 2 || rapid.Bool().Draw(t, "ext0001") {
		c.Exts = append(c.Exts, ext("0001-digest-algorithms"))
	}
	switch rapid.IntRange(0, 4).Draw(t, "contentPath") {
	case 1:
		c.Exts = append(c.Exts, dclean(true))
	case 2:
		c.Exts = append(c.Exts, ext("NNNN-direct-path-layout"))
	}
	return c
}

func (c *histCfg) hasExt(name string) bool {
	for _, e := range c.Exts {
		if e.name() == name {
			return true
		}
	}
	return false
}

// ---- sessions -------------------------------------------------------------

type step struct {
	Kind  string // folder data reader delete rename
	Paths []string
	Tree  map[string]blob `json:",omitempty"`
	Blob  blob            `json:"-"`
	B     string          `json:",omitempty"`
	Dedup bool
	Wrong bool `json:",omitempty"` // digest that does not match
}

type session struct {
	ID              string
	Msg, User, Addr string
	Echo            bool
	Steps           []step
	Reload          bool
	Chunk           int
	NoSeek          bool
	srcHook         func(kind, p string, size int) (int, error) // faults of the sources
}

var pathPool = []string{
	"a.txt", "b.txt", "c", "d/a.txt", "d/b.txt", "d/e/f", "d/e/g", "d2/x", "d/e2", "x/y/z/w.bin",
	"ü/é.txt", "with space/x y", "A.txt", "日本/語.md", "x'\"<>&.txt", "=u0020", "~t", ".hidden", "-dash", "..x",
	"100%", "col:on", "tab\tname", "back\\slash", "v1/content/a.txt", "inventory.json", "0=ocfl_object_1.1", "e\u0301", "\u00e9",
	"deep/deep/deep/deep/deep/deep/deep/deep/file", "n" + strings.Repeat("m", 118), " lead", "trail ", "q?*[x]", "extensions/x",
}

func conflicts(p, q string) bool {
	return p != q && (strings.HasPrefix(p, q+"/") || strings.HasPrefix(q, p+"/"))
}

func genPath(t *rapid.T, label string) string {
	if rapid.IntRange(0, 9).Draw(t, label+"Wide") < 6 {
		return rapid.SampledFrom(pathPool[:9]).Draw(t, label)
	}
	if rapid.IntRange(0, 9).Draw(t, label+"Free") < 8 {
		return rapid.SampledFrom(pathPool).Draw(t, label)
	}
	n := rapid.IntRange(1, 3).Draw(t, label+"Seg")
	var seg []string
	for i := 0; i < n; i++ {
		s := rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ019 ._-~=+%&#äß€😀,;:'()")), 1, 8, -1).Draw(t, label+"S")
		if s == "." || s == ".." {
			s = "dot"
		}
		seg = append(seg, s)
	}
	return strings.Join(seg, "/")
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// genLength draws how many sessions a history has: few, and now and then more
// than nine.
func genLength(t *rapid.T) int {
	n := rapid.SampledFrom([]int{1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 14, 2, 3, 4}).Draw(t, "sessions")
	if n > 4 {
		class("histories", "more than nine sessions")
	}
	return n
}

// genSession draws a session for an object in state cur (path -> content).
func genSession(t *rapid.T, id string, cur map[string]string) *session {
	return genSessionPaths(t, id, cur, genPath)
}

// genMany draws a folder with many files, now and then. Their names and
// contents are long enough to fill buffers of any reasonable size.
func genMany(t *rapid.T) map[string]blob {
	if rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}).Draw(t, "many") == 0 {
		return nil
	}
	class("histories", "sessions with many files")
	res := map[string]blob{}
	first := rapid.IntRange(0, 50).Draw(t, "firstOfMany")
	for n := rapid.IntRange(50, 250).Draw(t, "howMany"); n > 0; n-- {
		text := fmt.Sprintf("content %d of many", (first+n)/2)
		res[fmt.Sprintf("many/%s/%03d", strings.Repeat("folder", n%7+1), first+n)] = blob{Size: len(text), Raw: text}
	}
	return res
}

func genSessionPaths(t *rapid.T, id string, cur map[string]string, genPath func(*rapid.T, string) string) *session {
	s := &session{ID: id}
	s.Msg = rapid.SampledFrom([]string{"msg", "zweite Änderung", "", "line\nbreak \"q\""}).Draw(t, "msg")
	s.User = rapid.SampledFrom([]string{"Jane Doe", "Ünï"}).Draw(t, "user")
	s.Addr = rapid.SampledFrom([]string{"mailto:jane@example.org", "https://orcid.org/0000"}).Draw(t, "addr")
	s.Echo = rapid.IntRange(0, 3).Draw(t, "echo") == 0
	s.Reload = rapid.Bool().Draw(t, "reload")
	s.Chunk = rapid.SampledFrom([]int{0, 0, 1000, 7}).Draw(t, "chunk")
	s.NoSeek = rapid.IntRange(0, 3).Draw(t, "noseek") == 0
	touched := map[string]bool{}
	next := map[string]string{}
	for k, v := range cur {
		next[k] = v
	}
	ok := func(p string, inTree map[string]blob) bool {
		if touched[p] {
			return false
		}
		for q := range touched {
			if conflicts(p, q) {
				return false
			}
		}
		for q := range inTree {
			if conflicts(p, q) {
				return false
			}
		}
		if !s.Echo {
			for q := range next {
				if conflicts(p, q) {
					return false
				}
			}
		}
		return true
	}
	curPaths := sortedKeys(cur)
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "steps")
	kinds := []string{"folder", "folder", "folder", "data", "reader", "delete", "rename"}
	if s.Echo {
		kinds = []string{"folder", "folder", "data", "reader"}
	}
	for i := 0; i < n; i++ {
		st := step{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
		if i == 0 && s.Echo {
			st.Kind = "folder"
		}
		st.Dedup = rapid.IntRange(0, 2).Draw(t, "dedup") > 0
		switch st.Kind {
		case "folder":
			st.Tree = map[string]blob{}
			same := rapid.IntRange(0, 3).Draw(t, "fromState")
			for _, p := range curPaths {
				// keep part of the current state (all of it for a no-op)
				if same == 0 && st.Dedup || same == 1 && rapid.Bool().Draw(t, "keep") {
					if ok(p, st.Tree) {
						st.Tree[p] = blobOf(cur[p])
					}
				}
			}
			m := 0
			if same != 0 || rapid.Bool().Draw(t, "more") {
				m = rapid.IntRange(0, 5).Draw(t, "files")
			}
			for k := 0; k < m; k++ {
				p := genPath(t, "path")
				if ok(p, st.Tree) {
					st.Tree[p] = genBlob(t)
				}
			}
			for p, b := range st.Tree {
				touched[p] = true
				next[p] = b.bytes()
			}
		case "data":
			p := genPath(t, "path")
			if !ok(p, nil) {
				continue
			}
			st.Paths = []string{p}
			st.Blob = genBlob(t)
			if len(cur) > 0 && rapid.IntRange(0, 3).Draw(t, "sameContent") == 0 {
				st.Blob = blobOf(cur[rapid.SampledFrom(curPaths).Draw(t, "sameAs")])
			}
			touched[p] = true
			next[p] = st.Blob.bytes()
		case "reader":
			m := rapid.IntRange(1, 3).Draw(t, "names")
			for k := 0; k < m; k++ {
				p := genPath(t, "path")
				if ok(p, nil) {
					st.Paths = append(st.Paths, p)
					touched[p] = true
				}
			}
			if len(st.Paths) == 0 {
				continue
			}
			st.Blob = genBlob(t)
			for _, p := range st.Paths {
				next[p] = st.Blob.bytes()
			}
		case "delete", "rename":
			var cand []string
			for _, p := range curPaths {
				if !touched[p] {
					cand = append(cand, p)
				}
			}
			if len(cand) == 0 {
				continue
			}
			p := rapid.SampledFrom(cand).Draw(t, "victim")
			st.Paths = []string{p}
			st.Wrong = rapid.IntRange(0, 6).Draw(t, "wrongDigest") == 0
			if st.Kind == "rename" {
				q := genPath(t, "dest")
				_, exists := next[q]
				if q == p || exists || !ok(q, nil) && !conflicts(p, q) {
					continue
				}
				good := true
				for r := range next {
					if r != p && conflicts(q, r) {
						good = false
					}
				}
				for r := range touched {
					if conflicts(q, r) || q == r {
						good = false
					}
				}
				if !good {
					continue
				}
				st.Paths = append(st.Paths, q)
				touched[q] = true
				if !st.Wrong {
					next[q] = next[p]
					delete(next, p)
				}
			} else if !st.Wrong {
				delete(next, p)
			}
			touched[p] = true
		}
		st.B = st.Blob.String()
		s.Steps = append(s.Steps, st)
	}
	return s
}

var blobIndex = map[string]blob{}

// blobOf finds the description of a content generated before.
func blobOf(content string) blob {
	if b, ok := blobIndex[content]; ok {
		return b
	}
	panic("unknown content")
}

// apply gives the state after the session.
func (s *session) apply(cur map[string]string) map[string]string {
	next := map[string]string{}
	for k, v := range cur {
		next[k] = v
	}
	added := map[string]bool{}
	for _, st := range s.Steps {
		switch st.Kind {
		case "folder":
			for p, b := range st.Tree {
				next[p] = b.bytes()
				blobIndex[b.bytes()] = b
				added[p] = true
			}
		case "data", "reader":
			for _, p := range st.Paths {
				next[p] = st.Blob.bytes()
				blobIndex[st.Blob.bytes()] = st.Blob
				added[p] = true
			}
		case "delete":
			if !st.Wrong {
				delete(next, st.Paths[0])
			}
		case "rename":
			if !st.Wrong {
				next[st.Paths[1]] = next[st.Paths[0]]
				delete(next, st.Paths[0])
			}
		}
	}
	if s.Echo {
		for p := range next {
			if !added[p] {
				delete(next, p)
			}
		}
	}
	return next
}

// ---- running --------------------------------------------------------------

type model struct {
	versions []map[string]string // states, index 0 = v1
}

func (m *model) head() map[string]string {
	if m == nil || len(m.versions) == 0 {
		return map[string]string{}
	}
	return m.versions[len(m.versions)-1]
}

const rootDir = "/store/root"

type hist struct {
	cfg     *histCfg
	w       *world
	f       *ocfl.ExtensionFactory
	fsys    fs.FS
	sr      ocfl.StorageRoot
	ctx     context.Context
	models  map[string]*model
	folders map[string]string
	log     []string
	reloads int
	src     func(s *session, step int) fs.FS // other sources of the folders
}

// newHist creates the storage root.
func newHist(cfg *histCfg) (*hist, error) {
	h := &hist{cfg: cfg, w: newWorld(), models: map[string]*model{}, folders: map[string]string{}}
	h.w.put("/store/outside.txt", []byte("outside"))
	h.f = newFactory(factoryOpts{})
	h.fsys = h.w.mount(rootDir)
	return h, h.createRoot()
}

func (h *hist) createRoot() error {
	h.ctx = newCtx()
	m, err := newManager(h.f, h.cfg.Layout)
	if err != nil {
		return fmt.Errorf("root extensions: %w", err)
	}
	h.sr, err = ocfl.CreateStorageRoot(h.ctx, h.fsys, ocfl.OCFLVersion(h.cfg.Version), h.f, m, digestAlg(h.cfg.Digest), logger)
	return err
}

func (h *hist) reload() error {
	h.ctx = newCtx()
	sr, err := ocfl.LoadStorageRoot(h.ctx, h.fsys, h.f, logger)
	if err != nil {
		return err
	}
	// the configured digest of later sessions may be another one than that of existing objects
	alg := h.cfg.Digest
	if h.reloads++; h.reloads%2 == 1 {
		alg = map[string]string{"sha512": "sha256", "sha256": "sha512"}[alg]
	}
	sr.SetDigest(digestAlg(alg))
	h.sr = sr
	return nil
}

func (h *hist) fixity() []digestAlg {
	var l []digestAlg
	for _, a := range h.cfg.Fixity {
		l = append(l, digestAlg(a))
	}
	return l
}

// open loads or creates the object, as addObjectByPath in gocfl/cmd does.
func (h *hist) open(id string) (ocfl.Object, error) {
	exists, err := h.sr.ObjectExists(id)
	if err != nil {
		return nil, fmt.Errorf("ObjectExists: %w", err)
	}
	if exists {
		o, err := h.sr.LoadObjectByID(id)
		if err != nil {
			return nil, fmt.Errorf("LoadObjectByID: %w", err)
		}
		return o, nil
	}
	m, err := newManager(h.f, h.cfg.Exts)
	if err != nil {
		return nil, fmt.Errorf("object extensions: %w", err)
	}
	o, err := h.sr.CreateObject(id, h.sr.GetVersion(), digestAlg(h.cfg.Digest), h.fixity(), m)
	if err != nil {
		return nil, fmt.Errorf("CreateObject: %w", err)
	}
	return o, nil
}

// source builds the source folder of a step.
func (s *session) source(st step) *memFS {
	w := newWorld()
	fsys := w.mount("/src")
	for p, b := range st.Tree {
		w.put("/src/"+p, []byte(b.bytes()))
	}
	fsys.noSeek = s.NoSeek
	fsys.chunk = s.Chunk
	w.hook = s.srcHook
	return fsys
}

type chunkReader struct {
	r     io.Reader
	chunk int
	hook  func(kind, p string, size int) (int, error)
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.hook != nil {
		if _, err := c.hook("read", "reader", len(p)); err != nil {
			return 0, err
		}
	}
	if c.chunk > 0 && len(p) > c.chunk {
		p = p[:c.chunk]
	}
	return c.r.Read(p)
}

// steps performs the steps on an object under update.
func (h *hist) steps(s *session, o ocfl.Object) error {
	cur := h.models[s.ID].head()
	for i, st := range s.Steps {
		var err error
		switch st.Kind {
		case "folder":
			src := fs.FS(nil)
			if h.src != nil {
				src = h.src(s, i)
			} else {
				src = s.source(st)
			}
			err = o.AddFolder(src, nil, st.Dedup, h.cfg.Area)
		case "data":
			err = o.AddData([]byte(st.Blob.bytes()), st.Paths[0], st.Dedup, h.cfg.Area, false, false)
		case "reader":
			var d string
			d, err = o.AddReader(io.NopCloser(&chunkReader{bytes.NewReader([]byte(st.Blob.bytes())), s.Chunk, s.srcHook}), st.Paths, h.cfg.Area, false, false)
			if err == nil && d != digestOf(h.cfg.Digest, []byte(st.Blob.bytes())) {
				return fmt.Errorf("step %d: AddReader returned digest %s", i, d)
			}
		case "delete", "rename":
			d := digestOf(h.cfg.Digest, []byte(cur[st.Paths[0]]))
			if st.Wrong {
				d = digestOf(h.cfg.Digest, []byte(cur[st.Paths[0]]+"other"))
			}
			if st.Kind == "delete" {
				err = o.DeleteFile(st.Paths[0], d)
			} else {
				err = o.RenameFile(st.Paths[0], st.Paths[1], d)
			}
		}
		if err != nil {
			return fmt.Errorf("step %d (%s): %w", i, st.Kind, err)
		}
	}
	return nil
}

// run performs a session and updates the model; the caller compares.
func (h *hist) run(s *session) error {
	if s.Reload {
		if err := h.reload(); err != nil {
			return fmt.Errorf("LoadStorageRoot: %w", err)
		}
	}
	o, err := h.open(s.ID)
	if err != nil {
		return err
	}
	return h.runOn(s, o)
}

func (h *hist) runOn(s *session, o ocfl.Object) error {
	src := newWorld().mount("/none")
	if len(s.Steps) > 0 && s.Steps[0].Kind == "folder" {
		src = s.source(s.Steps[0])
	}
	if _, err := o.StartUpdate(src, s.Msg, s.User, s.Addr, s.Echo); err != nil {
		return fmt.Errorf("StartUpdate: %w", err)
	}
	if err := h.steps(s, o); err != nil {
		return err
	}
	if err := o.EndUpdate(); err != nil {
		return fmt.Errorf("EndUpdate: %w", err)
	}
	if err := o.Close(); err != nil {
		return fmt.Errorf("Close: %w", err)
	}
	return nil
}

// expect computes what the session must do to the object: the new state,
// whether a version must be created (1), must not be created (-1) or may be
// created (0).
func (h *hist) expect(s *session) (next map[string]string, ver int) {
	m := h.models[s.ID]
	cur := m.head()
	next = s.apply(cur)
	if m == nil {
		return next, 1
	}
	if !sameState(cur, next) {
		return next, 1
	}
	for _, st := range s.Steps {
		if !st.Dedup && (st.Kind == "data" || st.Kind == "folder" && len(st.Tree) > 0) || st.Kind == "reader" {
			return next, 0
		}
	}
	return next, -1
}

func sameState(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// inventory reads the root inventory of an object with the oracle's parser.
func (h *hist) inventory(id string) (*oInv, string, error) {
	snap := h.w.snapshot(rootDir)
	for _, d := range objectFolders(snap) {
		pr := &problems{}
		inv := parseInv([]byte(snap[d+"/inventory.json"]), pr, d)
		if inv != nil && inv.id == id {
			return inv, d, nil
		}
	}
	return nil, "", fmt.Errorf("no object folder with an inventory for id %q", id)
}

// settle updates the model after a successful session and reports whether a
// version was created, with a complaint when that contradicts expectations.
func (h *hist) settle(s *session, next map[string]string, ver int) (created bool, complaint string) {
	inv, folder, err := h.inventory(s.ID)
	if err != nil {
		return false, err.Error()
	}
	h.folders[s.ID] = folder
	m := h.models[s.ID]
	if m == nil {
		m = &model{}
		h.models[s.ID] = m
	}
	n := vnum(inv.head)
	switch {
	case n == len(m.versions)+1:
		if ver < 0 {
			return false, fmt.Sprintf("session changed nothing but created version %s", inv.head)
		}
		m.versions = append(m.versions, next)
		return true, ""
	case n == len(m.versions):
		if ver > 0 {
			return false, fmt.Sprintf("session created no version (head %s)", inv.head)
		}
		return false, ""
	}
	return false, fmt.Sprintf("head is %s after %d versions", inv.head, len(m.versions))
}

// stateDiff compares a version's logical state in an inventory to the model.
func stateDiff(inv *oInv, v string, want map[string]string, alg string) string {
	got := map[string]string{}
	var dups []string
	ver := inv.versions[v]
	if ver == nil {
		return "no version " + v
	}
	for d, ps := range ver.state {
		for _, p := range ps {
			if _, ok := got[p]; ok {
				dups = append(dups, p)
			}
			got[p] = strings.ToLower(d)
		}
	}
	var l []string
	for _, p := range dups {
		l = append(l, fmt.Sprintf("path %q occurs twice", p))
	}
	for p, c := range want {
		d, ok := got[p]
		switch {
		case !ok:
			l = append(l, fmt.Sprintf("path %q is missing", p))
		case d != digestOf(alg, []byte(c)):
			l = append(l, fmt.Sprintf("path %q has digest %.12s of other content (want %s)", p, d, short([]byte(c))))
		}
	}
	for p := range got {
		if _, ok := want[p]; !ok {
			l = append(l, fmt.Sprintf("path %q should not be there", p))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// extract extracts a version into an empty folder.
func (h *hist) extract(id, version, area string, manifest bool) (map[string]string, error) {
	w := newWorld()
	dst := w.mount("/target")
	if err := h.sr.Extract(dst, "", id, version, manifest, area); err != nil {
		return nil, err
	}
	files := w.files("/target")
	if len(w.escapes) > 0 {
		return nil, fmt.Errorf("writes outside of the target: %v", w.escapes)
	}
	for f := range w.files("/") {
		if !strings.HasPrefix(f, "target/") && !strings.HasPrefix(f, "/target/") {
			return nil, fmt.Errorf("file outside of the target: %s", f)
		}
	}
	return files, nil
}

func filesDiff(got, want map[string]string) string {
	var l []string
	for p, c := range want {
		g, ok := got[p]
		if !ok {
			l = append(l, fmt.Sprintf("file %q is missing", p))
		} else if g != c {
			l = append(l, fmt.Sprintf("file %q has %s instead of %s", p, short([]byte(g)), short([]byte(c))))
		}
	}
	for p := range got {
		if _, ok := want[p]; !ok {
			l = append(l, fmt.Sprintf("file %q should not be there", p))
		}
	}
	sort.Strings(l)
	if len(l) > 8 {
		l = append(l[:8], "...")
	}
	return strings.Join(l, "; ")
}

// describe renders the sessions for samples and messages.
func describe(c *histCfg, ss []*session) any {
	var l []string
	for _, s := range ss {
		l = append(l, s.String())
	}
	return map[string]any{"version": c.Version, "layout": c.Layout[len(c.Layout)-1].name(), "digest": c.Digest, "fixity": c.Fixity,
		"extensions": extNames(c.Exts), "sessions": l}
}

func extNames(l []extCfg) []string {
	var r []string
	for _, e := range l {
		if e.name() != "initial" && e.name() != "NNNN-gocfl-extension-manager" {
			r = append(r, e.name())
		}
	}
	return r
}

func (s *session) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s", s.ID)
	if s.Echo {
		b.WriteString(" echo")
	}
	if s.Reload {
		b.WriteString(" reload")
	}
	for _, st := range s.Steps {
		fmt.Fprintf(&b, " | %s", st.Kind)
		if st.Dedup && st.Kind != "reader" && st.Kind != "delete" && st.Kind != "rename" {
			b.WriteString(" dedup")
		}
		if st.Wrong {
			b.WriteString(" other-digest")
		}
		for _, p := range sortedKeys(st.Tree) {
			fmt.Fprintf(&b, " %q=%d/%d", p, st.Tree[p].Size, st.Tree[p].Tag)
		}
		for _, p := range st.Paths {
			fmt.Fprintf(&b, " %q", p)
		}
		if st.Kind == "data" || st.Kind == "reader" {
			fmt.Fprintf(&b, " =%d/%d", st.Blob.Size, st.Blob.Tag)
		}
	}
	return b.String()
}

// event is what the observers of a history see after each session.
type event struct {
	h             *hist
	s             *session
	before, after map[string]string // snapshots of the storage root
	next          map[string]string
	ver           int
	created       bool
	complaint     string // the version count contradicts the expectation
	err           error
	n             int
	base          *world // tracked histories: the world before the session
	ops           []wop  // and its mutations
}

// histProp is the driver: it generates a history and calls obs after each
// session and end when all is done.
func histProp(check string, maxSessions int, obs func(t *rapid.T, e *event), end func(t *rapid.T, h *hist)) func(*rapid.T) {
	return histPropT(check, maxSessions, false, obs, end)
}

// histPropT is histProp, optionally with a record of each session's mutations.
func histPropT(check string, maxSessions int, track bool, obs func(t *rapid.T, e *event), end func(t *rapid.T, h *hist)) func(*rapid.T) {
	return func(t *rapid.T) {
		cfg := genCfg(t)
		h, err := newHist(cfg)
		if err != nil {
			t.Fatalf("creating the storage root (%s): %v", cfg, err)
		}
		n := rapid.IntRange(1, maxSessions).Draw(t, "sessions")
		ids := cfg.IDs
		if rapid.IntRange(0, 29).Draw(t, "long") == 0 {
			// enough for version numbers of two digits
			n, ids = rapid.IntRange(10, 13).Draw(t, "sessions"), ids[:1]
		}
		var ss []*session
		versions := 0
		var classes []string
		cls := func(c string) {
			for _, x := range classes {
				if x == c {
					return
				}
			}
			classes = append(classes, c)
		}
		for i := 0; i < n; i++ {
			id := rapid.SampledFrom(ids).Draw(t, "object")
			s := genSession(t, id, h.models[id].head())
			if !track && n <= maxSessions {
				if many := genMany(t); many != nil {
					s.Steps = append(s.Steps, step{Kind: "folder", Dedup: rapid.Bool().Draw(t, "dedupMany"), Tree: many})
				}
			}
			ss = append(ss, s)
			h.log = append(h.log, s.String())
			next, ver := h.expect(s)
			before := h.w.snapshot(rootDir)
			var base *world
			if track {
				base = h.w.clone()
				h.w.logging, h.w.log = true, nil
			}
			err := h.run(s)
			ops := h.w.log
			h.w.logging, h.w.log = false, nil
			if err != nil {
				t.Fatalf("session %d failed: %v\n  config %s\n  history:\n  %s", i, err, cfg, strings.Join(h.log, "\n  "))
			}
			created, complaint := h.settle(s, next, ver)
			if created {
				versions++
			}
			e := &event{h: h, s: s, before: before, after: h.w.snapshot(rootDir), next: next, ver: ver, created: created, complaint: complaint, n: i, base: base, ops: ops}
			obs(t, e)
			if len(h.w.escapes) > 0 {
				t.Fatalf("access outside the storage root: %v\n history:\n  %s", h.w.escapes, strings.Join(h.log, "\n  "))
			}
			if complaint != "" {
				// other checks report this; the model cannot go on
				break
			}
			if s.Echo {
				cls("echo")
			}
			for _, st := range s.Steps {
				cls(st.Kind)
				if st.Dedup {
					cls("dedup")
				} else {
					cls("no-dedup")
				}
			}
			if !created {
				cls("no-version")
			}
		}
		if end != nil {
			end(t, h)
		}
		cls(fmt.Sprintf("versions=%d", min(versions, 10)))
		key := j(describe(cfg, ss))
		count(check, key, versions >= 2, describe(cfg, ss), classes...)
	}
}

func (e *event) fail(t *rapid.T, format string, a ...any) {
	t.Helper()
	t.Fatalf("%s\n  after session %d\n  config %s\n  history:\n  %s", fmt.Sprintf(format, a...), e.n, e.h.cfg, strings.Join(e.h.log, "\n  "))
}

func cleanJoin(a ...string) string { return path.Join(a...) }
