package zzverif

// C23: streaming extensions and the ingest do not disturb each other.

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/je4/filesystem/v3/pkg/writefs"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
	"pgregory.net/rapid"
)

// behaviour of a streaming extension.
type behaviour struct {
	Reads string // all, some, none
	Some  int    // bytes read
	Chunk int    // size of its reads, 0 = as much as offered
	Close bool   // closes the reader if it can be closed
	Fail  bool   // returns an error
	Nap   bool   // takes a short break now and then
	On    int    // misbehaves at this file only (-1: at every file)
}

func (b behaviour) String() string {
	s := b.Reads
	if b.Reads == "some" {
		s += fmt.Sprint(" ", b.Some)
	}
	if b.Close {
		s += " closes"
	}
	if b.Fail {
		s += " fails"
	}
	return fmt.Sprintf("%s(chunk %d, on %d)", s, b.Chunk, b.On)
}

type streamCall struct {
	data   string // what was read
	all    bool   // until the end
	states []string
	dest   string
	head   string
}

type streamer struct {
	*fakeBase
	b     behaviour
	calls *[]streamCall
	mu    *sync.Mutex
	n     *int
}

func (s streamer) WriteConfig() error {
	_, err := writefs.WriteFile(s.fsys, "config.json", []byte(`{"extensionName": "`+s.name+`"}`))
	return err
}

func (s streamer) StreamObject(o ocfl.Object, r io.Reader, states []string, dest string) error {
	s.mu.Lock()
	n := *s.n
	*s.n++
	s.mu.Unlock()
	b := s.b
	if b.On >= 0 && b.On != n {
		b = behaviour{Reads: "all", Chunk: b.Chunk}
	}
	var buf bytes.Buffer
	var err error
	in := r
	if b.Chunk > 0 {
		in = &chunkReader{r: r, chunk: b.Chunk}
	}
	if b.Nap {
		in = &napReader{r: in}
	}
	switch b.Reads {
	case "all":
		if b.Chunk == 0 {
			_, err = io.Copy(&buf, in)
		} else {
			_, err = buf.ReadFrom(in)
		}
	case "some":
		_, err = io.CopyN(&buf, in, int64(b.Some))
		if err == io.EOF {
			err = nil
		}
	}
	if b.Close {
		if c, ok := r.(io.Closer); ok {
			c.Close()
		}
	}
	s.mu.Lock()
	*s.calls = append(*s.calls, streamCall{data: buf.String(), all: b.Reads == "all" && err == nil, states: append([]string{}, states...), dest: dest, head: o.GetInventory().GetHead()})
	s.mu.Unlock()
	if b.Fail {
		return errors.New("failure of " + s.name)
	}
	return err
}

type napReader struct {
	r io.Reader
	n int
}

func (n *napReader) Read(p []byte) (int, error) {
	if n.n++; n.n%64 == 1 {
		time.Sleep(50 * time.Microsecond)
	}
	return n.r.Read(p)
}

// failingReader fails after some bytes.
type failingReader struct {
	r    io.Reader
	left int
}

func (f *failingReader) Read(p []byte) (int, error) {
	if f.left <= 0 {
		return 0, errors.New("source failure")
	}
	if len(p) > f.left {
		p = p[:f.left]
	}
	n, err := f.r.Read(p)
	f.left -= n
	if err == io.EOF && f.left > 0 {
		err = errors.New("source failure")
	}
	return n, err
}

// writerToReader offers WriteTo, as files and buffers do.
type writerToReader struct{ *bytes.Reader }

func genBehaviour(t *rapid.T) behaviour {
	b := behaviour{On: -1}
	b.Reads = rapid.SampledFrom([]string{"all", "all", "some", "none"}).Draw(t, "reads")
	if b.Reads == "some" {
		b.Some = rapid.SampledFrom([]int{1, 5, 512, 4096, 32768, 1 << 20, 1<<20 + 1}).Draw(t, "some")
	}
	b.Chunk = rapid.SampledFrom([]int{0, 0, 7, 4096, 100000}).Draw(t, "chunkSize")
	b.Close = rapid.IntRange(0, 5).Draw(t, "close") == 0
	b.Fail = rapid.IntRange(0, 4).Draw(t, "fail") == 0
	b.Nap = rapid.IntRange(0, 4).Draw(t, "nap") == 0
	if rapid.IntRange(0, 2).Draw(t, "once") == 0 {
		b.On = rapid.IntRange(0, 3).Draw(t, "on")
	}
	return b
}

func genStreamContent(t *rapid.T) []byte {
	n := rapid.SampledFrom([]int{0, 1, 5, 511, 512, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 100000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 2<<20 + 17, 3000000}).Draw(t, "size")
	seed := rapid.IntRange(0, 3).Draw(t, "seed")
	return pseudo(n, seed)
}

func pseudo(n, seed int) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + uint32(n)*40503 + 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 8)
	}
	return b
}

func TestC23(t *testing.T) {
	runCheck(t, "streams", 900, 20000, func(t *rapid.T) {
		cfg := &histCfg{Version: rapid.SampledFrom([]string{"1.0", "1.1"}).Draw(t, "version"), Layout: layouts()[2].exts, Digest: rapid.SampledFrom([]string{"sha512", "sha256"}).Draw(t, "digest")}
		if rapid.Bool().Draw(t, "fixity") {
			cfg.Fixity = []string{"md5", "sha1"}
		}
		cfg.Exts = []extCfg{initialExt, objManager}
		if len(cfg.Fixity) > 0 {
			cfg.Exts = append(cfg.Exts, ext("0001-digest-algorithms"))
		}
		subpath := rapid.IntRange(0, 3).Draw(t, "subpath") == 0
		if subpath {
			cfg.Exts = append(cfg.Exts, ext("NNNN-content-subpath", "subPath", map[string]any{"content": map[string]any{"path": "data", "description": "c"}}))
		}
		n := rapid.IntRange(0, 4).Draw(t, "extensions")
		var bs []behaviour
		creators := map[string]func(fs.FS) (ocfl.Extension, error){}
		var mu sync.Mutex
		calls := make([][]streamCall, n)
		counts := make([]int, n)
		for i := 0; i < n; i++ {
			bs = append(bs, genBehaviour(t))
			name := fmt.Sprintf("stream-%d", i)
			s := streamer{fakeBase: &fakeBase{name: name, calls: &fakeCalls{}}, b: bs[i], calls: &calls[i], mu: &mu, n: &counts[i]}
			creators[name] = func(fsys fs.FS) (ocfl.Extension, error) {
				x := s
				x.fakeBase = &fakeBase{name: s.name, calls: s.fakeBase.calls, fsys: fsys}
				return x, nil
			}
			cfg.Exts = append(cfg.Exts, ext(name))
		}
		type file struct {
			Name, Kind string
			Chunk      int
			Dedup      bool
			Broken     int // the source fails after so many bytes (-1: it does not)
			data       []byte
		}
		var files []file
		base := runtime.NumGoroutine()
		h, err := newHist(cfg)
		if err != nil {
			t.Fatalf("%v", err)
		}
		h.f = newFactory(factoryOpts{creators: creators})
		if err := h.reload(); err != nil {
			t.Fatalf("%v", err)
		}
		o, err := h.open("obj")
		if err != nil {
			t.Fatalf("%v", err)
		}
		fail := func(format string, a ...any) {
			t.Helper()
			var d []string
			for _, f := range files {
				d = append(d, fmt.Sprintf("%s %q %d bytes chunk %d dedup=%v broken=%d", f.Kind, f.Name, len(f.data), f.Chunk, f.Dedup, f.Broken))
			}
			t.Fatalf("streaming extensions %v\n  files\n  %s\n%s", bs, strings.Join(d, "\n  "), cut(fmt.Sprintf(format, a...), 1500))
		}
		if _, err := o.StartUpdate(newWorld().mount("/none"), "m", "u", "mailto:u", false); err != nil {
			fail("StartUpdate: %v", err)
		}
		stored := map[string]bool{}
		streamed := []int{} // indexes of the files given to the extensions
		failed, misbehaved, large := false, false, false
		for k := rapid.IntRange(1, 4).Draw(t, "files"); k > 0; k-- {
			f := file{Name: fmt.Sprintf("f%d.bin", len(files)), Kind: rapid.SampledFrom([]string{"file", "data", "reader", "writerTo"}).Draw(t, "kind"), Broken: -1, data: genStreamContent(t)}
			f.Chunk = rapid.SampledFrom([]int{0, 0, 7, 1000, 32768, 1 << 20}).Draw(t, "chunk")
			if len(f.data) > 200000 && f.Chunk == 7 {
				f.Chunk = 999
			}
			f.Dedup = rapid.IntRange(0, 3).Draw(t, "dedup") == 0
			if f.Kind == "reader" && rapid.IntRange(0, 4).Draw(t, "breaks") == 0 {
				f.Broken = rapid.SampledFrom([]int{0, 1, 100, 40000, 1<<20 + 5}).Draw(t, "broken")
				if f.Broken > len(f.data) {
					f.Broken = len(f.data)
				}
			}
			files = append(files, f)
			large = large || len(f.data) > 1<<20
			d := digestOf(cfg.Digest, f.data)
			skip := (f.Kind == "file" || f.Kind == "data") && f.Dedup && stored[d]
			stored[d] = true
			var wantErr []string
			if !skip {
				for i, b := range bs {
					hit := b.On < 0 || b.On == len(streamed)
					misbehaved = misbehaved || hit && (b.Reads != "all" || b.Close || b.Fail)
					if b.Fail && hit {
						wantErr = append(wantErr, fmt.Sprintf("failure of stream-%d", i))
					}
				}
				streamed = append(streamed, len(files)-1)
			}
			before := make([]int, n)
			for i := range before {
				before[i] = len(calls[i])
			}
			var hung bool
			pan := noPanic(func() {
				hung = bounded(func() {
					switch f.Kind {
					case "file":
						w := newWorld()
						fsys := w.mount("/src")
						w.put("/src/"+f.Name, f.data)
						fsys.chunk = f.Chunk
						err = o.AddFile(fsys, nil, f.Name, f.Dedup, "", false, false)
					case "data":
						err = o.AddData(f.data, f.Name, f.Dedup, "", false, false)
					case "writerTo":
						_, err = o.AddReader(io.NopCloser(writerToReader{bytes.NewReader(f.data)}), []string{f.Name}, "", false, false)
					default:
						var r io.Reader = &chunkReader{r: bytes.NewReader(f.data), chunk: f.Chunk}
						if f.Broken >= 0 {
							r = &failingReader{r: r, left: f.Broken}
						}
						_, err = o.AddReader(io.NopCloser(r), []string{f.Name}, "", false, false)
					}
				})
			})
			switch {
			case pan != "":
				fail("adding %s: panic %s", f.Name, pan)
			case hung:
				fail("adding %s does not end", f.Name)
			case f.Broken >= 0 && (err == nil || !strings.Contains(err.Error(), "source failure")):
				fail("adding %s: the source failed, but the error is %v", f.Name, err)
			case f.Broken < 0 && len(wantErr) == 0 && err != nil:
				fail("adding %s: %v", f.Name, err)
			case f.Broken < 0 && len(wantErr) > 0 && err == nil:
				fail("adding %s: no error, but %v", f.Name, wantErr)
			}
			if f.Broken < 0 {
				for _, e := range wantErr {
					if !strings.Contains(err.Error(), e) {
						fail("adding %s: error %q does not report %q", f.Name, err, e)
					}
				}
			}
			for i := range bs {
				got := calls[i][before[i]:]
				if skip {
					if len(got) != 0 {
						fail("%s is not stored, but stream-%d got it", f.Name, i)
					}
					continue
				}
				if len(got) != 1 {
					fail("stream-%d was called %d times for %s", i, len(got), f.Name)
				}
				c := got[0]
				want := string(f.data)
				if f.Broken >= 0 {
					want = want[:f.Broken]
				}
				if f.Broken < 0 && c.all && c.data != want || !strings.HasPrefix(want, c.data) {
					fail("stream-%d read %s of %s instead of %s", i, short([]byte(c.data)), f.Name, short([]byte(want)))
				}
				if b := bs[i]; f.Broken < 0 && b.Reads == "some" && (b.On < 0 || b.On == len(streamed)-1) && len(c.data) != min(b.Some, len(want)) {
					fail("stream-%d wanted %d bytes of %s and got %d", i, b.Some, f.Name, len(c.data))
				}
				p := f.Name
				if subpath {
					p = "data/" + p
				}
				if j(c.states) != j([]string{p}) || c.dest != p || c.head != "v1" {
					fail("stream-%d got %s as %q -> %q in %s", i, f.Name, c.states, c.dest, c.head)
				}
			}
			if err != nil {
				failed = true
				break
			}
		}
		if !failed {
			wantErr := ""
			for i, b := range bs {
				if subpath && b.Fail && (b.On < 0 || b.On == len(streamed)) {
					wantErr = fmt.Sprintf("failure of stream-%d", i) // at the README.md
				}
			}
			err := o.EndUpdate()
			if wantErr != "" && (err == nil || !strings.Contains(err.Error(), wantErr)) {
				fail("EndUpdate: error %v does not report %q", err, wantErr)
			}
			if wantErr == "" && err != nil {
				fail("EndUpdate: %v", err)
			}
			failed = wantErr != ""
		}
		if !failed {
			if err := o.Close(); err != nil {
				fail("Close: %v", err)
			}
			if err := h.reload(); err != nil {
				fail("%v", err)
			}
			got, err := h.extract("obj", "v1", "", false)
			if err != nil {
				fail("extract: %v", err)
			}
			delete(got, "README.md")
			want := map[string]string{}
			for _, f := range files {
				want[f.Name] = string(f.data)
			}
			if d := filesDiff(got, want); d != "" {
				fail("extract: %s", d)
			}
			_, probs := checkRoot(h.w.files(rootDir), true)
			if len(probs) > 0 {
				fail("invalid: %s", joinProblems(probs))
			}
		}
		// nobody waits for ever
		for i := 0; runtime.NumGoroutine() > base; i++ {
			if i > 400 {
				fail("%d goroutines are left over", runtime.NumGoroutine()-base)
			}
			time.Sleep(time.Millisecond * time.Duration(1+i/10))
		}
		cl := []string{fmt.Sprintf("extensions:%d", n)}
		if misbehaved {
			cl = append(cl, "misbehaving")
		}
		if failed {
			cl = append(cl, "failed")
		}
		if large {
			cl = append(cl, "larger than the buffers")
		}
		sizes := []string{}
		for _, f := range files {
			sizes = append(sizes, fmt.Sprintf("%s %d bytes chunk %d broken %d", f.Kind, len(f.data), f.Chunk, f.Broken))
		}
		count("streams", fmt.Sprint(bs, sizes, cfg.Fixity), n > 0 && len(streamed) > 0, map[string]any{"extensions": fmt.Sprint(bs), "files": sizes}, cl...)
	})

	runCheck(t, "indexer", 500, 12000, propIndexer)
}

// ---- the indexer extension with recording actions --------------------------

type fakeAction struct {
	name string
	b    behaviour
	mu   *sync.Mutex
	seen map[string]bool // contents read completely
}

func (a *fakeAction) Stream(ct string, r io.Reader, filename string) (*ironmaiden.ResultV2, error) {
	var buf bytes.Buffer
	var err error
	switch a.b.Reads {
	case "all":
		_, err = io.Copy(&buf, &chunkReader{r: r, chunk: a.b.Chunk})
		a.mu.Lock()
		a.seen[buf.String()] = true
		a.mu.Unlock()
	case "some":
		_, err = io.CopyN(&buf, r, int64(a.b.Some))
		if err == io.EOF {
			err = nil
		}
	}
	if a.b.Fail {
		return nil, errors.New("failure of " + a.name)
	}
	res := ironmaiden.NewResultV2()
	res.Metadata[a.name] = fmt.Sprintf("%x %d", sha256.Sum256(buf.Bytes()), buf.Len())
	res.Pronoms = []string{"fmt/" + a.name}
	res.Mimetypes = []string{"text/" + a.name}
	return res, err
}
func (a *fakeAction) DoV2(string) (*ironmaiden.ResultV2, error) { return nil, errors.New("not used") }
func (a *fakeAction) CanHandle(string, string) bool             { return true }
func (a *fakeAction) Do(*url.URL, string, *uint, *uint, *time.Duration, map[string]string) (interface{}, []string, []string, error) {
	return nil, nil, nil, errors.New("not used")
}
func (a *fakeAction) GetName() string                      { return a.name }
func (a *fakeAction) GetCaps() ironmaiden.ActionCapability { return ironmaiden.ACTSTREAM }
func (a *fakeAction) GetWeight() uint                      { return 1 }

func indexerFactory(o factoryOpts, acts []*fakeAction) *ocfl.ExtensionFactory {
	d := ironmaiden.NewActionDispatcher(map[int]ironmaiden.MimeWeightString{})
	for _, a := range acts {
		d.RegisterAction(a)
	}
	if o.creators == nil {
		o.creators = map[string]func(fs.FS) (ocfl.Extension, error){}
	}
	o.creators[extension.IndexerName] = func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewIndexerFS(fsys, "", d, false, logger)
	}
	return newFactory(o)
}

func propIndexer(t *rapid.T) {
	names := rapid.Permutation([]string{"siegfried", "ffprobe", "identify", "tika", "fulltext", "xml"}).Draw(t, "actions")[:rapid.IntRange(1, 4).Draw(t, "numActions")]
	var mu sync.Mutex
	var acts []*fakeAction
	for _, n := range names {
		b := genBehaviour(t)
		b.Close = false
		acts = append(acts, &fakeAction{name: n, b: b, mu: &mu, seen: map[string]bool{}})
	}
	typ := rapid.SampledFrom([]string{"area", "path", "extension", "Extension"}).Draw(t, "storageType")
	compress := rapid.SampledFrom([]string{"none", "gzip", "brotli"}).Draw(t, "compress")
	cfg := &histCfg{Version: rapid.SampledFrom([]string{"1.0", "1.1"}).Draw(t, "version"), Layout: layouts()[2].exts, Digest: rapid.SampledFrom([]string{"sha512", "sha256"}).Draw(t, "digest")}
	storage := rapid.SampledFrom([]string{"metadata", "content"}).Draw(t, "storageName")
	idx := ext("NNNN-indexer", "storageType", typ, "storageName", storage, "actions", names, "compress", compress)
	cfg.Exts = []extCfg{initialExt, objManager, idx}
	sub := rapid.Bool().Draw(t, "subpath")
	if sub {
		cfg.Exts = append(cfg.Exts, ext("NNNN-content-subpath", "subPath", map[string]any{
			"content": map[string]any{"path": "data", "description": "c"}, "metadata": map[string]any{"path": "meta", "description": "m"}}))
	}
	var log []string
	fail := func(format string, a ...any) {
		t.Helper()
		t.Fatalf("config %s, extensions %v, sessions\n  %s\n%s", j(idx), extNames(cfg.Exts), strings.Join(log, "\n  "), cut(fmt.Sprintf(format, a...), 1500))
	}
	h, err := newHist(cfg)
	if err != nil {
		fail("%v", err)
	}
	h.f = indexerFactory(factoryOpts{}, acts)
	if err := h.reload(); err != nil {
		fail("%v", err)
	}
	all := map[string]bool{} // contents stored
	cur := map[string]string{}
	versions := 0
	for k := genLength(t); k > 0; k-- {
		o, err := h.open("obj")
		if err != nil {
			fail("%v", err)
		}
		if _, err := o.StartUpdate(newWorld().mount("/none"), "m", "u", "mailto:u", false); err != nil {
			fail("StartUpdate: %v", err)
		}
		var desc []string
		changed := false
		touched := map[string]bool{}
		for i := rapid.IntRange(0, 3).Draw(t, "steps"); i > 0; i-- {
			p := rapid.SampledFrom([]string{"a.txt", "b.txt", "c/d.bin", "c/e", "ü x"}).Draw(t, "path")
			full := p
			if sub {
				full = "data/" + p
			}
			if touched[p] {
				continue
			}
			touched[p] = true
			if old, ok := cur[full]; ok && rapid.IntRange(0, 2).Draw(t, "delete") == 0 {
				if err := o.DeleteFile(full, digestOf(cfg.Digest, []byte(old))); err != nil {
					fail("DeleteFile: %v", err)
				}
				delete(cur, full)
				changed = true
				desc = append(desc, fmt.Sprintf("delete %q", full))
				continue
			}
			b := genBlob(t)
			dedup := rapid.Bool().Draw(t, "dedup")
			desc = append(desc, fmt.Sprintf("%q=%s dedup=%v", p, b, dedup))
			if err := o.AddData([]byte(b.bytes()), p, dedup, "", false, false); err != nil {
				fail("AddData: %v", err)
			}
			changed = changed || cur[full] != b.bytes()
			cur[full] = b.bytes()
			all[b.bytes()] = true
		}
		many := genMany(t)
		for _, p := range sortedKeys(many) {
			c, full := many[p].bytes()+strings.Repeat(".", 512), p
			if sub {
				full = "data/" + p
			}
			if err := o.AddData([]byte(c), p, true, "", false, false); err != nil {
				fail("AddData: %v", err)
			}
			changed = changed || cur[full] != c
			cur[full] = c
			all[c] = true
		}
		if many != nil {
			desc = append(desc, fmt.Sprintf("%d files in \"many\"", len(many)))
		}
		log = append(log, strings.Join(desc, "; "))
		if rapid.Bool().Draw(t, "peek") {
			if _, err := o.GetMetadata(); err != nil {
				fail("metadata before the end of the update: %v", err)
			}
		}
		if err := o.EndUpdate(); err != nil {
			fail("EndUpdate: %v", err)
		}
		if err := o.Close(); err != nil {
			fail("Close: %v", err)
		}
		if !changed && versions == 0 {
			continue
		}
		inv, _, err := h.inventory("obj")
		if err != nil {
			fail("%v", err)
		}
		versions = vnum(inv.head)
		if err := h.reload(); err != nil {
			fail("%v", err)
		}
		md, err := h.sr.ExtractMeta("", "obj")
		if err != nil {
			fail("ExtractMeta: %v", err)
		}
		om := md.Objects["obj"]
		if om == nil {
			fail("no metadata")
		}
		if m, ok := om.Extension.(map[string]any); ok && m["NNNN-indexer"] != nil {
			fail("the object itself has indexer metadata %s", j(m))
		}
		for _, c := range contentsOf(all) {
			fm := om.Files[digestOf(cfg.Digest, []byte(c))]
			if fm == nil {
				if _, ok := inv.manifest[digestOf(cfg.Digest, []byte(c))]; !ok {
					continue // never became part of a version
				}
				fail("no metadata of content %s", short([]byte(c)))
			}
			res, ok := fm.Extension["NNNN-indexer"].(*ironmaiden.ResultV2)
			if !ok {
				fail("content %s has metadata %s", short([]byte(c)), j(fm.Extension))
			}
			seen := c
			if len(c) < 512 && res.Size == 0 {
				// the dependency drops short files
				knownFinding("files shorter than 512 bytes reach the actions of NNNN-indexer empty (MimeReader of github.com/je4/utils v2.0.41 drops them)")
				seen = ""
			} else if res.Size != uint64(len(c)) {
				fail("content %s has size %d", short([]byte(c)), res.Size)
			}
			for _, a := range acts {
				if a.b.Reads == "all" && !a.seen[seen] {
					fail("action %s did not see content %s", a.name, short([]byte(c)))
				}
				if a.b.Fail {
					if !strings.Contains(res.Errors[a.name], "failure of "+a.name) {
						fail("error of %s is missing for %s: %s", a.name, short([]byte(c)), j(res))
					}
					continue
				}
				part := seen
				if a.b.Reads == "some" {
					part = seen[:min(len(seen), a.b.Some)]
				} else if a.b.Reads == "none" {
					part = ""
				}
				if want := fmt.Sprintf("%x %d", sha256.Sum256([]byte(part)), len(part)); res.Metadata[a.name] != want {
					fail("content %s: metadata of %s is %v instead of %s", short([]byte(c)), a.name, res.Metadata[a.name], want)
				}
			}
		}
	}
	if versions > 0 {
		if errs := validate(h.fsys, h.f); len(errs) > 0 {
			fail("validation: %v", errs)
		}
	}
	count("indexer", j(idx)+strings.Join(log, "\n"), versions > 0 && len(acts) > 0, map[string]any{"config": idx, "sessions": log}, strings.ToLower(typ)+" "+compress, fmt.Sprintf("versions:%d", versions))
}

func contentsOf(m map[string]bool) []string {
	l := make([]string, 0, len(m))
	for c := range m {
		l = append(l, c)
	}
	sort.Strings(l)
	return l
}
