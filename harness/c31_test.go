package zzverif

// C31: the thumbnail extension.

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"io"
	"math"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/je4/gocfl/v2/config"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
	configutil "github.com/je4/utils/v2/pkg/config"
	"pgregory.net/rapid"
)

// picture is a generated image of one colour.
type picture struct {
	W, H   int
	Color  color.RGBA
	Format string
}

func (p picture) String() string {
	return fmt.Sprintf("%s %dx%d #%02x%02x%02x", p.Format, p.W, p.H, p.Color.R, p.Color.G, p.Color.B)
}

func (p picture) encode() string {
	img := image.NewPaletted(image.Rect(0, 0, p.W, p.H), color.Palette{p.Color, color.Black})
	b := &bytes.Buffer{}
	var err error
	switch p.Format {
	case "png":
		err = png.Encode(b, img)
	case "jpeg":
		err = jpeg.Encode(b, img, &jpeg.Options{Quality: 95})
	case "gif":
		err = gif.Encode(b, img, nil)
	}
	if err != nil {
		infra("%v", err)
	}
	return b.String()
}

type thumbTool struct {
	Kind, ID, Pronom, Mime string
}

func (o thumbTool) script(log string) string {
	return `md5sum <"$1" >>` + log + `; ` + map[string]string{
		"make":      `printf "thumb $3x$4 $5:" >"$2"; head -n 1 "$1" >>"$2"`,
		"fail":      `exit 3`,
		"nothing":   `true`,
		"failAfter": `printf x >"$2"; exit 1`,
	}[o.Kind]
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func setThumbTools(m *thumbnail.Thumbnail, tools []thumbTool, log string) {
	conf := &config.GOCFLConfig{Thumbnail: &config.Thumbnail{Background: "bg", Function: map[string]*config.ThumbnailFunction{}}}
	for i, o := range tools {
		f := &config.ThumbnailFunction{ID: o.ID, Title: "t", Timeout: configutil.Duration(30 * time.Second),
			Command: "/bin/sh -c '" + o.script(log) + "' x {source} {destination} {width} {height} {background}"}
		if o.Pronom != "" {
			f.Pronoms = []string{o.Pronom}
		}
		if o.Mime != "" {
			f.Mime = []string{o.Mime}
		}
		conf.Thumbnail.Function[fmt.Sprintf("f%d", i)] = f
	}
	n, err := thumbnail.GetThumbnails(conf)
	if err != nil {
		infra("GetThumbnails: %v", err)
	}
	m.Functions, m.Background = n.Functions, n.Background
}

var thumbFile = regexp.MustCompile(`(^|/)((indexer|thumbnail)_v[0-9]+\.jsonl(\.br|\.gz)?|README\.md)$|(^|/)(thumbnails|store)/v[0-9]+/`)

func propThumbnails(t *rapid.T) {
	tmp, err := os.MkdirTemp("", "c31")
	if err != nil {
		infra("%v", err)
	}
	defer os.RemoveAll(tmp)
	logFile := filepath.Join(tmp, "calls")
	th := &thumbnail.Thumbnail{Functions: map[string]*thumbnail.Function{}}
	cfg := &histCfg{Version: rapid.SampledFrom([]string{"1.0", "1.1"}).Draw(t, "version"), Layout: layouts()[2].exts, Digest: rapid.SampledFrom([]string{"sha512", "sha256"}).Draw(t, "digest")}
	cfg.Exts = []extCfg{initialExt, objManager}
	sub := rapid.Bool().Draw(t, "areas")
	typ := rapid.SampledFrom([]string{"area", "path", "extension"}).Draw(t, "storageType")
	storage := "store"
	if typ == "area" {
		storage = "content"
		if sub && rapid.Bool().Draw(t, "other") {
			storage = "metadata"
		}
	}
	W, H := 256, 256
	extFmt := rapid.SampledFrom([]string{"png", "png", "jpeg", "PNG", "", "tiff"}).Draw(t, "ext")
	single := rapid.Bool().Draw(t, "singleDirectory")
	compress := rapid.SampledFrom([]string{"none", "gzip", "brotli"}).Draw(t, "compress")
	x := ext("NNNN-thumbnail", "storageType", typ, "storageName", storage, "compress", compress, "singleDirectory", single, "ext", extFmt)
	if rapid.IntRange(0, 5).Draw(t, "defaultSize") > 0 {
		W, H = rapid.SampledFrom([]int{1, 3, 16, 64}).Draw(t, "width"), rapid.SampledFrom([]int{1, 3, 16, 64}).Draw(t, "height")
		x["width"], x["height"] = W, H
	}
	if extFmt = strings.ToLower(extFmt); extFmt == "" {
		extFmt = "png"
	}
	cfg.Exts = append(cfg.Exts, x)
	withIndexer := rapid.Bool().Draw(t, "indexer")
	if withIndexer {
		cfg.Exts = append(cfg.Exts, ext("NNNN-indexer", "storageType", "extension", "storageName", "metadata", "actions", []string{"siegfried"}, "compress", "none"))
	}
	prefix := ""
	if sub {
		prefix = "data/"
		cfg.Exts = append(cfg.Exts, ext("NNNN-content-subpath", "subPath", map[string]any{
			"content": map[string]any{"path": "data", "description": "c"}, "metadata": map[string]any{"path": "meta", "description": "m"}}))
	}
	if rapid.Bool().Draw(t, "clean") {
		cfg.Exts = append(cfg.Exts, dclean(true))
	}
	var log []string
	fail := func(format string, a ...any) {
		t.Helper()
		t.Fatalf("thumbnails in %s %q (%s, %s %dx%d, single directory %v), extensions %v, digest %s, sessions\n  %s\n%s", typ, storage, compress, extFmt, W, H, single, extNames(cfg.Exts), cfg.Digest, strings.Join(log, "\n  "), cut(fmt.Sprintf(format, a...), 2500))
	}
	h, err := newHist(cfg)
	if err != nil {
		fail("%v", err)
	}
	h.f = formatFactory(factoryOpts{thumbnail: th})
	if err := h.reload(); err != nil {
		fail("%v", err)
	}
	type expected struct {
		pic      *picture // of an image
		tool     *thumbTool
		result   string
		failed   bool
		optional bool
	}
	records := map[string]*expected{} // by content
	pics := map[string]*picture{}
	described := map[string]string{}
	stored := map[string]bool{}
	var contents []string
	var versions []map[string]string
	cur := map[string]string{}
	classes := map[string]bool{}
	nThumbs := 0
	unique := 0
	content := func() string {
		if len(contents) > 0 && rapid.IntRange(0, 3).Draw(t, "known") == 0 {
			return rapid.SampledFrom(contents).Draw(t, "old")
		}
		unique++
		var c, d string
		switch k := rapid.IntRange(0, 5).Draw(t, "kind"); {
		case k < 3:
			p := picture{W: rapid.SampledFrom([]int{1, 2, 7, 40, 100, 300}).Draw(t, "w"), H: rapid.SampledFrom([]int{1, 2, 7, 40, 100, 300}).Draw(t, "h"),
				Color: color.RGBA{uint8(unique * 37), uint8(rapid.IntRange(0, 255).Draw(t, "green")), uint8(unique), 255}, Format: rapid.SampledFrom([]string{"png", "jpeg", "gif"}).Draw(t, "format")}
			c, d = p.encode(), p.String()
			pics[c] = &p
		case k == 3:
			p := picture{W: 30, H: 20, Color: color.RGBA{uint8(unique), 9, 9, 255}, Format: rapid.SampledFrom([]string{"png", "jpeg", "gif"}).Draw(t, "format")}
			full := p.encode()
			n := rapid.IntRange(1, len(full)-1).Draw(t, "cut")
			c, d = full[:n], fmt.Sprintf("%s cut to %d", p, n)
			// what is left may be readable
			if img, _, err := image.Decode(strings.NewReader(c)); err == nil {
				p.W, p.H = img.Bounds().Dx(), img.Bounds().Dy()
				pics[c] = &p
			} else {
				classes["broken image"] = true
			}
		default:
			c = fmt.Sprintf("fmt:%d;id=%d\n%s", rapid.IntRange(0, 3).Draw(t, "fmt"), unique, padding)
			d = firstLine(c)
		}
		contents = append(contents, c)
		described[c] = d
		return c
	}
	for k := genLength(t); k > 0; k-- {
		var tools []thumbTool
		if withIndexer {
			for i := rapid.IntRange(0, 2).Draw(t, "tools"); i > 0; i-- {
				o := thumbTool{Kind: rapid.SampledFrom([]string{"make", "make", "make", "fail", "nothing", "failAfter"}).Draw(t, "tool"), ID: fmt.Sprintf("tool-%d", i)}
				o.Pronom = fmt.Sprintf("fmt/%d", i)
				tools = append(tools, o)
			}
			if rapid.IntRange(0, 3).Draw(t, "mime") == 0 {
				tools = append(tools, thumbTool{Kind: "make", ID: "tool-m", Mime: "^text/"})
			}
		}
		setThumbTools(th, tools, logFile)
		if rapid.Bool().Draw(t, "reload") {
			if err := h.reload(); err != nil {
				fail("%v", err)
			}
		}
		o, err := h.open("obj")
		if err != nil {
			fail("%v", err)
		}
		if _, err := o.StartUpdate(nil, "m", "u", "mailto:u", false); err != nil {
			fail("StartUpdate: %v", err)
		}
		next := copyMap(cur)
		touched := map[string]bool{}
		desc := []string{fmt.Sprintf("tools %v", tools)}
		for i := rapid.IntRange(0, 4).Draw(t, "steps"); i > 0; i-- {
			p := rapid.SampledFrom([]string{"a.png", "b.jpg", "d/a.png", "d/c d.gif", "noext", "ü~.png", "content/x.png"}).Draw(t, "path")
			area, full := "", prefix+p
			if sub && rapid.IntRange(0, 3).Draw(t, "otherArea") == 0 {
				area, full = "metadata", "meta/"+p
			}
			if touched[full] {
				continue
			}
			touched[full] = true
			if c, ok := cur[full]; ok && rapid.IntRange(0, 2).Draw(t, "delete") == 0 {
				if err := o.DeleteFile(full, digestOf(cfg.Digest, []byte(c))); err != nil {
					fail("DeleteFile: %v", err)
				}
				delete(next, full)
				desc = append(desc, fmt.Sprintf("delete %q", full))
				continue
			}
			c := content()
			next[full] = c
			dedup := rapid.Bool().Draw(t, "dedup")
			reader := rapid.Bool().Draw(t, "reader")
			desc = append(desc, fmt.Sprintf("%s:%q=%s dedup=%v reader=%v", area, p, described[c], dedup, reader))
			var err error
			if noPanicOr(func() {
				if reader {
					_, err = o.AddReader(io.NopCloser(strings.NewReader(c)), []string{p}, area, false, false)
				} else {
					err = o.AddData([]byte(c), p, dedup, area, false, false)
				}
			}, &err); err != nil {
				log = append(log, strings.Join(desc, "; "))
				fail("adding: %v", err)
			}
			if pics[c] != nil && contains([]string{"png", "jpeg"}, extFmt) && records[c] == nil {
				records[c] = &expected{pic: pics[c]}
				// identical to what is in the object already: no new version needed
				nThumbs++
				classes["image "+pics[c].Format] = true
			}
		}
		log = append(log, strings.Join(desc, "; "))
		_ = os.WriteFile(logFile, nil, 0o600)
		if err := o.EndUpdate(); err != nil {
			fail("EndUpdate: %v", err)
		}
		if err := o.Close(); err != nil {
			fail("Close: %v", err)
		}
		inv, folder, err := h.inventory("obj")
		if err != nil {
			if len(next) == 0 && len(versions) == 0 {
				break
			}
			fail("%v", err)
		}
		files := h.w.snapshot(rootDir)
		if _, pr := checkRoot(files, true); len(pr) > 0 {
			fail("storage root invalid: %s", joinProblems(pr))
		}
		if errs := validate(h.fsys, h.f); len(errs) > 0 {
			fail("validation: %v", errs)
		}
		user := func(m map[string]string) map[string]string {
			r := map[string]string{}
			for p, c := range m {
				if !thumbFile.MatchString(p) {
					r[p] = c
				}
			}
			return r
		}
		readmes := map[string]bool{} // of the areas
		for p, c := range files {
			if strings.HasSuffix(p, "/README.md") {
				readmes[digestOf("md5", []byte(c))] = true
			}
		}
		var calls []string
		for _, c := range callsOf(logFile) {
			if c = strings.TrimSuffix(c, "  -"); !readmes[c] {
				calls = append(calls, c)
			}
		}
		if vnum(inv.head) == len(versions) {
			if !sameState(cur, next) {
				fail("the session created no version")
			}
			if len(calls) > 0 {
				fail("tools called for %q without a new version", calls)
			}
			continue
		}
		versions = append(versions, next)
		cur = next
		if vnum(inv.head) != len(versions) {
			fail("head is %s after %d sessions with changes", inv.head, len(versions))
		}
		for i, v := range versions {
			want := map[string]string{}
			for p, c := range v {
				want[p] = digestOf(cfg.Digest, []byte(c))
			}
			if d := filesDiff(user(inv.logical(fmt.Sprintf("v%d", i+1))), want); d != "" {
				fail("version %d: %s", i+1, d)
			}
		}
		for _, c := range next {
			stored[c] = true
		}
		// tools run once for every content without thumbnail
		var wantCalls []string
		for _, c := range sortedKeys(stored) {
			if records[c] != nil || !withIndexer {
				continue
			}
			var cand []*thumbTool
			for i, o := range tools {
				if o.Pronom != "" && o.Pronom == formatOf(c) && len(c) >= 512 {
					cand = append(cand, &tools[i])
				}
			}
			for i, o := range tools {
				if len(cand) == 0 && o.Mime != "" {
					cand = append(cand, &tools[i])
				}
			}
			if len(cand) == 0 {
				continue
			}
			e := &expected{tool: cand[0], failed: cand[0].Kind != "make", result: fmt.Sprintf("thumb %dx%d bg:%s\n", W, H, firstLine(c))}
			if len(firstLine(c)) == len(c) {
				e.result = strings.TrimSuffix(e.result, "\n")
			}
			records[c] = e
			wantCalls = append(wantCalls, digestOf("md5", []byte(c)))
			classes["tool "+cand[0].Kind] = true
			nThumbs++
		}
		sort.Strings(calls)
		sort.Strings(wantCalls)
		if strings.Join(calls, " ") != strings.Join(wantCalls, " ") {
			fail("tools called for %q, want %q", calls, wantCalls)
		}
		// the records
		check := func(where string, m *ocfl.ObjectMetadata) {
			digests := map[string]string{}
			for c := range stored {
				digests[digestOf(cfg.Digest, []byte(c))] = c
			}
			thumbs := map[string][]string{} // digest of thumbnail to sources
			for _, d := range sortedKeys(digests) {
				c := digests[d]
				f := m.Files[d]
				if f == nil {
					fail("%s: nothing about %s", where, described[c])
				}
				e := records[c]
				got, has := f.Extension["NNNN-thumbnail"]
				if e == nil {
					if has {
						fail("%s: unexpected record %s of %s", where, j(got), described[c])
					}
					continue
				}
				if !has {
					fail("%s: no thumbnail recorded for %s", where, described[c])
				}
				r, ok := got.(*extension.ThumbnailResult)
				if !ok {
					fail("%s: record of %s is %T", where, described[c], got)
				}
				if r.SourceDigest != d || r.StorageType != typ || r.Ext != extFmt {
					fail("%s: wrong record %s of %s (%s)", where, j(r), described[c], d)
				}
				if (r.Error != "") != e.failed {
					fail("%s: record %s of %s", where, j(r), described[c])
				}
				if e.tool != nil && r.ID != e.tool.ID {
					fail("%s: record %s of %s, made by %s", where, j(r), described[c], e.tool.ID)
				}
				if e.failed {
					if r.Filename != "" || r.ThumbDigest != "" {
						fail("%s: record %s of the failure for %s names a file", where, j(r), described[c])
					}
					continue
				}
				var data string
				if typ == "extension" {
					p := path.Join(folder, "extensions/NNNN-thumbnail", r.Filename)
					if data, ok = files[p]; !ok {
						fail("%s: record %s of %s: there is no %s", where, j(r), described[c], p)
					}
				} else {
					l := inv.manifest[r.ThumbDigest]
					if len(l) == 0 {
						fail("%s: record %s of %s: not in the manifest", where, j(r), described[c])
					}
					data = files[path.Join(folder, l[0])]
					found := false
					for v := range inv.versions {
						found = found || inv.logical(v)[r.Filename] == r.ThumbDigest
					}
					if !found {
						fail("%s: record %s of %s: no version has this file", where, j(r), described[c])
					}
					thumbs[r.ThumbDigest] = append(thumbs[r.ThumbDigest], d)
				}
				if want := path.Ext(r.Filename); want != "."+extFmt {
					fail("%s: record %s of %s: suffix %q", where, j(r), described[c], want)
				}
				if e.tool != nil {
					if data != e.result {
						fail("%s: thumbnail of %s is %q, the tool made %q", where, described[c], data, e.result)
					}
					continue
				}
				if msg := checkThumb(data, extFmt, *e.pic, W, H); msg != "" {
					fail("%s: thumbnail of %s: %s", where, described[c], msg)
				}
			}
			for _, d := range sortedKeys(m.Files) {
				got, has := m.Files[d].Extension["NNNN-thumbnail"]
				if _, ok := digests[d]; ok {
					continue
				}
				if !has {
					continue
				}
				r, ok := got.(extension.ThumbnailResult)
				if p, is := got.(*extension.ThumbnailResult); is {
					r, ok = *p, true
				}
				if f := m.Files[r.SourceDigest]; ok && f != nil && strings.HasSuffix(f.InternalName[0], "/README.md") {
					continue
				}
				if !ok || !contains(thumbs[d], r.SourceDigest) {
					fail("%s: record %s of %v", where, j(got), m.Files[d].InternalName)
				}
				delete(thumbs, d)
			}
			for d, l := range thumbs {
				if _, ok := digests[d]; !ok {
					fail("%s: thumbnail %s of %v has no record", where, d, l)
				}
			}
		}
		sr, err := loadRoot(newCtx(), h.fsys, h.f)
		if err != nil {
			fail("%v", err)
		}
		sm, err := sr.ExtractMeta("", "obj")
		if err != nil {
			fail("ExtractMeta: %v", err)
		}
		check("extracted metadata", sm.Objects["obj"])
	}
	if len(versions) > 0 {
		n := rapid.IntRange(1, len(versions)).Draw(t, "extract")
		got, err := h.extract("obj", fmt.Sprintf("v%d", n), "full", false)
		if err != nil {
			fail("extract v%d: %v", n, err)
		}
		u := map[string]string{}
		for p, c := range got {
			if !thumbFile.MatchString(p) {
				u[p] = c
			}
		}
		if d := filesDiff(u, versions[n-1]); d != "" {
			fail("extracted version %d: %s", n, cut(d, 500))
		}
	}
	if len(versions) > 1 {
		classes["several versions"] = true
	}
	classes["records in "+typ] = true
	count("thumbnails", strings.Join(log, "\n")+j(cfg.Exts), nThumbs > 0, map[string]any{"extensions": extNames(cfg.Exts), "sessions": log}, sortedKeys(classes)...)
}

// noPanicOr turns a panic of f into an error.
func noPanicOr(f func(), err *error) bool {
	if p := noPanic(f); p != "" {
		*err = fmt.Errorf("%s", p)
	}
	return true
}

// checkThumb says what is wrong with a thumbnail of p.
func checkThumb(data, format string, p picture, w, h int) string {
	img, f, err := image.Decode(strings.NewReader(data))
	if err != nil {
		return err.Error()
	}
	if f != format {
		return "it is a " + f
	}
	b := img.Bounds()
	if b.Dx() > w || b.Dy() > h || b.Dx() != w && b.Dy() != h {
		return fmt.Sprintf("it has %dx%d pixels, which does not fit to %dx%d", b.Dx(), b.Dy(), w, h)
	}
	scale := math.Min(float64(w)/float64(p.W), float64(h)/float64(p.H))
	if math.Abs(float64(b.Dx())-math.Max(1, scale*float64(p.W))) > 1 || math.Abs(float64(b.Dy())-math.Max(1, scale*float64(p.H))) > 1 {
		return fmt.Sprintf("it has %dx%d pixels, the image %dx%d", b.Dx(), b.Dy(), p.W, p.H)
	}
	if p.Color.A == 255 && p.W > 0 {
		r, g, bl, _ := img.At(b.Dx()/2, b.Dy()/2).RGBA()
		d := func(x uint32, y uint8) float64 { return math.Abs(float64(x>>8) - float64(y)) }
		if d(r, p.Color.R) > 16 || d(g, p.Color.G) > 16 || d(bl, p.Color.B) > 16 {
			return fmt.Sprintf("its colour is %02x%02x%02x", r>>8, g>>8, bl>>8)
		}
	}
	return ""
}

func TestC31(t *testing.T) {
	runCheck(t, "thumbnails", 1500, 40000, propThumbnails)
}
