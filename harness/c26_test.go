package zzverif

// C26: the path cleaning functions of package ocfl.

import (
	"errors"
	"fmt"
	"path"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"pgregory.net/rapid"
)

const shellSpecial = `*?:[]"<>|(){}&'!\;`

// cleanSegment is the documented cleaning of one path segment.
func cleanSegment(seg, special string) string {
	r := []rune(seg)
	for i, c := range r {
		if c < 0x20 || c == 0x7f || strings.ContainsRune(special, c) {
			r[i] = '_'
		}
	}
	return strings.TrimRight(strings.TrimLeft(string(r), " -~"), " ")
}

func genDirtyPath(t *rapid.T) string {
	var segs []string
	for n := rapid.IntRange(0, 4).Draw(t, "segments"); n > 0; n-- {
		var s string
		switch rapid.IntRange(0, 7).Draw(t, "segmentKind") {
		case 0:
			s = string(rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "bytes"))
		case 1:
			s = rapid.SampledFrom([]string{"", ".", "..", " ", "-", "~", " .. ", "-.", "...", "\u00a0", "\u2028x", "a\u0085", "\t", "\xff"}).Draw(t, "odd")
		case 2:
			s = rapid.SampledFrom([]string{"a", "name.txt", "ü", "日本語", "😀"}).Draw(t, "clean")
		case 3:
			s = strings.Repeat(rapid.SampledFrom([]string{"x", "é", "\xfe", "-", " "}).Draw(t, "unit"), rapid.IntRange(1, 300).Draw(t, "times"))
		default:
			s = rapid.StringOfN(rapid.RuneFrom([]rune("abc .-~_*?:[]\"<>|(){}&'!\\;#@\x00\x01\n\r\t\x1f\x7fäß€😀 -~ ")), 0, 10, -1).Draw(t, "text")
		}
		segs = append(segs, s)
	}
	return strings.Join(segs, "/")
}

// dirt describes why a cleaned path is not clean.
func dirt(p, special string) string {
	if !utf8.ValidString(p) {
		return "it is not valid UTF-8"
	}
	for _, c := range p {
		if c < 0x20 || c == 0x7f {
			return fmt.Sprintf("it contains the control character %q", c)
		}
		if strings.ContainsRune(special, c) {
			return fmt.Sprintf("it contains %q", c)
		}
	}
	for _, s := range strings.Split(p, "/") {
		if strings.TrimLeft(s, " -~") != s {
			return fmt.Sprintf("segment %q begins badly", s)
		}
		if strings.TrimRight(s, " ") != s {
			return fmt.Sprintf("segment %q ends with blanks", s)
		}
	}
	return ""
}

func TestC26(t *testing.T) {
	runCheck(t, "names", 60000, 2000000, func(t *rapid.T) {
		in := genDirtyPath(t)
		maxF := rapid.SampledFrom([]int{0, 1, 5, 20, 127, 255, 32000}).Draw(t, "maxName")
		maxP := rapid.SampledFrom([]int{0, 3, 30, 200, 32000}).Draw(t, "maxPath")
		// limits around the true length
		var segs []string
		longest := 0
		for _, s := range strings.Split(strings.ToValidUTF8(in, "_"), "/") {
			if s = cleanSegment(s, shellSpecial+"#@"); s != "" {
				segs = append(segs, s)
				longest = max(longest, len(s))
			}
		}
		want := strings.Join(segs, "/")
		if rapid.Bool().Draw(t, "edge") {
			maxF = max(0, longest+rapid.IntRange(-1, 1).Draw(t, "f"))
			maxP = max(0, len(want)+rapid.IntRange(-1, 1).Draw(t, "p"))
		}
		got, err := ocfl.CleanPath(in, maxF, maxP)
		switch {
		case longest > maxF:
			if err == nil || !errors.Is(err, ocfl.ErrFilenameTooLong) {
				t.Fatalf("CleanPath(%q, %d, %d) = %q, %v: a name has %d bytes", in, maxF, maxP, got, err, longest)
			}
		case len(want) > maxP:
			if err == nil || !errors.Is(err, ocfl.ErrPathnameTooLong) {
				t.Fatalf("CleanPath(%q, %d, %d) = %q, %v: the path has %d bytes", in, maxF, maxP, got, err, len(want))
			}
		case err != nil:
			t.Fatalf("CleanPath(%q, %d, %d): %v", in, maxF, maxP, err)
		default:
			if d := dirt(got, shellSpecial+"#@"); d != "" {
				t.Fatalf("CleanPath(%q) = %q: %s", in, got, d)
			}
			if got != want {
				t.Fatalf("CleanPath(%q) = %q, want %q", in, got, want)
			}
			if again, err := ocfl.CleanPath(got, maxF, maxP); err != nil || again != got {
				t.Fatalf("CleanPath(%q) = %q, cleaned again it is %q (%v)", in, got, again, err)
			}
		}
		fixed := ocfl.FixFilename(in)
		if d := dirt(fixed, shellSpecial); d != "" {
			t.Fatalf("FixFilename(%q) = %q: %s", in, fixed, d)
		}
		if again := ocfl.FixFilename(fixed); again != fixed {
			t.Fatalf("FixFilename(%q) = %q, fixed again it is %q", in, fixed, again)
		}
		segs = nil
		for _, s := range strings.Split(strings.ToValidUTF8(in, ""), "/") {
			segs = append(segs, cleanSegment(s, shellSpecial))
		}
		want2 := path.Join(segs...)
		if strings.HasPrefix(in, "/") {
			want2 = "/" + want2
		}
		if fixed != want2 {
			t.Fatalf("FixFilename(%q) = %q, want %q", in, fixed, want2)
		}
		changed := got != in || fixed != in
		cl := []string{}
		if err != nil {
			cl = append(cl, "too long")
		}
		if !utf8.ValidString(in) {
			cl = append(cl, "invalid UTF-8")
		}
		if !changed {
			cl = append(cl, "clean already")
		}
		count("names", fmt.Sprintf("%q %d %d", in, maxF, maxP), changed, map[string]any{"in": fmt.Sprintf("%q", in), "CleanPath": got, "FixFilename": fixed, "error": fmt.Sprint(err)}, cl...)
	})
}
