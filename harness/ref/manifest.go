package ref

import (
	"bytes"
	"strings"

	"github.com/avast/apkverifier/zzverif/gen"
)

type jline struct {
	text       string
	start, end int // with its line end
	terminated bool
}

// ParseManifest reads a JAR manifest or signature file line by line. mixed: line ends of several kinds, which Android
// reads in its own ways.
func ParseManifest(b []byte, main bool) (d *gen.JarDoc, ok, mixed bool) {
	crlf, cr, lf := bytes.Count(b, []byte("\r\n")), bytes.Count(b, []byte("\r")), bytes.Count(b, []byte("\n"))
	kinds := 0
	for _, n := range []int{crlf, cr - crlf, lf - crlf} {
		if n > 0 {
			kinds++
		}
	}
	mixed = kinds > 1
	var lines []jline
	for p := 0; p < len(b); {
		e := p
		for e < len(b) && b[e] != '\r' && b[e] != '\n' {
			e++
		}
		l := jline{text: string(b[p:e]), start: p, end: e}
		if e < len(b) {
			l.terminated = true
			l.end++
			if b[e] == '\r' && e+1 < len(b) && b[e+1] == '\n' {
				l.end++
			}
		}
		lines = append(lines, l)
		p = l.end
	}
	d = &gen.JarDoc{Raw: b}
	i := 0
	mark := 0
	seen := map[string]bool{}
	for first := true; ; first = false {
		// one section
		var attrs []gen.JAttr
		ended := false
		for !ended {
			if i == len(lines) {
				ended = true
				break
			}
			if len(attrs) > 0 && lines[i].text == "" {
				for i < len(lines) && lines[i].text == "" {
					i++
				}
				break
			}
			l := lines[i]
			if !strings.Contains(string(b[l.start:]), ":") { // an ignored rest
				i = len(lines)
				ended = true
				break
			}
			k, v, found := strings.Cut(l.text, ":")
			if !found || !strings.HasPrefix(v, " ") || !validName(k) {
				return nil, false, mixed
			}
			v = v[1:]
			i++
			for i < len(lines) && l.terminated && strings.HasPrefix(lines[i].text, " ") {
				l = lines[i]
				v += l.text[1:]
				i++
			}
			j := i
			for j < len(lines) && lines[j].text == "" {
				j++
			}
			// a NUL right behind the line ends is still read with the value
			if strings.Contains(v, "\x00") || (j < len(lines) && strings.HasPrefix(lines[j].text, "\x00")) {
				return nil, false, mixed
			}
			if !l.terminated { // Android ignores an unterminated last line
				ended = true
				break
			}
			attrs = append(attrs, gen.JAttr{K: k, V: v})
		}
		end := len(b)
		if i < len(lines) {
			end = lines[i].start
		}
		if first {
			d.Main, d.MainEnd = attrs, end
		} else {
			if len(attrs) == 0 {
				return d, true, mixed
			}
			if !strings.EqualFold(attrs[0].K, "name") {
				return nil, false, mixed
			}
			n := attrs[0].V
			if main && seen[n] {
				return nil, false, mixed
			}
			seen[n] = true
			d.Sections = append(d.Sections, gen.JSection{Name: n, Attrs: attrs[1:]})
			d.Chunks = append(d.Chunks, b[mark:end])
		}
		mark = end
		if ended && i == len(lines) {
			return d, true, mixed
		}
	}
}

func validName(s string) bool {
	if len(s) == 0 || len(s) > 70 {
		return false
	}
	for _, c := range []byte(s) {
		if !strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_", rune(c)) {
			return false
		}
	}
	return true
}
