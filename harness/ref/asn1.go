package ref

import "math"

// The lenient decoder's relaxations, as a normalisation to DER that is independent of its code: base-128 integers
// (tag numbers and object identifier components) may have leading zero groups, lengths may be longer than necessary
// and PrintableStrings may hold any character. Everything else stays as it is.

type tlvHead struct {
	class, tag  int
	constructed bool
	length      int
}

func base128(b []byte) (v, n int, ok bool) {
	var x int64
	for i := 0; i < len(b); i++ {
		if i == 5 {
			return 0, 0, false
		}
		x = x<<7 | int64(b[i]&0x7f)
		if b[i]&0x80 == 0 {
			return int(x), i + 1, x <= math.MaxInt32
		}
	}
	return 0, 0, false
}

// head reads a tag and a length; n is their size.
func head(b []byte) (h tlvHead, n int, ok bool) {
	if len(b) == 0 {
		return
	}
	h.class, h.constructed, h.tag = int(b[0]>>6), b[0]&0x20 != 0, int(b[0]&0x1f)
	n = 1
	if h.tag == 0x1f {
		v, m, good := base128(b[1:])
		if !good {
			return
		}
		h.tag, n = v, n+m
	}
	if n >= len(b) {
		return
	}
	l := b[n]
	n++
	if l < 0x80 {
		h.length = int(l)
		return h, n, true
	}
	if l == 0x80 {
		return
	}
	for i := 0; i < int(l&0x7f); i++ {
		if n >= len(b) || h.length >= 1<<23 {
			return
		}
		h.length = h.length<<8 | int(b[n])
		n++
	}
	return h, n, true
}

func (h tlvHead) encode() []byte {
	first := byte(h.class<<6) | b2(h.constructed, 0x20)
	var out []byte
	if h.tag < 0x1f {
		out = []byte{first | byte(h.tag)}
	} else {
		out = append(out, first|0x1f)
		out = append(out, enc128(h.tag)...)
	}
	if h.length < 0x80 {
		return append(out, byte(h.length))
	}
	var l []byte
	for x := h.length; x > 0; x >>= 8 {
		l = append([]byte{byte(x)}, l...)
	}
	return append(append(out, 0x80|byte(len(l))), l...)
}

func b2(c bool, v byte) byte {
	if c {
		return v
	}
	return 0
}

func enc128(v int) []byte {
	out := []byte{byte(v & 0x7f)}
	for v >>= 7; v > 0; v >>= 7 {
		out = append([]byte{byte(v&0x7f) | 0x80}, out...)
	}
	return out
}

// Printable tells whether the standard decoder takes c in a PrintableString.
func Printable(c byte) bool {
	switch {
	case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':
		return true
	}
	for _, x := range []byte(" '()+,-./:=?*&") {
		if c == x {
			return true
		}
	}
	return false
}

func normPrimitive(tag int, b []byte) []byte {
	switch tag {
	case 6:
		var out []byte
		for len(b) > 0 {
			v, n, ok := base128(b)
			if !ok {
				return append(out, b...)
			}
			out, b = append(out, enc128(v)...), b[n:]
		}
		return out
	case 19:
		out := append([]byte{}, b...)
		for i := range out {
			if !Printable(out[i]) {
				out[i] = '?'
			}
		}
		return out
	}
	return b
}

// NormDER normalises the first value of b and leaves the rest alone. as is the universal type an implicitly tagged
// outermost primitive value is to be read as (0: none), explicit tells that the outermost tag is an explicit one,
// whose length the decoders do not check.
func NormDER(b []byte, as int, explicit bool) []byte {
	h, n, ok := head(b)
	if !ok {
		return b
	}
	if explicit && h.class != 0 {
		if h.length > 0 {
			inner := NormDER(b[n:], 0, false)
			if h.length <= len(b)-n {
				h.length = len(inner) - (len(b) - n - h.length)
				if h.length <= 0 {
					h.length = 1
				}
			}
			return append(h.encode(), inner...)
		}
		return append(h.encode(), b[n:]...)
	}
	if h.length > len(b)-n {
		return append(h.encode(), b[n:]...)
	}
	content, rest := b[n:n+h.length], b[n+h.length:]
	switch {
	case h.constructed:
		content = NormSeq(content)
	case h.class == 0:
		content = normPrimitive(h.tag, content)
	case as != 0:
		content = normPrimitive(as, content)
	}
	h.length = len(content)
	return append(append(h.encode(), content...), rest...)
}

// NormSeq normalises concatenated values.
func NormSeq(b []byte) []byte {
	var out []byte
	for len(b) > 0 {
		h, n, ok := head(b)
		if !ok || h.length > len(b)-n {
			return append(out, NormDER(b, 0, false)...)
		}
		out = append(out, NormDER(b[:n+h.length], 0, false)...)
		b = b[n+h.length:]
	}
	return out
}
