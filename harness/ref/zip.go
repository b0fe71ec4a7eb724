package ref

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"io"
)

// ZipEntry is one central directory entry.
type ZipEntry struct {
	Name string
	Data []byte
	OK   bool // the content could be read
}

// ReadZip reads a file through its end-of-directory record and central directory, ignoring checksums, wrong
// compressed sizes and damage after the last byte of content. ok is false if
// the directory is malformed.
func ReadZip(f []byte) (out []ZipEntry, ok bool) {
	le := binary.LittleEndian
	eocd := -1
	for p := len(f) - 22; p >= 0 && p >= len(f)-22-65535; p-- {
		if le.Uint32(f[p:]) == 0x06054b50 && p+22+int(le.Uint16(f[p+20:])) == len(f) {
			eocd = p
			break
		}
	}
	if eocd < 0 {
		return nil, false
	}
	n, size, off := int(le.Uint16(f[eocd+10:])), int(le.Uint32(f[eocd+12:])), int(le.Uint32(f[eocd+16:]))
	if off+size > eocd {
		return nil, false
	}
	p := off
	for i := 0; i < n; i++ {
		if p+46 > eocd || le.Uint32(f[p:]) != 0x02014b50 {
			return nil, false
		}
		method := le.Uint16(f[p+10:])
		cs := int(le.Uint32(f[p+20:]))
		us := int(le.Uint32(f[p+24:]))
		nl, xl, cl := int(le.Uint16(f[p+28:])), int(le.Uint16(f[p+30:])), int(le.Uint16(f[p+32:]))
		lo := int(le.Uint32(f[p+42:]))
		if p+46+nl+xl+cl > eocd {
			return nil, false
		}
		e := ZipEntry{Name: string(f[p+46 : p+46+nl])}
		p += 46 + nl + xl + cl
		if lo+30 <= len(f) && le.Uint32(f[lo:]) == 0x04034b50 {
			d := lo + 30 + int(le.Uint16(f[lo+26:])) + int(le.Uint16(f[lo+28:]))
			if end := min(d+cs, len(f)); d <= end {
				if method == 0 {
					e.Data, e.OK = f[d:end], d+cs <= len(f)
				} else {
					b, err := io.ReadAll(io.LimitReader(flate.NewReader(bytes.NewReader(f[d:end])), int64(us)+1))
					e.Data, e.OK = b, err == nil || len(b) == us
				}
			}
		}
		out = append(out, e)
	}
	return out, p == off+size
}
