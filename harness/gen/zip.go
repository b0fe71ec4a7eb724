package gen

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"hash/crc32"
	"sync"
)

// Entry is one ZIP entry.
type Entry struct {
	Name     string
	Data     []byte
	Method   uint16 // 0 store, 8 deflate
	Extra    []byte // in both headers unless LFHExtra set
	LFHExtra []byte
	ExtAttrs uint32
	Creator  uint16 // version made by
	Comment  []byte
	CDMethod int // -1: as Method; only used if OverrideCD
	Level    int
	Body     []byte // the compressed data, overrides what Data and Method give
	SizeOff  int    // added to the recorded uncompressed size
}

// Zip is a ZIP file under construction.
type Zip struct {
	Prefix  []byte // bytes before the first local header (offsets account for it)
	Entries []*Entry
	Comment []byte
	Pad     int // extra zero bytes between the last entry and the central directory / signing block
	Align   int // pad so that the section before the block is a multiple (0: none)
}

// Sections of a file: the three protected parts (eocd's offset field points at the end of before).
type Sections struct{ Before, CD, EOCD []byte }

func le16(v int) []byte { b := make([]byte, 2); binary.LittleEndian.PutUint16(b, uint16(v)); return b }
func le32(v uint32) []byte {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, v)
	return b
}
func le64(v uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b
}

// LE32 and LE64 are little-endian encodings.
func LE32(v uint32) []byte { return le32(v) }
func LE64(v uint64) []byte { return le64(v) }

var deflCache sync.Map

// Deflate compresses.
func Deflate(d []byte) []byte { return deflate(d, 0) }

func deflate(d []byte, level int) []byte {
	if level == 0 {
		level = 6
	}
	key := string(d) + string(rune(level))
	if len(d) < 4096 {
		if v, ok := deflCache.Load(key); ok {
			return v.([]byte)
		}
	}
	var b bytes.Buffer
	w, _ := flate.NewWriter(&b, level)
	w.Write(d)
	w.Close()
	if len(d) < 4096 {
		deflCache.Store(key, b.Bytes())
	}
	return b.Bytes()
}

// Build renders the three sections.
func (z *Zip) Build() Sections {
	var before, cd bytes.Buffer
	before.Write(z.Prefix)
	for _, e := range z.Entries {
		body := e.Data
		if e.Method == 8 {
			body = deflate(e.Data, e.Level)
		}
		if e.Body != nil {
			body = e.Body
		}
		crc := crc32.ChecksumIEEE(e.Data)
		off := before.Len()
		lx := e.Extra
		if e.LFHExtra != nil {
			lx = e.LFHExtra
		}
		before.Write(cat([]byte("PK\x03\x04"), le16(20), le16(0), le16(int(e.Method)), le16(0), le16(0x5221), le32(crc), le32(uint32(len(body))), le32(uint32(len(e.Data)+e.SizeOff)), le16(len(e.Name)), le16(len(lx)), []byte(e.Name), lx))
		before.Write(body)
		cd.Write(cat([]byte("PK\x01\x02"), le16(int(e.Creator)), le16(20), le16(0), le16(int(e.Method)), le16(0), le16(0x5221), le32(crc), le32(uint32(len(body))), le32(uint32(len(e.Data)+e.SizeOff)), le16(len(e.Name)), le16(len(e.Extra)), le16(len(e.Comment)), le16(0), le16(0), le32(e.ExtAttrs), le32(uint32(off)), []byte(e.Name), e.Extra, e.Comment))
	}
	before.Write(make([]byte, z.Pad))
	if z.Align > 0 {
		if r := before.Len() % z.Align; r != 0 {
			before.Write(make([]byte, z.Align-r))
		}
	}
	eocd := cat([]byte("PK\x05\x06"), le16(0), le16(0), le16(len(z.Entries)), le16(len(z.Entries)), le32(uint32(cd.Len())), le32(uint32(before.Len())), le16(len(z.Comment)), z.Comment)
	return Sections{before.Bytes(), cd.Bytes(), eocd}
}

// Assemble joins the sections around a signing block (may be empty), fixing the EOCD offset.
func (s Sections) Assemble(block []byte) []byte {
	e := append([]byte(nil), s.EOCD...)
	if len(e) >= 20 {
		binary.LittleEndian.PutUint32(e[16:], uint32(len(s.Before)+len(block)))
	}
	return cat(s.Before, block, s.CD, e)
}

// Clone deep-copies the entry list (not the data).
func (z *Zip) Clone() *Zip {
	c := *z
	c.Entries = make([]*Entry, len(z.Entries))
	for i, e := range z.Entries {
		x := *e
		c.Entries[i] = &x
	}
	return &c
}

// Find returns the first entry with the name or nil.
func (z *Zip) Find(name string) *Entry {
	for _, e := range z.Entries {
		if e.Name == name {
			return e
		}
	}
	return nil
}
