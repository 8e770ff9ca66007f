package main

import (
	"bytes"
	"encoding/binary"
	"strings"
)

// ---------------------------------------------------------------- NakedOS

// nkSym is one slot of a symbol table as stored on disk.
type nkSym struct {
	addr uint16
	name string
	link int // slot number or -1
}

// nkEncode encodes a symbol name: characters from the first in the low bits,
// letters in 5 bits (1-26), digits in 6 bits (27-31, the sixth bit selecting 5-9).
func nkEncode(name string) (v uint64, bits int) {
	for i := 0; i < len(name); i++ {
		ch := name[i]
		switch {
		case ch >= 'a' && ch <= 'z':
			v |= uint64(ch-'a'+1) << bits
			bits += 5
		case ch >= 'A' && ch <= 'Z':
			v |= uint64(ch-'A'+1) << bits
			bits += 5
		case ch >= '0' && ch <= '4':
			v |= uint64(27+ch-'0') << bits
			bits += 6
		case ch >= '5' && ch <= '9':
			v |= uint64(32+27+ch-'5') << bits
			bits += 6
		}
	}
	return v, bits
}

// nkStorable tells whether a symbol name can be stored.
func nkStorable(name string) bool {
	if len(name) < 3 || len(name) > 9 {
		return false
	}
	bits := 0
	for i := 0; i < len(name); i++ {
		switch ch := name[i]; {
		case ch >= 'a' && ch <= 'z', ch >= 'A' && ch <= 'Z':
			bits += 5
		case ch >= '0' && ch <= '9':
			bits += 6
		default:
			return false
		}
	}
	return bits <= 48
}

// nkTables returns the contents of files 3 and 4 for the given slots.
func nkTables(syms map[int]nkSym) (f3, f4 []byte) {
	f3, f4 = make([]byte, 0x1000), make([]byte, 0x1000)
	for slot, s := range syms {
		o := slot * 5
		v, _ := nkEncode(s.name)
		binary.LittleEndian.PutUint16(f3[o:], s.addr)
		if s.link >= 0 {
			binary.LittleEndian.PutUint16(f3[o+2:], uint16(0xD000+5*s.link))
		}
		f3[o+4] = byte(v >> 40)
		for i := 0; i < 5; i++ {
			f4[o+i] = byte(v >> (8 * i))
		}
	}
	return f3, f4
}

func nkHash(a uint16) int { return int((a ^ a>>8) & 0x7f) }

// nkChain links live slots of equal hash in slot order.
func nkChain(syms map[int]nkSym) map[int]nkSym {
	last := map[int]int{}
	out := map[int]nkSym{}
	for i := 0; i < 819; i++ {
		s, ok := syms[i]
		if !ok {
			continue
		}
		s.link = -1
		out[i] = s
		h := nkHash(s.addr)
		if p, ok := last[h]; ok {
			ps := out[p]
			ps.link = i
			out[p] = ps
		}
		last[h] = i
	}
	return out
}

// nkImage builds a NakedOS disk in its own (raw) sector order: owner gives the
// sector map, contents the bytes of each file in sector order, and every other
// sector holds bytes identifying it.
func nkImage(owner [nSectors]byte, contents map[byte][]byte) []byte {
	img := make([]byte, floppy)
	for s := 0; s < nSectors; s++ {
		for b := 0; b < 256; b++ {
			img[s*256+b] = byte(s*3 + b*5 + s/256 + 1)
		}
	}
	pos := map[byte]int{}
	for s := 0; s < nSectors; s++ {
		f := owner[s]
		data, ok := contents[f]
		if !ok {
			continue
		}
		sec := img[s*256 : s*256+256]
		for i := range sec {
			sec[i] = 0
		}
		if p := pos[f]; p < len(data) {
			copy(sec, data[p:])
		}
		pos[f] += 256
	}
	nkPutMap(img, owner)
	return img
}

func nkPutMap(img []byte, owner [nSectors]byte) {
	copy(img[9*256+0xd0:9*256+0x100], owner[0:0x30])
	copy(img[10*256:11*256], owner[0x30:0x130])
	copy(img[11*256:12*256], owner[0x130:0x230])
}

// nkMap decodes the on-disk sector map.
func nkMap(img []byte) (owner [nSectors]byte) {
	copy(owner[0:0x30], img[9*256+0xd0:9*256+0x100])
	copy(owner[0x30:0x130], img[10*256:11*256])
	copy(owner[0x130:0x230], img[11*256:12*256])
	return owner
}

// nkFile reads a file through a decoded map.
func nkFile(img []byte, owner *[nSectors]byte, f byte) []byte {
	var out []byte
	for s, o := range owner {
		if o == f {
			out = append(out, img[s*256:s*256+256]...)
		}
	}
	return out
}

// nkNumber reads a name as a file number (0 if it is none).
func nkNumber(name string) byte {
	v, ok := hexValue(name)
	switch {
	case !ok:
		return 0
	case v >= 1 && v <= 0xFD:
		return byte(v)
	case v >= 0xDF01 && v <= 0xDFFD:
		return byte(v - 0xDF00)
	}
	return 0
}

// hexValue reads plain hexadecimal digits with a value of at most FFFF.
func hexValue(s string) (int, bool) {
	if s == "" {
		return 0, false
	}
	v := 0
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte("0123456789abcdef", s[i]|0x20)
		if s[i] < '0' || d < 0 {
			return 0, false
		}
		v = v*16 + d
		if v > 0xFFFF {
			return 0, false
		}
	}
	return v, true
}

// ---------------------------------------------------------------- DOS 3.3

// dosVTOC returns a volume table.
func dosVTOC(volume, sectors, catTrack, catSector byte) []byte {
	v := make([]byte, 256)
	v[0x00] = 4
	v[0x01], v[0x02], v[0x03] = catTrack, catSector, 3
	v[0x06] = volume
	v[0x27] = 122
	v[0x30], v[0x31] = 18, 1
	v[0x34], v[0x35] = 35, sectors
	v[0x36], v[0x37] = 0, 1
	for t := 0; t < 35; t++ {
		v[0x38+4*t], v[0x39+4*t] = 0xff, 0xff
	}
	return v
}

// dosVTOCValid is the documented validity rule of a volume table.
func dosVTOCValid(v []byte) bool {
	if v[3] != 3 || v[6] == 255 || (v[0x31] != 1 && v[0x31] != 0xff) || v[0x34] != 35 || (v[0x35] != 13 && v[0x35] != 16) ||
		v[0x36] != 0 || v[0x37] != 1 || v[0x27] != 122 {
		return false
	}
	for t := 0; t < 50; t++ {
		if v[0x38+4*t+2] != 0 || v[0x38+4*t+3] != 0 {
			return false
		}
	}
	return true
}

type ts struct{ t, s byte }

func (a ts) off() int { return int(a.t)*trackSize + int(a.s)*256 }

// dosEntry is one catalog entry.
type dosEntry struct {
	list  ts
	typ   byte // with 0x80 for locked
	name  string
	count uint16
}

func (e dosEntry) bytes() []byte {
	b := make([]byte, 35)
	b[0], b[1], b[2] = e.list.t, e.list.s, e.typ
	for i := 0; i < 30; i++ {
		ch := byte(' ')
		if i < len(e.name) {
			ch = e.name[i]
		}
		b[3+i] = ch | 0x80
	}
	if e.list.t == 0xff {
		b[3+29] = 18 // where DOS keeps the track of a deleted file
	}
	b[33], b[34] = byte(e.count), byte(e.count>>8)
	return b
}

// dosImage builds a disk with a catalog chain; entries are placed seven to a
// sector along the chain, nil meaning never used.
func dosImage(volume, sectors byte, chain []ts, entries []*dosEntry) []byte {
	img := make([]byte, floppy)
	first := ts{}
	if len(chain) > 0 {
		first = chain[0]
	}
	copy(img[17*trackSize:], dosVTOC(volume, sectors, first.t, first.s))
	for i, c := range chain {
		sec := img[c.off() : c.off()+256]
		if i+1 < len(chain) {
			sec[1], sec[2] = chain[i+1].t, chain[i+1].s
		}
		for j := 0; j < 7; j++ {
			if k := i*7 + j; k < len(entries) && entries[k] != nil {
				copy(sec[0x0b+35*j:], entries[k].bytes())
			}
		}
	}
	return img
}

// dosStdChain is the usual catalog chain of n sectors: track 17 from sector 15 down.
func dosStdChain(n int) []ts {
	var c []ts
	for i := 0; i < n; i++ {
		c = append(c, ts{17, byte(15 - i)})
	}
	return c
}

// dosFile writes a file's track/sector lists and data. data[i] is nil for a hole.
func dosFile(img []byte, lists []ts, where []ts, data [][]byte) {
	dosFileWith(img, lists, where, data, nil)
}

// dosFileWith lets tweak change the unused bytes and the sector offset of each list.
func dosFileWith(img []byte, lists []ts, where []ts, data [][]byte, tweak func(li int, sec []byte)) {
	for li, l := range lists {
		sec := make([]byte, 256)
		if li+1 < len(lists) {
			sec[1], sec[2] = lists[li+1].t, lists[li+1].s
		}
		sec[5], sec[6] = byte(li*122), byte(li*122>>8)
		if tweak != nil {
			tweak(li, sec)
		}
		for j := 0; j < 122; j++ {
			k := li*122 + j
			if k < len(data) && data[k] != nil {
				sec[12+2*j], sec[13+2*j] = where[k].t, where[k].s
				d := make([]byte, 256)
				copy(d, data[k])
				copy(img[where[k].off():], d)
			}
		}
		copy(img[l.off():], sec)
	}
}

// ---------------------------------------------------------------- ProDOS

// pEntry is one entry of a ProDOS directory.
type pEntry struct {
	storage byte // 0 deleted, 1-3 files, 0xD subdirectory
	name    string
	ftype   byte
	used    uint16
	eof     int
	key     uint16
	raw     []byte // if set, the 39 bytes as they are
	sub     *pDir
}

// pDir is a ProDOS directory: its blocks (the first is the key block) and its
// entries by position, counting from 0 after the header.
type pDir struct {
	name    string
	blocks  []int
	entries map[int]*pEntry
	// parentBlock chooses which block of the parent the header refers to: -1
	// for the key block, otherwise the index of the block holding the entry.
	parentExact bool
	parentIdx   int // otherwise, which block of the parent (0: the key block)
}

// proImage builds a ProDOS device of n blocks.
func proImage(n int, root *pDir) []byte {
	img := make([]byte, n*512)
	for b := 0; b < n; b++ {
		if b < 2 || b > 5 {
			for i := 0; i < 512; i++ {
				img[b*512+i] = byte(b*7 + i*3 + 1)
			}
		}
	}
	proDir(img, root, nil, 0, 0)
	// volume bitmap: all free, at block 6 (as long as there is one)
	for b := 6; b < n && b < 6+(n+4095)/4096; b++ {
		for i := 0; i < 512; i++ {
			img[b*512+i] = 0xff
		}
	}
	return img
}

func (e *pEntry) bytes(headerBlock int) []byte {
	b := make([]byte, 39)
	if e.raw != nil {
		copy(b, e.raw)
		return b
	}
	b[0] = e.storage<<4 | byte(len(e.name))
	if e.storage == 0 {
		b[0] = 0
	}
	copy(b[1:16], e.name)
	b[0x10] = e.ftype
	key := e.key
	if e.sub != nil {
		key = uint16(e.sub.blocks[0])
	}
	binary.LittleEndian.PutUint16(b[0x11:], key)
	binary.LittleEndian.PutUint16(b[0x13:], e.used)
	b[0x15], b[0x16], b[0x17] = byte(e.eof), byte(e.eof>>8), byte(e.eof>>16)
	b[0x1e] = 0xe3
	binary.LittleEndian.PutUint16(b[0x1f:], 0x2000)
	binary.LittleEndian.PutUint16(b[0x25:], uint16(headerBlock))
	return b
}

// proDir writes a directory and everything under it.
func proDir(img []byte, d *pDir, parent *pDir, parentBlock int, parentEntry int) {
	count := 0
	for i, blk := range d.blocks {
		o := img[blk*512 : blk*512+512]
		for j := range o {
			o[j] = 0
		}
		if i > 0 {
			binary.LittleEndian.PutUint16(o[0:], uint16(d.blocks[i-1]))
		}
		if i+1 < len(d.blocks) {
			binary.LittleEndian.PutUint16(o[2:], uint16(d.blocks[i+1]))
		}
	}
	for pos, e := range d.entries {
		bi, slot := (pos+1)/13, (pos+1)%13
		blk := d.blocks[bi]
		copy(img[blk*512+4+slot*39:], e.bytes(d.blocks[0]))
		if e.storage != 0 {
			count++
		}
		if e.sub != nil {
			pb := d.blocks[e.sub.parentIdx]
			if e.sub.parentExact {
				pb = blk
			}
			proDir(img, e.sub, d, pb, slot+1)
		}
	}
	h := img[d.blocks[0]*512+4 : d.blocks[0]*512+4+39]
	copy(h[1:16], d.name)
	h[0x1e], h[0x1f], h[0x20] = 0xc3, 0x27, 0x0d
	binary.LittleEndian.PutUint16(h[0x21:], uint16(count))
	if parent == nil {
		h[0] = 0xf0 | byte(len(d.name))
		binary.LittleEndian.PutUint16(h[0x23:], 6)
		n := len(img) / 512
		if n > 65535 {
			n = 65535
		}
		binary.LittleEndian.PutUint16(h[0x25:], uint16(n))
	} else {
		h[0] = 0xe0 | byte(len(d.name))
		h[0x10] = 0x75
		binary.LittleEndian.PutUint16(h[0x23:], uint16(parentBlock))
		h[0x25], h[0x26] = byte(parentEntry), 0x27
	}
}

func zeros(n int) []byte { return bytes.Repeat([]byte{0}, n) }
