package main

import (
	"bytes"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
)

func init() {
	props["C12"] = prop{run: c12, level: "model_checking", assum: []string{
		"the layouts are those of Beneath Apple DOS and Beneath Apple ProDOS, written down here field by field",
		"fields are decoded byte-wise: every value of every byte and every value of every two-byte field over six backgrounds stands for all sectors",
	}}
}

// layout is a byte image assembled from decoded fields by documented offset.
type layout struct {
	b    []byte
	seen []int
}

func newLayout(n int) *layout { return &layout{b: make([]byte, n), seen: make([]int, n)} }

func (l *layout) put(off int, data ...byte) {
	for i, x := range data {
		l.b[off+i] = x
		l.seen[off+i]++
	}
}

func (l *layout) le(off int, v uint16) { l.put(off, byte(v), byte(v>>8)) }

// whole panics if the field table does not cover every byte exactly once.
func (l *layout) whole() []byte {
	for i, n := range l.seen {
		if n != 1 {
			panic(failure{"internal: offset table covers byte " + string(rune('0'+i/100)) + "... more or less than once"})
		}
	}
	return l.b
}

func vtocLayout(v *dos3.VTOC) []byte {
	l := newLayout(256)
	l.put(0x00, v.Unused1)
	l.put(0x01, v.CatalogTrack)
	l.put(0x02, v.CatalogSector)
	l.put(0x03, v.DOSRelease)
	l.put(0x04, v.Unused2[:]...)
	l.put(0x06, v.Volume)
	l.put(0x07, v.Unused3[:]...)
	l.put(0x27, v.TrackSectorListMaxSize)
	l.put(0x28, v.Unused4[:]...)
	l.put(0x30, v.LastTrack)
	l.put(0x31, byte(v.TrackDirection))
	l.put(0x32, v.Unused5[:]...)
	l.put(0x34, v.NumTracks)
	l.put(0x35, v.NumSectors)
	l.le(0x36, v.BytesPerSector)
	for i := range v.FreeSectors {
		l.put(0x38+4*i, v.FreeSectors[i][:]...)
	}
	return l.whole()
}

func catLayout(cs *dos3.CatalogSector) []byte {
	l := newLayout(256)
	l.put(0x00, cs.Unused1)
	l.put(0x01, cs.NextTrack)
	l.put(0x02, cs.NextSector)
	l.put(0x03, cs.Unused2[:]...)
	for i := range cs.FileDescs {
		o := 0x0b + 0x23*i
		fd := &cs.FileDescs[i]
		l.put(o+0x00, fd.TrackSectorListTrack)
		l.put(o+0x01, fd.TrackSectorListSector)
		l.put(o+0x02, byte(fd.Filetype))
		l.put(o+0x03, fd.Filename[:]...)
		l.le(o+0x21, fd.SectorCount)
	}
	return l.whole()
}

func tslLayout(x *dos3.TrackSectorList) []byte {
	l := newLayout(256)
	l.put(0x00, x.Unused1)
	l.put(0x01, x.NextTrack)
	l.put(0x02, x.NextSector)
	l.put(0x03, x.Unused2[:]...)
	l.le(0x05, x.SectorOffset)
	l.put(0x07, x.Unused3[:]...)
	for i, p := range x.TrackSectors {
		l.put(0x0c+2*i, p.Track, p.Sector)
	}
	return l.whole()
}

func (l *layout) date(off int, d prodos.DateTime) {
	l.put(off, d.YMD[0], d.YMD[1], d.HM[0], d.HM[1])
}

func (l *layout) descs(off int, ds []prodos.FileDescriptor) {
	for i := range ds {
		o := off + 0x27*i
		d := &ds[i]
		l.put(o, d.TypeAndNameLength)
		l.put(o+1, d.FileName[:]...)
		l.put(o+0x10, d.FileType)
		l.le(o+0x11, d.KeyPointer)
		l.le(o+0x13, d.BlocksUsed)
		l.put(o+0x15, d.EOF[:]...)
		l.date(o+0x18, d.Creation)
		l.put(o+0x1c, d.Version)
		l.put(o+0x1d, d.MinVersion)
		l.put(o+0x1e, byte(d.Access))
		l.le(o+0x1f, d.AuxType)
		l.date(o+0x21, d.LastMod)
		l.le(o+0x25, d.HeaderPointer)
	}
}

func vdkbLayout(b *prodos.VolumeDirectoryKeyBlock) []byte {
	l := newLayout(512)
	l.le(0, b.Prev)
	l.le(2, b.Next)
	h := &b.Header
	l.put(4, h.TypeAndNameLength)
	l.put(5, h.VolumeName[:]...)
	l.put(0x14, h.Unused1[:]...)
	l.date(0x1c, h.Creation)
	l.put(0x20, h.Version)
	l.put(0x21, h.MinVersion)
	l.put(0x22, byte(h.Access))
	l.put(0x23, h.EntryLength)
	l.put(0x24, h.EntriesPerBlock)
	l.le(0x25, h.FileCount)
	l.le(0x27, h.BitMapPointer)
	l.le(0x29, h.TotalBlocks)
	l.descs(0x2b, b.Descriptors[:])
	l.put(511, b.Extra)
	return l.whole()
}

func skbLayout(b *prodos.SubdirectoryKeyBlock) []byte {
	l := newLayout(512)
	l.le(0, b.Prev)
	l.le(2, b.Next)
	h := &b.Header
	l.put(4, h.TypeAndNameLength)
	l.put(5, h.SubdirectoryName[:]...)
	l.put(0x14, h.SeventyFive)
	l.put(0x15, h.Unused1[:]...)
	l.date(0x1c, h.Creation)
	l.put(0x20, h.Version)
	l.put(0x21, h.MinVersion)
	l.put(0x22, byte(h.Access))
	l.put(0x23, h.EntryLength)
	l.put(0x24, h.EntriesPerBlock)
	l.le(0x25, h.FileCount)
	l.le(0x27, h.ParentPointer)
	l.put(0x29, h.ParentEntry)
	l.put(0x2a, h.ParentEntryLength)
	l.descs(0x2b, b.Descriptors[:])
	l.put(511, b.Extra)
	return l.whole()
}

func vdbLayout(b *prodos.VolumeDirectoryBlock) []byte {
	l := newLayout(512)
	l.le(0, b.Prev)
	l.le(2, b.Next)
	l.descs(4, b.Descriptors[:])
	l.put(511, b.Extra)
	return l.whole()
}

func sbLayout(b *prodos.SubdirectoryBlock) []byte {
	l := newLayout(512)
	l.le(0, b.Prev)
	l.le(2, b.Next)
	l.descs(4, b.Descriptors[:])
	l.put(511, b.Extra)
	return l.whole()
}

// codec is one structure: decode returns the layout of the decoded fields and
// the re-encoded bytes, into a reused or a fresh struct.
type codec struct {
	name   string
	size   int
	words  []int // offsets of two-byte fields
	decode func(t *T, in []byte, fresh bool) (fields, again []byte)
}

func sectorCodec[V any, P interface {
	*V
	disk.SectorSink
}](name string, words []int, lay func(P) []byte, enc func(P) ([]byte, error)) codec {
	var reused V
	return codec{name, 256, words, func(t *T, in []byte, fresh bool) ([]byte, []byte) {
		p := P(&reused)
		if fresh {
			p = P(new(V))
		}
		arg := clone(in)
		t.noErr(p.FromSector(arg), "decoding a %s", name)
		f := lay(p)
		out, err := enc(p)
		t.noErr(err, "encoding a %s", name)
		if !bytes.Equal(arg, in) {
			t.Fail("decoding or encoding a %s changed its input", name)
		}
		// the decoded struct does not depend on the input slice any more
		for i := range arg {
			arg[i] ^= 0xff
		}
		if !bytes.Equal(lay(p), f) {
			t.Fail("a decoded %s changes when the buffer it was decoded from does", name)
		}
		t.Steps(2)
		return f, out
	}}
}

func blockCodec[V any, P interface {
	*V
	disk.BlockSink
}](name string, words []int, lay func(P) []byte, enc func(P) (disk.Block, error)) codec {
	var reused V
	return codec{name, 512, words, func(t *T, in []byte, fresh bool) ([]byte, []byte) {
		p := P(&reused)
		if fresh {
			p = P(new(V))
		}
		var blk disk.Block
		copy(blk[:], in)
		t.noErr(p.FromBlock(blk), "decoding a %s", name)
		f := lay(p)
		out, err := enc(p)
		t.noErr(err, "encoding a %s", name)
		t.Steps(2)
		return f, out[:]
	}}
}

func descWords(off, n int) []int {
	var w []int
	for i := 0; i < n; i++ {
		o := off + 0x27*i
		w = append(w, o+0x11, o+0x13, o+0x1f, o+0x25)
	}
	return w
}

func codecs() []codec {
	var catWords []int
	for i := 0; i < 7; i++ {
		catWords = append(catWords, 0x0b+35*i+0x21)
	}
	return []codec{
		sectorCodec[dos3.VTOC]("DOS volume table", []int{0x36}, vtocLayout, func(p *dos3.VTOC) ([]byte, error) { return p.ToSector() }),
		sectorCodec[dos3.CatalogSector]("DOS catalog sector", catWords, catLayout, func(p *dos3.CatalogSector) ([]byte, error) { return p.ToSector() }),
		sectorCodec[dos3.TrackSectorList]("DOS track/sector list", []int{5}, tslLayout, func(p *dos3.TrackSectorList) ([]byte, error) { return p.ToSector() }),
		blockCodec[prodos.VolumeDirectoryKeyBlock]("ProDOS volume directory key block", append([]int{0, 2, 0x25, 0x27, 0x29}, descWords(0x2b, 12)...), vdkbLayout, func(p *prodos.VolumeDirectoryKeyBlock) (disk.Block, error) { return p.ToBlock() }),
		blockCodec[prodos.VolumeDirectoryBlock]("ProDOS volume directory block", append([]int{0, 2}, descWords(4, 13)...), vdbLayout, func(p *prodos.VolumeDirectoryBlock) (disk.Block, error) { return p.ToBlock() }),
		blockCodec[prodos.SubdirectoryKeyBlock]("ProDOS subdirectory key block", append([]int{0, 2, 0x25, 0x27}, descWords(0x2b, 12)...), skbLayout, func(p *prodos.SubdirectoryKeyBlock) (disk.Block, error) { return p.ToBlock() }),
		blockCodec[prodos.SubdirectoryBlock]("ProDOS subdirectory block", append([]int{0, 2}, descWords(4, 13)...), sbLayout, func(p *prodos.SubdirectoryBlock) (disk.Block, error) { return p.ToBlock() }),
	}
}

func backgrounds(n int) [][]byte {
	var out [][]byte
	for k := 0; k < 6; k++ {
		b := make([]byte, n)
		for i := range b {
			switch k {
			case 1:
				b[i] = 0xff
			case 2:
				b[i] = byte(i)
			case 3:
				b[i] = byte(i*7 + i/256*3 + 11)
			case 4:
				b[i] = byte(255 - i)
			case 5:
				b[i] = byte(0x55 << (i & 1))
			}
		}
		out = append(out, b)
	}
	return out
}

func c12(c *Ctx) {
	for _, cd := range codecs() {
		check := func(t *T, in []byte, fresh bool) {
			f, out := cd.decode(t, in, fresh)
			if !bytes.Equal(f, in) {
				t.Fail("decoding a %s: by its fields %s", cd.name, diffAt(f, in))
			}
			if !bytes.Equal(out, in) {
				t.Fail("encoding a decoded %s: %s", cd.name, diffAt(out, in))
			}
			t.State(hashBytes(uint64(len(cd.name)), in))
		}
		c.Section(cd.name, "every value of every byte over six backgrounds, fresh and reused structs; every value of every two-byte field; every pair of byte positions")
		for off := 0; off < cd.size; off++ {
			c.Case(func(t *T) {
				for _, bg := range backgrounds(cd.size) {
					in := clone(bg)
					for v := 0; v < 256; v++ {
						in[off] = byte(v)
						check(t, in, v&1 == 0)
					}
				}
				// pairs: this byte against every other one
				in := make([]byte, cd.size)
				in[off] = 0x5a
				for o2 := 0; o2 < cd.size; o2++ {
					if o2 == off {
						continue
					}
					in[o2] = 0xa5
					check(t, in, true)
					in[o2] = 0
				}
				t.Outcome("bytes")
			}, "byte %03X", off)
		}
		for _, w := range cd.words {
			c.Case(func(t *T) {
				in := backgrounds(cd.size)[3]
				step := Pick(c, 1, 1)
				for v := 0; v < 65536; v += step {
					in[w], in[w+1] = byte(v), byte(v>>8)
					f, out := cd.decode(t, in, false)
					if !bytes.Equal(f, in) || !bytes.Equal(out, in) {
						t.Fail("%s: value %04X at %03X: fields %s; encoded %s", cd.name, v, w, diffAt(f, in), diffAt(out, in))
					}
				}
				t.Outcome("words")
			}, "word %03X", w)
		}
	}
	c.Section("wrong sizes", "every input size 0-600 except 256 is refused by the three DOS sector decoders")
	for n := 0; n <= 600; n++ {
		if n == 256 {
			continue
		}
		c.Case(func(t *T) {
			in := make([]byte, n)
			for i, s := range []disk.SectorSink{&dos3.VTOC{}, &dos3.CatalogSector{}, &dos3.TrackSectorList{}} {
				if s.FromSector(in) == nil {
					t.Fail("decoder %d accepted %d bytes", i, n)
				}
				t.Step()
			}
			t.State(hashInt(99, n))
			t.Outcome("refused")
		}, "%d bytes", n)
	}
	c.Section("free-sector bitmap", "all 65536 values of a track's two map bytes × 16 sectors, in every track's place")
	for b0 := 0; b0 < 256; b0++ {
		c.Case(func(t *T) {
			for b1 := 0; b1 < 256; b1++ {
				m := dos3.TrackFreeSectors{byte(b0), byte(b1), byte(b0 + b1), byte(b1 * 3)}
				for s := 0; s < 16; s++ {
					// first byte: sectors F-8 from the top bit down; second byte: 7-0
					bits := b0<<8 | b1
					if m.IsFree(byte(s)) != (bits>>s&1 != 0) {
						t.Fail("map bytes %02X %02X: sector %d reported free=%v", b0, b1, s, m.IsFree(byte(s)))
					}
				}
				t.Steps(16)
			}
			t.State(hashInt(98, b0))
			t.Outcome("bits")
		}, "first byte %02X", b0)
	}
	c.Case(func(t *T) {
		for tr := 0; tr < 50; tr++ {
			for s := 0; s < 16; s++ {
				sec := dosVTOC(1, 16, 17, 15)
				for i := 0; i < 50; i++ {
					sec[0x38+4*i], sec[0x39+4*i] = 0, 0
				}
				if s < 8 {
					sec[0x39+4*tr] = 1 << s
				} else {
					sec[0x38+4*tr] = 1 << (s - 8)
				}
				v := &dos3.VTOC{}
				t.noErr(v.FromSector(sec), "decoding")
				for a := 0; a < 50; a++ {
					for b := 0; b < 16; b++ {
						if v.FreeSectors[a].IsFree(byte(b)) != (a == tr && b == s) {
							t.Fail("only track %d sector %d is free; track %d sector %d reports %v", tr, s, a, b, v.FreeSectors[a].IsFree(byte(b)))
						}
					}
				}
				t.Step()
			}
		}
		t.Outcome("tracks")
	}, "one free sector on the disk")
	c.Section("index block", "decoding an index block: every slot and value")
	for slot := 0; slot < 256; slot++ {
		c.Case(func(t *T) {
			var ib prodos.IndexBlock
			for v := 0; v < 65536; v += Pick(c, 17, 1) {
				ib[slot], ib[256+slot] = byte(v), byte(v>>8)
				if got := ib.Get(byte(slot)); int(got) != v {
					t.Fail("slot %d holds %04X, Get returns %04X", slot, v, got)
				}
			}
			t.Outcome("index")
		}, "slot %d", slot)
	}
}
