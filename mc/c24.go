package main

import (
	"bytes"
	"fmt"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
)

func init() {
	props["C24"] = prop{run: c24, level: "model_checking", assum: []string{
		"sector numbers are 0-15; what sector 16 and up means is not specified",
		"write positions are exhaustive; contents are position-dependent patterns",
	}}
}

// rawSector is a sector structure that keeps its bytes.
type rawSector struct {
	dos3.DiskSector
	data []byte
	fail bool
}

func (r *rawSector) FromSector(d []byte) error {
	if r.fail {
		return fmt.Errorf("refused")
	}
	r.data = d
	return nil
}
func (r *rawSector) ToSector() ([]byte, error) {
	if r.fail {
		return nil, fmt.Errorf("refused")
	}
	return r.data, nil
}

// rawBlock is a block structure that keeps its bytes.
type rawBlock struct {
	data disk.Block
	at   uint16
	fail bool
}

func (r *rawBlock) FromBlock(b disk.Block) error {
	if r.fail {
		return fmt.Errorf("refused")
	}
	r.data = b
	return nil
}
func (r *rawBlock) ToBlock() (disk.Block, error) {
	if r.fail {
		return disk.Block{}, fmt.Errorf("refused")
	}
	return r.data, nil
}
func (r *rawBlock) GetBlock() uint16  { return r.at }
func (r *rawBlock) SetBlock(x uint16) { r.at = x }

func c24(c *Ctx) {
	c.Section("sectors", "every sector of a 35-track image read, written, loaded and stored as raw and DOS structures; copies are private")
	for tr := 0; tr < 35; tr++ {
		for s := 0; s < 16; s++ {
			c.Case(func(t *T) {
				for k := 0; k < 2; k++ {
					img := stamped(3 + 40*k)
					orig := clone(img)
					o := tr*trackSize + s*256
					got, err := disk.ReadSector(img, byte(tr), byte(s))
					t.Step()
					t.noErr(err, "reading")
					t.mustEqual(got, orig[o:o+256], "reading track %d sector %d", tr, s)
					for i := range got {
						got[i] ^= 0xff
					}
					t.mustEqual(img, orig, "changing what was read changed the image")
					// write
					want := clone(orig)
					copy(want[o:], got)
					data := clone(got)
					t.noErr(disk.WriteSector(img, byte(tr), byte(s), data), "writing")
					t.Step()
					t.mustEqual(img, want, "writing track %d sector %d", tr, s)
					for i := range data {
						data[i] = 0x77
					}
					t.mustEqual(img, want, "changing the data after writing it changed the image")
					// load and store
					r := &rawSector{}
					t.noErr(disk.UnmarshalLogicalSector(img, r, byte(tr), byte(s)), "loading")
					t.mustEqual(r.data, want[o:o+256], "loading track %d sector %d", tr, s)
					r.data = bytes.Repeat([]byte{byte(tr + s), 0x33}, 128)
					copy(want[o:], r.data)
					t.noErr(disk.MarshalLogicalSector(img, r), "storing")
					t.Steps(2)
					t.mustEqual(img, want, "storing what was loaded from track %d sector %d", tr, s)
					for i, st := range []interface {
						disk.SectorSink
						disk.SectorSource
					}{&dos3.VTOC{}, &dos3.CatalogSector{}, &dos3.TrackSectorList{}} {
						t.noErr(disk.UnmarshalLogicalSector(img, st, byte(tr), byte(s)), "loading structure %d", i)
						switch x := st.(type) {
						case *dos3.VTOC:
							x.Volume++
							want[o+6]++
						case *dos3.CatalogSector:
							x.FileDescs[6].SectorCount ^= 0x8001
							want[o+0x0b+35*6+33] ^= 1
							want[o+0x0b+35*6+34] ^= 0x80
						case *dos3.TrackSectorList:
							x.TrackSectors[121].Sector++
							want[o+255]++
						}
						t.noErr(disk.MarshalLogicalSector(img, st), "storing structure %d", i)
						t.Steps(2)
						t.mustEqual(img, want, "storing structure %d loaded from track %d sector %d with one field changed", i, tr, s)
					}
					// wrong sizes and failing sources change nothing
					for _, n := range []int{0, 1, 128, 255, 257, 300, 512} {
						if disk.WriteSector(img, byte(tr), byte(s), make([]byte, n)) == nil {
							t.Fail("writing %d bytes to a sector succeeded", n)
						}
						bad := &rawSector{data: make([]byte, n)}
						bad.SetTrack(byte(tr))
						bad.SetSector(byte(s))
						if disk.MarshalLogicalSector(img, bad) == nil {
							t.Fail("storing a structure of %d bytes succeeded", n)
						}
						t.Steps(2)
					}
					if disk.MarshalLogicalSector(img, &rawSector{fail: true}) == nil || disk.UnmarshalLogicalSector(img, &rawSector{fail: true}, byte(tr), byte(s)) == nil {
						t.Fail("a structure's own error was dropped")
					}
					t.mustEqual(img, want, "a refused write changed the image")
					t.State(hashInt(hashInt(1, o), k))
				}
				t.Outcome("sector")
			}, "track %d sector %d", tr, s)
		}
	}
	c.Section("beyond the end", "every (track, sector) against images cut at every sector boundary ±1 byte near it and at 35 tracks; every block against devices of 0-300 blocks")
	for tr := 0; tr < 256; tr++ {
		c.Case(func(t *T) {
			for s := 0; s < 16; s++ {
				o := tr*trackSize + s*256
				for _, size := range []int{0, 1, 255, 256, floppy, o, o - 256, o + 255, o + 256, o + 257, o + 512, 50 * trackSize} {
					if size < 0 || size > 256*trackSize+512 {
						continue
					}
					if size > floppy && size < o {
						continue
					}
					img := make([]byte, size)
					fits := o+256 <= size
					got, err := disk.ReadSector(img, byte(tr), byte(s))
					if (err == nil) != fits {
						t.Fail("reading track %d sector %d of %d bytes: error %v", tr, s, size, err)
					}
					if fits && len(got) != 256 {
						t.Fail("reading track %d sector %d of %d bytes gave %d bytes", tr, s, size, len(got))
					}
					if err := disk.UnmarshalLogicalSector(img, &rawSector{}, byte(tr), byte(s)); (err == nil) != fits {
						t.Fail("loading track %d sector %d of %d bytes: error %v", tr, s, size, err)
					}
					d := bytes.Repeat([]byte{0xee}, 256)
					if err := disk.WriteSector(img, byte(tr), byte(s), d); (err == nil) != fits {
						t.Fail("writing track %d sector %d of %d bytes: error %v", tr, s, size, err)
					}
					n := bytes.Count(img, []byte{0xee})
					if fits && (n != 256 || !bytes.Equal(img[o:o+256], d)) || !fits && n != 0 {
						t.Fail("writing track %d sector %d of %d bytes changed %d bytes", tr, s, size, n)
					}
					t.Steps(3)
					if !fits {
						continue
					}
					for _, st := range []interface {
						disk.SectorSink
						disk.SectorSource
					}{&rawSector{}, &dos3.TrackSectorList{}} {
						t.noErr(disk.UnmarshalLogicalSector(img, st, byte(tr), byte(s)), "loading track %d sector %d of %d bytes", tr, s, size)
						switch x := st.(type) {
						case *rawSector:
							t.mustEqual(x.data, d, "loading track %d sector %d of %d bytes", tr, s, size)
							d[7] = 0x11
							x.data = clone(d)
						case *dos3.TrackSectorList:
							x.TrackSectors[121].Sector = 0x22
							d[255] = 0x22
						}
						t.noErr(disk.MarshalLogicalSector(img, st), "storing track %d sector %d of %d bytes", tr, s, size)
						t.mustEqual(img[o:o+256], d, "storing what was loaded from track %d sector %d of %d bytes", tr, s, size)
						t.Steps(2)
					}
					if n := bytes.Count(img, []byte{0}); n != size-256 {
						t.Fail("storing track %d sector %d of %d bytes changed other bytes", tr, s, size)
					}
				}
			}
			t.State(hashInt(2, tr))
			t.Outcome("edges")
		}, "track %d", tr)
	}
	for n := 0; n <= 300; n++ {
		c.Case(func(t *T) {
			for _, extra := range []int{0, 1, 511} {
				img := make([]byte, n*512+extra)
				for b := 0; b < n+3; b++ {
					fits := (b+1)*512 <= len(img)
					if err := disk.UnmarshalBlock(img, &rawBlock{}, uint16(b)); (err == nil) != fits {
						t.Fail("loading block %d of %d bytes: error %v", b, len(img), err)
					}
					r := &rawBlock{at: uint16(b)}
					for i := range r.data {
						r.data[i] = 0xee
					}
					if err := disk.MarshalBlock(img, r); (err == nil) != fits {
						t.Fail("storing block %d of %d bytes: error %v", b, len(img), err)
					}
					want := 512
					lo := b * 512
					if !fits {
						want = 0
						lo = 0
					}
					if bytes.Count(img, []byte{0xee}) != want || (fits && bytes.Count(img[lo:lo+512], []byte{0xee}) != 512) {
						t.Fail("storing block %d of %d bytes changed %d bytes", b, len(img), bytes.Count(img, []byte{0xee}))
					}
					for i := lo; i < lo+want; i++ {
						img[i] = 0
					}
					t.Steps(2)
				}
			}
			for _, b := range []uint16{0x7fff, 0x8000, 0xfffe, 0xffff} {
				if disk.UnmarshalBlock(make([]byte, n*512), &rawBlock{}, b) == nil {
					t.Fail("loading block %d of a device of %d blocks succeeded", b, n)
				}
			}
			t.State(hashInt(3, n))
			t.Outcome("edges")
		}, "device of %d blocks", n)
	}
	c.Section("blocks", "every block of a 65536-block device loaded, stored and compared; ProDOS structures at every block of a floppy")
	big := []byte(nil)
	for blk := 0; blk < 65536; blk += 256 {
		c.Case(func(t *T) {
			if big == nil {
				big = make([]byte, 65536*512)
				for b := 0; b < 65536; b++ {
					for i := 0; i < 512; i += 2 {
						big[b*512+i], big[b*512+i+1] = byte(b+i), byte(b>>8)^byte(i>>1)
					}
				}
			}
			for b := blk; b < blk+256; b++ {
				r := &rawBlock{}
				t.noErr(disk.UnmarshalBlock(big, r, uint16(b)), "loading block %d", b)
				o := b * 512
				t.mustEqual(r.data[:], big[o:o+512], "loading block %d", b)
				if int(r.at) != b {
					t.Fail("block %d loaded with index %d", b, r.at)
				}
				lo, hi := o-4096, o+512+4096
				if lo < 0 {
					lo = 0
				}
				if hi > len(big) {
					hi = len(big)
				}
				want := clone(big[lo:hi])
				for i := range r.data {
					r.data[i] ^= 0xff
					want[o-lo+i] ^= 0xff
				}
				t.noErr(disk.MarshalBlock(big, r), "storing block %d", b)
				t.Steps(2)
				t.mustEqual(big[lo:hi], want, "storing block %d", b)
				for i := range r.data {
					r.data[i] ^= 0xff
				}
				t.mustEqual(big[lo:hi], want, "changing block %d after storing it", b)
				copy(big[o:], r.data[:])
			}
			t.State(hashInt(4, blk))
			t.Outcome("blocks")
		}, "blocks from %d", blk)
	}
	for blk := 0; blk < 280; blk++ {
		c.Case(func(t *T) {
			img := stamped(9)
			want := clone(img)
			o := blk * 512
			for i, st := range []interface {
				disk.BlockSink
				disk.BlockSource
			}{&prodos.VolumeDirectoryKeyBlock{}, &prodos.VolumeDirectoryBlock{}, &prodos.SubdirectoryKeyBlock{}, &prodos.SubdirectoryBlock{}} {
				t.noErr(disk.UnmarshalBlock(img, st, uint16(blk)), "loading structure %d", i)
				switch x := st.(type) {
				case *prodos.VolumeDirectoryKeyBlock:
					x.Extra++
					want[o+511]++
				case *prodos.VolumeDirectoryBlock:
					x.Prev ^= 0x8001
					want[o] ^= 1
					want[o+1] ^= 0x80
				case *prodos.SubdirectoryKeyBlock:
					x.Header.ParentEntry++
					want[o+0x29]++
				case *prodos.SubdirectoryBlock:
					x.Descriptors[12].EOF[1]++
					want[o+4+12*39+0x16]++
				}
				t.noErr(disk.MarshalBlock(img, st), "storing structure %d", i)
				t.Steps(2)
				t.mustEqual(img, want, "storing structure %d loaded from block %d with one field changed", i, blk)
			}
			if disk.MarshalBlock(img, &rawBlock{fail: true}) == nil || disk.UnmarshalBlock(img, &rawBlock{fail: true}, uint16(blk)) == nil {
				t.Fail("a structure's own error was dropped")
			}
			t.mustEqual(img, want, "a failed store changed the image")
			t.State(hashInt(5, blk))
			t.Outcome("structures")
		}, "block %d", blk)
	}
}
