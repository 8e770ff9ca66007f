package main

import (
	"fmt"

	"github.com/zellyn/diskii/data"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
)

func init() {
	props["C26"] = prop{run: c26, level: "model_checking", assum: []string{
		"the invariants are the ones Beneath Apple DOS and ProDOS and the tool's own messages name, written down here over raw bytes",
		"every value of every byte over three backgrounds and every pair of constrained bytes stand for all structures",
	}}
}

// kind26 is one structure that can be validated.
type kind26 struct {
	name string
	size int
	// base puts valid values into the constrained bytes.
	base func(b []byte)
	// bad is the independent rule over the raw bytes.
	bad func(b []byte) bool
	// valid asks the code under test.
	valid func(t *T, b []byte) bool
	// tight lists the constrained bytes.
	tight []int
}

func badTime(b []byte, off int) bool { return b[off+2] >= 60 || b[off+3] >= 24 }

func dosKind() kind26 {
	k := kind26{name: "DOS volume table", size: 256}
	k.base = func(b []byte) {
		b[3], b[6], b[0x27], b[0x31], b[0x34], b[0x35], b[0x36], b[0x37] = 3, 254, 122, 1, 35, 16, 0, 1
		for i := 0; i < 50; i++ {
			b[0x38+4*i+2], b[0x38+4*i+3] = 0, 0
		}
	}
	k.bad = func(b []byte) bool {
		if b[3] != 3 || b[6] == 255 || b[0x27] != 122 || b[0x31] != 1 && b[0x31] != 255 || b[0x34] != 35 || b[0x35] != 13 && b[0x35] != 16 || b[0x36] != 0 || b[0x37] != 1 {
			return true
		}
		for i := 0; i < 50; i++ {
			if b[0x38+4*i+2] != 0 || b[0x38+4*i+3] != 0 {
				return true
			}
		}
		return false
	}
	k.valid = func(t *T, b []byte) bool {
		var v dos3.VTOC
		t.noErr(v.FromSector(b), "decoding a volume table")
		return v.Validate() == nil
	}
	k.tight = []int{3, 6, 0x27, 0x31, 0x34, 0x35, 0x36, 0x37}
	for i := 0; i < 50; i++ {
		k.tight = append(k.tight, 0x38+4*i+2, 0x38+4*i+3)
	}
	return k
}

func mapKind() kind26 {
	k := kind26{name: "NakedOS sector map", size: 560}
	k.base = func(b []byte) {
		for i := range b {
			if i < 12 {
				b[i] = 0xfe
			} else if b[i] == 0 {
				b[i] = 0xff
			}
		}
	}
	k.bad = func(b []byte) bool {
		for i, x := range b {
			if i < 12 && x != 0xfe || x == 0 {
				return true
			}
		}
		return false
	}
	k.valid = func(t *T, b []byte) bool { return supermon.SectorMap(b).Verify() == nil }
	for i := 0; i < 560; i++ {
		k.tight = append(k.tight, i)
	}
	return k
}

// proKind is a directory block: header says whether the first entry is a
// volume ('v') or subdirectory ('s') header or a file (0), key whether it is a
// first block.
func proKind(name string, header byte, valid func(t *T, b disk.Block) int) kind26 {
	k := kind26{name: name, size: 512}
	times := func(f func(off int)) {
		for i := 0; i < 13; i++ {
			o := 4 + i*0x27
			f(o + 0x18)
			if i > 0 || header == 0 {
				f(o + 0x21)
			}
		}
	}
	k.base = func(b []byte) {
		if header != 0 {
			b[0], b[1] = 0, 0
		}
		if header == 's' {
			b[4+0x10] = 0x75
		}
		times(func(o int) { b[o+2], b[o+3] = 59, 23 })
		b[511] = 0
	}
	k.bad = func(b []byte) bool {
		bad := header != 0 && (b[0] != 0 || b[1] != 0) || header == 's' && b[4+0x10] != 0x75 || b[511] != 0
		times(func(o int) { bad = bad || badTime(b, o) })
		return bad
	}
	k.valid = func(t *T, b []byte) bool {
		var blk disk.Block
		copy(blk[:], b)
		return valid(t, blk) == 0
	}
	if header != 0 {
		k.tight = append(k.tight, 0, 1)
	}
	if header == 's' {
		k.tight = append(k.tight, 4+0x10)
	}
	times(func(o int) { k.tight = append(k.tight, o+2, o+3) })
	k.tight = append(k.tight, 511)
	return k
}

func c26(c *Ctx) {
	load := func(t *T, s disk.BlockSink, b disk.Block) { t.noErr(s.FromBlock(b), "decoding a directory block") }
	kinds := []kind26{
		dosKind(), mapKind(),
		proKind("volume directory key block", 'v', func(t *T, b disk.Block) int {
			var x prodos.VolumeDirectoryKeyBlock
			load(t, &x, b)
			return len(x.Validate())
		}),
		proKind("volume directory block", 0, func(t *T, b disk.Block) int {
			var x prodos.VolumeDirectoryBlock
			load(t, &x, b)
			return len(x.Validate())
		}),
		proKind("subdirectory key block", 's', func(t *T, b disk.Block) int {
			var x prodos.SubdirectoryKeyBlock
			load(t, &x, b)
			return len(x.Validate())
		}),
		proKind("subdirectory block", 0, func(t *T, b disk.Block) int {
			var x prodos.SubdirectoryBlock
			load(t, &x, b)
			return len(x.Validate())
		}),
	}
	backs := []byte{0x00, 0xff, 0x5a}
	for ki, k := range kinds {
		check := func(t *T, b []byte, what string, args ...any) {
			t.State(hashBytes(uint64(ki+1), b))
			ok := k.valid(t, b)
			t.Step()
			if ok == k.bad(b) {
				t.Fail("%s with %s is reported valid: %v, want %v", k.name, fmt.Sprintf(what, args...), ok, !k.bad(b))
			}
		}
		fresh := func(back byte) []byte {
			b := make([]byte, k.size)
			for i := range b {
				b[i] = back
			}
			k.base(b)
			return b
		}
		c.Section(k.name, "every value of every byte over three backgrounds; every pair of constrained bytes with values at and around the limits")
		for off := 0; off < k.size; off++ {
			c.Case(func(t *T) {
				for _, back := range backs {
					b := fresh(back)
					if k.bad(b) {
						t.Fail("internal: the background is invalid")
					}
					for v := 0; v < 256; v++ {
						b[off] = byte(v)
						check(t, b, "byte %03X set to %02X over %02X", off, v, back)
					}
				}
				t.Outcome("checked")
			}, "%s byte %03X", k.name, off)
		}
		vals := []byte{0, 1, 3, 13, 16, 23, 24, 35, 59, 60, 122, 0x75, 0x80, 0xfd, 0xfe, 0xff}
		if k.size == 560 {
			vals = []byte{0, 1, 0xfe, 0xff}
		}
		step := 1
		if k.size == 560 {
			step = Pick(c, 5, 1)
		}
		for i := 0; i < len(k.tight); i += 1 {
			c.Case(func(t *T) {
				b := fresh(0x33)
				for j := i + 1; j < len(k.tight); j += step {
					p, q := k.tight[i], k.tight[j]
					op, oq := b[p], b[q]
					for _, v := range vals {
						for _, w := range vals {
							b[p], b[q] = v, w
							check(t, b, "bytes %03X and %03X set to %02X and %02X", p, q, v, w)
						}
					}
					b[p], b[q] = op, oq
				}
				t.Outcome("checked")
			}, "%s pairs with byte %03X", k.name, k.tight[i])
		}
	}
	for ki, k := range kinds {
		if k.size == 560 {
			continue // every byte is constrained
		}
		c.Section(k.name+": a fault among other bytes", "each constrained byte at faulty values with each other byte at six values, over two backgrounds")
		for q := 0; q < k.size; q++ {
			c.Case(func(t *T) {
				for _, back := range []byte{0, 0xff} {
					b := make([]byte, k.size)
					for i := range b {
						b[i] = back
					}
					k.base(b)
					for _, p := range k.tight {
						if p == q {
							continue
						}
						op, oq := b[p], b[q]
						for _, v := range []byte{60, 0xff} {
							b[p] = v
							for _, w := range []byte{0, 1, 0x2f, 0x80, 0xd1, 0xff} {
								b[q] = w
								t.State(hashBytes(uint64(ki+100), b))
								ok := k.valid(t, b)
								t.Step()
								if ok == k.bad(b) {
									t.Fail("%s with bytes %03X and %03X set to %02X and %02X over %02X is reported valid: %v, want %v", k.name, p, q, v, w, back, ok, !k.bad(b))
								}
							}
						}
						b[p], b[q] = op, oq
					}
				}
				t.Outcome("checked")
			}, "%s byte %03X against every fault", k.name, q)
		}
	}
	c.Section("parts", "timestamps: all 65536 times and dates at the edges; file descriptors and headers: every value of their time bytes, of the byte after a subdirectory's name, and of the bytes that do not matter")
	for hi := 0; hi < 256; hi++ {
		c.Case(func(t *T) {
			for lo := 0; lo < 256; lo++ {
				want := lo < 60 && hi < 24
				for _, ymd := range [][2]byte{{0, 0}, {0xff, 0xff}, {0x21, 0x33}} {
					dt := prodos.DateTime{YMD: ymd, HM: [2]byte{byte(lo), byte(hi)}}
					t.Step()
					if got := len(dt.Validate("x")) == 0; got != want {
						t.Fail("time %02X %02X is reported valid: %v, want %v", lo, hi, got, want)
					}
					ok := prodos.DateTime{YMD: ymd, HM: [2]byte{59, 23}}
					for i, fd := range []prodos.FileDescriptor{{Creation: dt, LastMod: ok}, {Creation: ok, LastMod: dt}, {Creation: dt, LastMod: dt}} {
						fd.TypeAndNameLength = byte(lo)
						t.Step()
						if got := len(fd.Validate()) == 0; got != want {
							t.Fail("file descriptor %d with time %02X %02X is reported valid: %v, want %v", i, lo, hi, got, want)
						}
					}
					vh := prodos.VolumeDirectoryHeader{TypeAndNameLength: byte(lo), Creation: dt}
					t.Step()
					if got := len(vh.Validate()) == 0; got != want {
						t.Fail("volume header with time %02X %02X is reported valid: %v, want %v", lo, hi, got, want)
					}
					for _, s := range []byte{0x75, 0x74, 0x76, 0, 0xff, byte(lo)} {
						sh := prodos.SubdirectoryHeader{TypeAndNameLength: byte(hi), SeventyFive: s, Creation: dt}
						t.Step()
						if got := len(sh.Validate()) == 0; got != (want && s == 0x75) {
							t.Fail("subdirectory header with time %02X %02X and %02X after its name is reported valid: %v", lo, hi, s, got)
						}
					}
				}
				t.State(hashInt(99, hi*256+lo))
			}
			t.Outcome("checked")
		}, "times with hour %02X", hi)
	}
	c.Section("default and real structures", "the default DOS volume table is valid, names 35 tracks of 16 sectors all free and nothing else, and is decoded to itself; the sample disks are valid")
	c.Case(func(t *T) {
		v := dos3.DefaultVTOC()
		t.Step()
		t.noErr(v.Validate(), "the default volume table")
		sec, err := v.ToSector()
		t.noErr(err, "storing the default volume table")
		want := make([]byte, 256)
		want[1], want[2], want[3], want[6], want[0x27], want[0x31], want[0x34], want[0x35], want[0x37] = 17, 15, 3, 1, 122, 1, 35, 16, 1
		for i := 0; i < 35; i++ {
			want[0x38+4*i], want[0x39+4*i] = 0xff, 0xff
		}
		sec[0x30] = 0 // where the last allocation was is left open
		t.mustEqual(sec, want, "the default volume table")
		for tr := 0; tr < 50; tr++ {
			for s := 0; s < 16; s++ {
				t.Step()
				if v.FreeSectors[tr].IsFree(byte(s)) != (tr < 35) {
					t.Fail("track %d sector %d of the default volume table is free: %v", tr, s, tr >= 35)
				}
			}
		}
		t.Outcome("default table")
	}, "the default volume table")
	c.Case(func(t *T) {
		var v dos3.VTOC
		t.noErr(disk.UnmarshalLogicalSector(data.DOS33masterDSK, &v, 17, 0), "the DOS 3.3 master disk's volume table")
		t.noErr(v.Validate(), "the DOS 3.3 master disk's volume table")
		t.Step()
		var vk prodos.VolumeDirectoryKeyBlock
		t.noErr(disk.UnmarshalBlock(data.ProDOS242PO, &vk, 2), "the ProDOS disk's directory")
		next := vk.Next
		for i, e := range vk.Validate() {
			// Its header's last-modified and unused bytes are not looked at.
			t.Fail("the ProDOS 2.4.2 volume directory is reported faulty (%d): %v", i, e)
		}
		t.Step()
		for n := 0; next != 0 && n < 100; n++ {
			var vb prodos.VolumeDirectoryBlock
			t.noErr(disk.UnmarshalBlock(data.ProDOS242PO, &vb, next), "the ProDOS disk's directory")
			for _, e := range vb.Validate() {
				t.Fail("block %d of the ProDOS 2.4.2 volume directory is reported faulty: %v", next, e)
			}
			t.Step()
			next = vb.Next
		}
		t.Outcome("real disks")
	}, "the sample disks")
}
