package main

import (
	"fmt"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C03"] = prop{run: c03, level: "model_checking", assum: []string{
		"the valid disks are the builder's and the repository's sample disks, with every single-byte change of the recognised structures",
		"the three systems are registered in the tool's order for the detection claims, in every order for the honouring claims",
	}}
}

type knownDisk struct {
	what, system string
	logical      []byte // in the system's own order
}

func sampleDisks() []knownDisk {
	var out []knownDisk
	add := func(what, system string, b []byte, stored types.DiskOrder) {
		if len(b) == floppy {
			out = append(out, knownDisk{what, system, oracleConvert(b, stored, systemOrder[system])})
		}
	}
	add("dos33master", "dos3", repoFile("data/disks/dos33master.dsk"), "do")
	add("dos33test", "dos3", repoFile("dos3/testdata/dos33test.dsk"), "do")
	add("Super-Mon", "nakedos", repoFile("data/disks/Super-Mon-2.0.dsk"), "do")
	add("chacha20", "nakedos", repoFile("supermon/testdata/chacha20.dsk"), "do")
	add("ProDOS 2.4.2", "prodos", repoFile("data/disks/ProDOS_2_4_2.po"), "po")
	return out
}

func c03Disks() []knownDisk {
	e := func(n string, t byte) *dosEntry { return &dosEntry{list: ts{t, 15}, typ: 2, name: n, count: 2} }
	ds := []knownDisk{
		{"empty DOS", "dos3", dosImage(254, 16, dosStdChain(15), nil)},
		{"DOS with files", "dos3", dosImage(1, 16, dosStdChain(2), []*dosEntry{e("HELLO", 18), nil, e("B", 19), nil, nil, nil, nil, e("C", 3)})},
		{"13-sector DOS", "dos3", dosImage(0, 13, []ts{{17, 12}, {17, 11}}, []*dosEntry{e("HELLO", 18)})},
		{"DOS without catalog", "dos3", dosImage(200, 16, nil, nil)},
	}
	var owner [nSectors]byte
	for i := range owner {
		owner[i] = 0xff
		if i < 12 {
			owner[i] = 0xfe
		}
	}
	ds = append(ds, knownDisk{"empty NakedOS", "nakedos", nkImage(owner, nil)})
	for i := 0; i < 16; i++ {
		owner[32+i], owner[48+i] = 3, 4
	}
	owner[100], owner[559] = 1, 0xfd
	f3, f4 := nkTables(map[int]nkSym{0: {addr: 0xdf01, name: "FHELLO", link: -1}})
	ds = append(ds, knownDisk{"NakedOS with files", "nakedos", nkImage(owner, map[byte][]byte{3: f3, 4: f4})})
	root := &pDir{name: "VOL", blocks: []int{2, 3, 4, 5}, entries: map[int]*pEntry{}}
	ds = append(ds, knownDisk{"empty ProDOS", "prodos", proImage(280, root)})
	sub := &pDir{name: "SUB", blocks: []int{20, 21}, entries: map[int]*pEntry{0: {storage: 1, name: "INNER", ftype: 4, used: 1, eof: 3, key: 30}}}
	root2 := &pDir{name: "VOL", blocks: []int{2, 3, 4, 5}, entries: map[int]*pEntry{0: {storage: 1, name: "HELLO", ftype: 0xfc, used: 1, eof: 99, key: 10}, 14: {storage: 0xd, name: "SUB", ftype: 0xf, sub: sub}}}
	ds = append(ds, knownDisk{"ProDOS with a subdirectory", "prodos", proImage(280, root2)})
	return append(ds, sampleDisks()...)
}

// usedBytes tells which bytes of one of the made-up disks, in physical order,
// are part of its structure; nil for disks not made here.
func usedBytes(d knownDisk) []bool {
	used := make([]bool, floppy)
	var logical []bool
	switch d.what {
	case "empty NakedOS", "NakedOS with files":
		m := nkMap(d.logical)
		for i := range used {
			used[i] = m[i/256] < 0xfe || i >= 0x9d0 && i < 0xc00
		}
		return used
	case "empty DOS", "DOS with files", "13-sector DOS", "DOS without catalog":
		logical = make([]bool, nSectors)
		for s := 0; s < 16; s++ {
			logical[17*16+s] = true
			logical[18*16+s], logical[19*16+s], logical[3*16+s] = true, true, true
		}
	case "empty ProDOS", "ProDOS with a subdirectory":
		logical = make([]bool, nSectors)
		for _, b := range []int{2, 3, 4, 5, 6, 10, 20, 21, 30} {
			logical[2*b], logical[2*b+1] = true, true
		}
	default:
		return nil
	}
	mark := make([]byte, floppy)
	for i := range mark {
		if logical[i/256] {
			mark[i] = 1
		}
	}
	raw := oracleConvert(mark, systemOrder[d.system], "raw")
	for i := range used {
		used[i] = raw[i] == 1
	}
	return used
}

func mapValid(raw []byte) bool {
	m := nkMap(raw)
	for i, f := range m {
		if f == 0 || (i < 12 && f != 0xfe) {
			return false
		}
	}
	return true
}

// notMisreported checks the negative half of detection on any outcome.
func notMisreported(t *T, img []byte, system string, order types.DiskOrder) {
	switch system {
	case "dos3":
		if !dosVTOCValid(oracleConvert(img, order, "do")[17*trackSize : 17*trackSize+256]) {
			t.Fail("reported as DOS 3.3 in order %s, but its volume table is invalid", order)
		}
	case "nakedos":
		if !mapValid(oracleConvert(img, order, "raw")) {
			t.Fail("reported as NakedOS in order %s, but its sector map is invalid", order)
		}
	}
}

// proMarked tells whether what would be the volume directory of an image in
// ProDOS's own order is marked as one.
func proMarked(logical []byte) bool { return logical[1024+4]>>4 == 0xf }

// readsOtherwise tells whether a disk's own contents also read as another
// system or in the other order, so that no detection can be expected to tell.
func readsOtherwise(img []byte, system string, stored types.DiskOrder) bool {
	for _, order := range []types.DiskOrder{"do", "po"} {
		if !(system == "dos3" && order == stored) && dosVTOCValid(oracleConvert(img, order, "do")[17*trackSize:17*trackSize+256]) {
			return true
		}
		if !(system == "nakedos" && order == stored) && mapValid(oracleConvert(img, order, "raw")) {
			return true
		}
		if !(system == "prodos" && order == stored) && proMarked(oracleConvert(img, order, "po")) {
			return true
		}
	}
	return false
}

func c03(c *Ctx) {
	disks := c03Disks()
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {0}, {1}, {2}, {2, 1}}
	c.Section("configurations", "disks x stored order x 11 extensions under rotating names and directories with dots x order flag x system flag x 10 registered lists")
	exts := []string{".do", ".po", ".dsk", "", ".DO", ".PO", ".DSK", ".Do", ".pO", ".img", ".hdv"}
	for _, d := range disks {
		for _, stored := range []types.DiskOrder{"do", "po"} {
			for _, ext := range exts {
				for _, flag := range []types.DiskOrder{"auto", "do", "po"} {
					for _, sys := range []string{"auto", "dos3", "nakedos", "prodos"} {
						for pi, perm := range perms {
							c.Case(func(t *T) {
								img := oracleConvert(d.logical, systemOrder[d.system], stored)
								t.State(hashString(hashBytes(1, img), fmt.Sprint(ext, flag, sys, perm)))
								all := factories()
								var facs []types.OperatorFactory
								for _, i := range perm {
									facs = append(facs, all[i])
								}
								std := pi == 0
								// Directories and earlier dots in the name carry no meaning.
								pre := []string{"disk", "d.po/disk", "d.do/disk", "x.dsk/y.hdv/disk"}
								if ext != "" {
									pre = append(pre, "a.po", "a.do", "a.dsk", "d.do/a.b.c", "d.po/a.do")
								}
								name := pre[t.Number()%len(pre)] + ext
								op, order, err := disk.OpenImage(img, name, flag, sys, facs, t.debug())
								t.Step()
								if std {
									t.cleanScratch()
									op2, order2, err2 := disk.OpenFilename(t.writeFile(name, img), flag, sys, facs, t.debug())
									t.Step()
									if (err == nil) != (err2 == nil) || err == nil && (op.Name() != op2.Name() || order != order2) {
										t.Fail("the file %s and its bytes open differently: %v %v, %s %s", name, err2, err, order2, order)
									}
									if err == nil {
										t.mustEqual(op2.GetBytes(), op.GetBytes(), "view of the file and of its bytes")
									}
								}
								var extOrder types.DiskOrder
								switch ext {
								case ".do", ".DO", ".Do":
									extOrder = "do"
								case ".po", ".PO", ".pO":
									extOrder = "po"
								}
								if err == nil {
									if flag != "auto" && order != flag {
										t.Fail("order %s given, but opened in order %s", flag, order)
									}
									if sys != "auto" && op.Name() != sys {
										t.Fail("system %s given, but opened as %s", sys, op.Name())
									}
									if flag == "auto" && extOrder != "" && order != extOrder {
										t.Fail("extension %s, but opened in order %s", ext, order)
									}
									if sys == "auto" {
										notMisreported(t, img, op.Name(), order)
									}
									t.Outcome("%s on %s", op.Name(), order)
								} else {
									t.Outcome("refused")
								}
								if !std {
									return
								}
								// What a valid disk has to open as.
								must := false
								open := flag == "auto" && (ext == ".dsk" || ext == ".DSK" || ext == "")
								if open && (sys == "auto" || sys == d.system) && err != nil {
									t.Fail("a valid %s disk in order %s under an extension that leaves the order open was refused: %v", d.system, stored, err)
								}
								switch {
								case sys != "auto" && sys != d.system:
								case flag == stored && (ext == "" || ext != ".hdv"):
									must = true
								case flag == "auto" && extOrder == stored:
									must = true
								case open && d.system == "nakedos":
									must = true
								case open && stored == "do":
									must = true
								}
								if must {
									if err != nil {
										t.Fail("a valid %s disk in order %s was refused: %v", d.system, stored, err)
									}
									if op.Name() != d.system || order != stored {
										t.Fail("a valid %s disk in order %s was opened as %s in order %s", d.system, stored, op.Name(), order)
									}
								}
							}, "%s stored %s ext %q flag %s system %s list %v", d.what, stored, ext, flag, sys, perm)
						}
					}
				}
			}
		}
	}

	c.Section("what the rest of the disk holds", "each disk with every sector or block it does not use holding every byte value, four patterns, and what each other disk held there; both orders; .do, .po, .dsk and no extension")
	type filler struct {
		what string
		data func(i int) byte
	}
	var fills []filler
	for v := 0; v < 256; v++ {
		fills = append(fills, filler{fmt.Sprintf("%02X", v), func(int) byte { return byte(v) }})
	}
	fills = append(fills, filler{"counting", func(i int) byte { return byte(i) }}, filler{"sector numbers", func(i int) byte { return byte(i >> 8) }},
		filler{"E5 and 00", func(i int) byte { return byte(i&1) * 0xe5 }}, filler{"pairs", func(i int) byte { return byte(i >> 1 & 1) }})
	for _, d := range disks {
		old := oracleConvert(d.logical, systemOrder[d.system], "raw")
		fills = append(fills, filler{d.what, func(i int) byte { return old[i] }})
	}
	for _, d := range disks {
		used := usedBytes(d)
		if used == nil {
			continue
		}
		for _, f := range fills {
			c.Case(func(t *T) {
				raw := oracleConvert(d.logical, systemOrder[d.system], "raw")
				for i := range raw {
					if !used[i] {
						raw[i] = f.data(i)
					}
				}
				for _, stored := range []types.DiskOrder{"do", "po"} {
					img := oracleConvert(raw, "raw", stored)
					t.State(hashBytes(9, img))
					for _, ext := range []string{".do", ".po", ".dsk", ""} {
						if ext == ".do" && stored == "po" || ext == ".po" && stored == "do" {
							continue
						}
						if readsOtherwise(img, d.system, stored) {
							t.Outcome("reads as more than one")
							continue
						}
						for _, sys := range []string{"auto", d.system} {
							op, order, err := disk.OpenImage(clone(img), "disk"+ext, stored, sys, factories(), t.debug())
							t.Step()
							if err != nil || op.Name() != d.system || order != stored {
								t.Fail("a valid %s disk, order %s and system %s given, extension %q: opened as %v in order %v, %v", d.system, stored, sys, ext, op, order, err)
							}
						}
						op, order, err := disk.OpenImage(clone(img), "disk"+ext, "auto", "auto", factories(), t.debug())
						t.Step()
						if d.system != "nakedos" && stored == "po" && ext != ".po" {
							if err != nil {
								t.Fail("a valid %s disk in order %s under an extension that leaves the order open was refused: %v", d.system, stored, err)
							}
							notMisreported(t, img, op.Name(), order)
							t.Outcome("opened")
							continue
						}
						if err != nil {
							t.Fail("a valid %s disk in order %s, extension %q, was refused: %v", d.system, stored, ext, err)
						}
						if op.Name() != d.system || order != stored {
							t.Fail("a valid %s disk in order %s, extension %q, was opened as %s in order %s", d.system, stored, ext, op.Name(), order)
						}
						t.Outcome("found")
					}
				}
			}, "%s over %s", d.what, f.what)
		}
	}

	c.Section("volume table", "every offset x every value of the DOS volume table, two backgrounds, .do and .dsk")
	for _, d := range []knownDisk{disks[0], disks[1]} {
		for off := 0; off < 256; off++ {
			for v := 0; v < 256; v++ {
				name := "a.do"
				if (off+v)%2 == 0 {
					name = "a.dsk"
				}
				if d.what != disks[0].what && !c.Thorough() && v != 0 && v != 1 && v != 255 && v != 13 && v != 16 && v != 3 {
					c.Skip()
					continue
				}
				c.Case(func(t *T) {
					img := clone(d.logical)
					img[17*trackSize+off] = byte(v)
					t.State(hashBytes(2, img[17*trackSize:17*trackSize+256]))
					op, order, err := disk.OpenImage(img, name, "auto", "auto", factories(), t.debug())
					t.Step()
					if err == nil {
						notMisreported(t, img, op.Name(), order)
					}
					if dosVTOCValid(img[17*trackSize:17*trackSize+256]) && off != 1 && off != 2 {
						if off == 0x35 && v == 13 {
							return // catalog sectors beyond 12: not a valid 13-sector disk
						}
						t.noErr(err, "valid volume table (offset %02X = %02X)", off, v)
						if op.Name() != "dos3" || order != "do" {
							t.Fail("opened as %s in %s with a valid volume table", op.Name(), order)
						}
						t.Outcome("valid: dos3")
						return
					}
					t.Outcome("not valid")
				}, "%s offset %02X value %02X", d.what, off, v)
			}
		}
	}
	c.Section("pairs of volume table defects", "two defective fields at once, including values that cancel in a sum or product")
	type fv struct {
		off int
		v   byte
	}
	var defects []fv
	for _, off := range []int{3, 6, 0x27, 0x31, 0x34, 0x35, 0x36, 0x37, 0x3a, 0x3b, 0x3a + 4*17, 0x3b + 4*34, 0x3a + 4*49, 0x3b + 4*49} {
		for _, v := range []byte{0, 1, 2, 3, 4, 12, 13, 16, 34, 35, 36, 122, 254, 255} {
			defects = append(defects, fv{off, v})
		}
	}
	for i, a := range defects {
		c.Case(func(t *T) {
			for _, b := range defects[i:] {
				if b.off == a.off {
					continue
				}
				img := clone(disks[0].logical)
				img[17*trackSize+a.off] = a.v
				img[17*trackSize+b.off] = b.v
				t.State(hashBytes(3, img[17*trackSize:17*trackSize+256]))
				op, order, err := disk.OpenImage(img, "a.do", "auto", "auto", factories(), t.debug())
				t.Step()
				if err == nil {
					notMisreported(t, img, op.Name(), order)
				}
				op, order, err = disk.OpenImage(img, "a", "do", "auto", factories(), t.debug())
				t.Step()
				if err == nil {
					notMisreported(t, img, op.Name(), order)
				}
			}
			t.Outcome("not misreported")
		}, "defect %02X=%02X with every other", a.off, a.v)
	}

	c.Section("sector map", "every entry of the NakedOS sector map x values (all 256 for the reserved entries)")
	vals := []byte{0, 1, 2, 3, 4, 5, 0x10, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff}
	for _, d := range []knownDisk{disks[4], disks[5]} {
		for s := 0; s < nSectors; s++ {
			for v := 0; v < 256; v++ {
				keep := s < 12 || c.Thorough()
				for _, x := range vals {
					keep = keep || int(x) == v
				}
				if !keep {
					continue
				}
				c.Case(func(t *T) {
					raw := clone(d.logical)
					m := nkMap(raw)
					m[s] = byte(v)
					nkPutMap(raw, m)
					stored := types.DiskOrder("do")
					name := "a.dsk"
					if (s+v)%3 == 0 {
						stored, name = "po", "a.po"
					}
					img := oracleConvert(raw, "raw", stored)
					t.State(hashBytes(4, m[:]))
					op, order, err := disk.OpenImage(img, name, "auto", "auto", factories(), t.debug())
					t.Step()
					if err == nil {
						notMisreported(t, img, op.Name(), order)
					}
					if mapValid(raw) {
						t.noErr(err, "valid sector map (entry %d = %02X)", s, v)
						if op.Name() != "nakedos" || order != stored {
							t.Fail("opened as %s in %s with a valid sector map", op.Name(), order)
						}
						t.Outcome("valid: nakedos")
						return
					}
					t.Outcome("not valid")
				}, "%s entry %d value %02X", d.what, s, v)
			}
		}
	}
	c.Section("pairs of sector map defects", "two entries changed at once")
	pos := []int{0, 1, 5, 10, 11, 12, 13, 47, 48, 303, 304, 558, 559}
	pv := []byte{0, 1, 0xfd, 0xfe, 0xff}
	for _, a := range pos {
		for _, b := range pos {
			if a >= b {
				continue
			}
			c.Case(func(t *T) {
				for _, va := range pv {
					for _, vb := range pv {
						raw := clone(disks[5].logical)
						m := nkMap(raw)
						m[a], m[b] = va, vb
						nkPutMap(raw, m)
						img := oracleConvert(raw, "raw", "do")
						t.State(hashBytes(5, m[:]))
						op, order, err := disk.OpenImage(img, "a.do", "auto", "auto", factories(), t.debug())
						t.Step()
						if err == nil {
							notMisreported(t, img, op.Name(), order)
						}
						if mapValid(raw) && (err != nil || op.Name() != "nakedos") {
							t.Fail("valid map refused or opened as another system (entries %d=%02X %d=%02X)", a, va, b, vb)
						}
					}
				}
				t.Outcome("checked")
			}, "entries %d and %d", a, b)
		}
	}
}
