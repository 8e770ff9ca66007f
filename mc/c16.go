package main

import (
	"fmt"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C16"] = prop{run: c16, level: "model_checking", assum: []string{
		"does not finish: more than 20 s of processor time or 1.5 GB of memory in one call, on calls that take milliseconds",
		"damage is exhaustive for one map byte, one symbol-table byte and the link graph over a few symbols; other bytes keep their values",
		"what the operations answer on a damaged disk is not judged here, only that they answer",
	}}
}

func nkInfo(name string, n int) types.FileInfo {
	return types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: n, Type: types.FiletypeBinary}, Data: nkData(1, n)}
}

// nkExercise runs the operations of a NakedOS disk on an image in any state.
func nkExercise(t *T, img []byte, deep bool) {
	of := supermon.OperatorFactory{}
	m := of.SeemsToMatch(img, t.debug())
	op, err := of.Operator(img, t.debug())
	t.Steps(2)
	if of.SeemsToMatch(img, t.debug()) != m {
		t.Fail("detection gave two answers")
	}
	if err != nil {
		t.outcome = "refused"
		return
	}
	t.outcome = "opened"
	d, _ := op.Catalog("")
	t.Step()
	if len(d) > 253 {
		t.Fail("%d files listed", len(d))
	}
	for i, e := range d {
		if i > 4 && !deep {
			break
		}
		fi, err := op.GetFile(e.Name)
		t.Step()
		if err == nil && len(fi.Data) > floppy {
			t.Fail("get %q returned %d bytes", e.Name, len(fi.Data))
		}
	}
	put := func(name string, n int, ow bool) {
		_, _ = op.PutFile(nkInfo(name, n), ow)
		t.Step()
	}
	del := func(name string) {
		_, _ = op.Delete(name)
		t.Step()
	}
	get := func(name string) {
		_, _ = op.GetFile(name)
		t.Step()
	}
	put("NEWFILE", 1, false)
	put("FIVE", 600, true)
	put("5:SEVEN7", 10, true)
	del("NEWFILE")
	del("SEVEN7")
	get("FIVE")
	if deep {
		put("DF07:FIVE", 257, true)
		put("3", 5, true)
		put("4:FIVE", 4096, true)
		put("AGAIN", 143360, true)
		del("3")
		put("AGAIN", 1, true)
		del("NOTFILE")
		del("4")
		get("3")
		get("STALE")
	}
	_, _ = op.Catalog("")
	if op2, err := of.Operator(op.GetBytes(), t.debug()); err == nil {
		_, _ = op2.Catalog("")
		t.Step()
	}
	t.Steps(2)
}

func c16(c *Ctx) {
	bases := nkBases()
	tiny := bases["tiny"].img
	c.Section("sector map", "every one of the 560 map bytes × every value")
	for s := 0; s < nSectors; s++ {
		c.Case(func(t *T) {
			for v := 0; v < 256; v++ {
				img := clone(tiny)
				o := nkMap(img)
				o[s] = byte(v)
				nkPutMap(img, o)
				nkExercise(t, img, false)
				t.State(hashInt(1, s*256+v))
			}
		}, "map entry %d", s)
	}
	if c.Thorough() {
		c.Section("sector map pairs", "every pair of 40 map bytes × 12 × 12 values")
		vals := []byte{0, 1, 2, 3, 4, 5, 7, 8, 0xfc, 0xfd, 0xfe, 0xff}
		for a := 0; a < 40; a++ {
			for b := a + 1; b < 40; b++ {
				c.Case(func(t *T) {
					for _, x := range vals {
						for _, y := range vals {
							img := clone(tiny)
							o := nkMap(img)
							o[a*14], o[b*14] = x, y
							nkPutMap(img, o)
							nkExercise(t, img, false)
							t.State(hashInt(2, ((a*40+b)*256+int(x))*256+int(y)))
						}
					}
				}, "map entries %d and %d", a*14, b*14)
			}
		}
	}
	c.Section("table sizes", "files 3 and 4 of every number of sectors 0-20 each, on an almost empty disk and on a full one")
	for n3 := 0; n3 <= 20; n3++ {
		for n4 := 0; n4 <= 20; n4++ {
			c.Case(func(t *T) {
				for kind := 0; kind < 3; kind++ {
					var owner [nSectors]byte
					for i := range owner {
						owner[i] = 0xff
						if i < 12 || kind == 1 && i > 60 {
							owner[i] = 0xfe
						}
					}
					owner[12], owner[13] = 5, 7
					for i := 0; i < n3; i++ {
						owner[16+i] = 3
					}
					for i := 0; i < n4; i++ {
						owner[40+i] = 4
					}
					f3, f4 := nkTables(nkChain(map[int]nkSym{0: {addr: 0xdf05, name: "FIVE"}, 1: {addr: 0xdf07, name: "SEVEN7"}}))
					cut := func(b []byte, n int) []byte { return append(b, zeros(20*256)...)[:n*256] }
					img := nkImage(owner, map[byte][]byte{3: cut(f3, n3), 4: cut(f4, n4)})
					if kind == 2 {
						for i := 16 * 256; i < 60*256; i++ {
							img[i] = 0xff
						}
					}
					nkExercise(t, img, true)
					t.State(hashInt(3, (n3*21+n4)*3+kind))
				}
			}, "files 3 and 4 of %d and %d sectors", n3, n4)
		}
	}
	vals := []int{0, 1, 27, 31, 127, 128, 0xd0, 0xdf, 0xff}
	if c.Thorough() {
		vals = seq(0, 256)
	}
	c.Section("symbol table bytes", fmt.Sprintf("each of the 8192 bytes of the symbol table files × %d values", len(vals)))
	st := nkMake("symbols", []int{15, 16, 200, 201, 330}, 0xfe, map[byte][]int{5: {13}, 7: {14}}, symsEverywhere(), true).img
	owner := nkMap(st)
	var offs []int
	for f := byte(3); f <= 4; f++ {
		for s, o := range owner {
			if o == f {
				for i := 0; i < 256; i++ {
					offs = append(offs, s*256+i)
				}
			}
		}
	}
	for k := 0; k < len(offs); k += 8 {
		c.Case(func(t *T) {
			for _, off := range offs[k : k+8] {
				for _, v := range vals {
					img := clone(st)
					img[off] = byte(v)
					nkExercise(t, img, false)
					t.State(hashInt(4, off*256+v))
				}
			}
		}, "symbol table bytes %d to %d", k, k+7)
	}
	c.Section("link graphs", "every assignment of the links of four symbols over none, each of the four, a dead slot, the last slot and two bad addresses × all single additions and deletions followed by another")
	slots := []int{0, 1, 7, 818}
	targets := []int{0, 0xD000, 0xD000 + 5, 0xD000 + 35, 0xD000 + 818*5, 0xD000 + 15, 0xDFFE, 0xD002, 0xFFFF}
	nt := len(targets)
	for g := 0; g < nt*nt*nt*nt; g += 9 {
		c.Case(func(t *T) {
			for h := g; h < g+9; h++ {
				img := clone(linkBase())
				o := nkMap(img)
				x := h
				for i, s := range slots {
					tgt := targets[x%nt]
					x /= nt
					_ = i
					putFileByte(img, &o, 3, s*5+2, byte(tgt))
					putFileByte(img, &o, 3, s*5+3, byte(tgt>>8))
				}
				nkExercise(t, img, false)
				of := supermon.OperatorFactory{}
				oo, err := of.Operator(img, t.debug())
				if err != nil {
					continue
				}
				op := nkValue(oo)
				if op.ST == nil {
					t.State(hashInt(5, h))
					continue
				}
				for _, n := range []string{"AAA", "BBB", "CCC", "DDD"} {
					st := cloneST(op.ST)
					st.DeleteSymbol(n)
					_ = st.AddSymbol("NEW", 0xdf05)
					st.DeleteSymbol("DDD")
					_ = st.AddSymbol(n, 0xdf06)
					_ = st.SymbolsByAddress()
					t.Steps(4)
				}
				t.State(hashInt(6, h))
			}
		}, "link graphs %d to %d", g, g+8)
	}
	c.Section("link bytes", "the link of one symbol set to every 16-bit value")
	for hi := 0; hi < 256; hi++ {
		c.Case(func(t *T) {
			img := clone(linkBase())
			o := nkMap(img)
			for lo := 0; lo < 256; lo++ {
				putFileByte(img, &o, 3, 7*5+2, byte(lo))
				putFileByte(img, &o, 3, 7*5+3, byte(hi))
				op, err := supermon.OperatorFactory{}.Operator(clone(img), t.debug())
				t.Step()
				if err != nil {
					t.Fail("a damaged symbol table made the disk unreadable: %v", err)
				}
				_, _ = op.PutFile(nkInfo("NEWFILE", 1), false)
				_, _ = op.Delete("CCC")
				_, _ = op.Catalog("")
				t.Steps(3)
				t.State(hashInt(7, hi*256+lo))
			}
		}, "link high byte %02X", hi)
	}
	c.Section("names", "every string of up to two bytes, and odd longer ones, to every operation on disks with, without and with a full symbol table")
	var names []string
	names = append(names, "")
	for a := 0; a < 256; a++ {
		names = append(names, string([]byte{byte(a)}))
	}
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			names = append(names, string([]byte{byte(a), byte(b)}))
		}
	}
	for _, s := range []string{":", "::", ":::", "5:", ":A", ":5", "5:5", "5::A", "DF", "DF00", "DF01:", "FFFF", "10000", "0x5", "-5", "+5", "5:\x00", "A\x00B", "日本語", "É", "ﬀ", "K", "ſss", "S\u0307", "\xff\xfe\xfd"} {
		names = append(names, s, "DF05:"+s, s+":DF05", s+s+s)
	}
	for n := 3; n < 70; n++ {
		names = append(names, strings.Repeat("A", n), strings.Repeat("9", n), strings.Repeat("é", n), strings.Repeat(":", n), strings.Repeat("0", n))
	}
	names = append(names, strings.Repeat("A", 1<<20), strings.Repeat(":", 1<<16), "5:"+strings.Repeat("Z", 1<<20))
	kinds := []string{"tiny", "nost"}
	for k := 0; k < len(names); k += 32 {
		c.Case(func(t *T) {
			for _, kind := range kinds {
				img := clone(bases[kind].img)
				op := nkOpen(t, img)
				for i := k; i < len(names) && i < k+32; i++ {
					n := names[i]
					_, _ = op.GetFile(n)
					_, _ = op.PutFile(nkInfo(n, 1), true)
					_, _ = op.PutFile(nkInfo(n, 300), false)
					_, _ = op.GetFile(n)
					_, _ = op.Delete(n)
					_, _ = op.Delete(n)
					_, _ = op.Catalog(n)
					_, _, _, _ = op.ST.ParseCompoundSymbol(n)
					_, _ = op.ST.FileForName(n)
					_ = op.ST.ByName(n)
					t.Steps(10)
					t.State(hashString(hashString(8, kind), n))
				}
			}
		}, "names %d to %d (%.40q...)", k, k+31, names[k])
	}
	c.Section("contents", "contents of every length 0-1100, around the disk's size and of 1 MB, with declared lengths off by one, negative and huge; every file type byte")
	var lens []int
	for n := 0; n <= 1100; n++ {
		lens = append(lens, n)
	}
	for k := 0; k <= 560; k++ {
		for d := -1; d <= 1; d++ {
			lens = append(lens, k*256+1200+d)
		}
	}
	lens = append(lens, floppy-1, floppy, floppy+1, 200000, 1<<20)
	var mostly [nSectors]byte
	for i := range mostly {
		mostly[i] = 0xff
		if i < 12 {
			mostly[i] = 0xfe
		}
	}
	empty := nkImage(mostly, nil)
	for _, n := range lens {
		c.Case(func(t *T) {
			for _, base := range [][]byte{empty, tiny} {
				op := nkOpen(t, clone(base))
				for _, name := range []string{"5", "FD", "NEWFILE", "9:NEWFILE", ""} {
					_, _ = op.PutFile(nkInfo(name, n), true)
					_, _ = op.GetFile(name)
					_, _ = op.PutFile(nkInfo(name, n), false)
					t.Steps(3)
				}
				for _, d := range []int{-1, 1, -n, n, -1 << 62, 1 << 62} {
					fi := nkInfo("6", n)
					fi.Descriptor.Length += d
					_, _ = op.PutFile(fi, true)
					fi.Data = nil
					_, _ = op.PutFile(fi, true)
					t.Steps(2)
				}
				_, _ = op.Catalog("")
				t.State(hashInt(9, n))
			}
		}, "length %d", n)
	}
	for ty := 0; ty < 512; ty++ {
		c.Case(func(t *T) {
			op := nkOpen(t, clone(tiny))
			fi := nkInfo("FIVE", 10)
			fi.Descriptor.Type = types.Filetype(ty)
			_, _ = op.PutFile(fi, true)
			t.Step()
			t.State(hashInt(10, ty))
		}, "type %d", ty)
	}
	c.Section("all files", "disks whose 548 sectors belong to files in every stride 1-253, filled up and emptied")
	for k := 1; k <= 253; k++ {
		c.Case(func(t *T) {
			var o [nSectors]byte
			for i := range o {
				o[i] = byte(1 + (i*k)%253)
				if i < 12 {
					o[i] = 0xfe
				}
			}
			nkExercise(t, nkImage(o, nil), true)
			t.State(hashInt(11, k))
		}, "stride %d", k)
	}
	c.Section("whole disks", "images filled with each byte value, with and without a valid map start; stamped images; sample disks with each track damaged five ways; images of wrong sizes")
	for v := 0; v < 256; v++ {
		c.Case(func(t *T) {
			img := make([]byte, floppy)
			for i := range img {
				img[i] = byte(v)
			}
			nkExercise(t, clone(img), true)
			for i := 0; i < 12; i++ {
				img[9*256+0xd0+i] = 0xfe
			}
			nkExercise(t, clone(img), true)
			o := nkMap(tiny)
			nkPutMap(img, o)
			nkExercise(t, img, true)
			for k := 0; k < 4; k++ {
				s := stamped(v&^3 | k)
				nkExercise(t, clone(s), true)
				nkPutMap(s, o)
				nkExercise(t, s, true)
			}
			for _, sys := range []string{"auto", "nakedos"} {
				if op, _, err := disk.OpenImage(stamped(v), "x.dsk", "auto", sys, factories(), t.debug()); err == nil {
					_, _ = op.Catalog("")
				}
				t.Step()
			}
			t.State(hashInt(12, v))
		}, "fill %02X", v)
	}
	for _, n := range []int{0, 1, 255, 256, 9 * 256, 10 * 256, 11 * 256, 12*256 - 1, 12 * 256, 13 * 256, 4096, floppy / 2, floppy - 256, floppy - 1, floppy + 1, floppy + 256, 2 * floppy} {
		c.Case(func(t *T) {
			for _, fill := range []byte{0, 0xfe, 0xff, 3} {
				img := make([]byte, n)
				for i := range img {
					img[i] = fill
				}
				for k := 0; k < 2; k++ {
					if k == 1 {
						copy(img, tiny)
					}
					for _, sys := range []string{"auto", "nakedos"} {
						if op, _, err := disk.OpenImage(clone(img), "x.dsk", "auto", sys, factories(), t.debug()); err == nil {
							_, _ = op.Catalog("")
						}
						t.Step()
					}
				}
				t.State(hashInt(13, n*256+int(fill)))
			}
		}, "image of %d bytes", n)
	}
	for _, d := range []string{"Super-Mon-2.0.dsk", "dos33master.dsk", "lode-runner-disk-1.dsk", "prodos-users-disk.dsk"} {
		b := repoFile("data/disks/" + d)
		if len(b) != floppy {
			continue
		}
		base := oracleConvert(b, "do", "raw")
		for tr := 0; tr < 35; tr++ {
			c.Case(func(t *T) {
				for how := 0; how < 5; how++ {
					img := clone(base)
					p := img[tr*trackSize : (tr+1)*trackSize]
					for i := range p {
						switch how {
						case 0:
							p[i] = 0
						case 1:
							p[i] = 0xff
						case 2:
							p[i] = base[(tr*trackSize+i+256)%floppy]
						case 3:
							p[i] = base[(tr*trackSize+i+1)%floppy]
						case 4:
							p[i] = byte(i * 31)
						}
					}
					nkExercise(t, img, true)
					t.State(hashInt(hashString(14, d), tr*5+how))
				}
			}, "%s track %d", d, tr)
		}
	}
}

func putFileByte(img []byte, o *[nSectors]byte, f byte, off int, v byte) {
	for s, x := range o {
		if x == f {
			if off < 256 {
				img[s*256+off] = v
				return
			}
			off -= 256
		}
	}
}

var linkBaseImg []byte

func linkBase() []byte {
	if linkBaseImg == nil {
		linkBaseImg = nkMake("links", []int{15, 16, 200}, 0xfe, map[byte][]int{5: {13}, 7: {14}}, map[int]nkSym{
			0: {addr: 0xdf05, name: "AAA"}, 1: {addr: 0xdf85, name: "BBB"}, 7: {addr: 0x05df, name: "CCC"}, 818: {addr: 0x5fda, name: "DDD"},
		}, true).img
	}
	return linkBaseImg
}

// symsEverywhere fills all slots but a few with chained symbols.
func symsEverywhere() map[int]nkSym {
	m := map[int]nkSym{}
	for i := 0; i < 819; i++ {
		if i%50 == 49 {
			continue
		}
		m[i] = nkSym{addr: uint16(0x1000 + i*37), name: fmt.Sprintf("S%03dX", i)}
	}
	m[0] = nkSym{addr: 0xdf05, name: "FIVE"}
	m[400] = nkSym{addr: 0xdf07, name: "SEVEN7"}
	m[818] = nkSym{addr: 0xdf99, name: "STALE"}
	return m
}
