package main

import (
	"fmt"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
)

func init() {
	props["C14"] = prop{run: c14, level: "model_checking", assum: []string{
		"does not finish: more than 20 s of processor time or 1.5 GB of memory in one call, on calls that take milliseconds",
		"damage is exhaustive for one byte, for one pointer, and for the pointer graph over a small set of targets; other bytes keep their values",
	}}
}

// dosExercise runs everything the tool can do with a DOS image, in any state,
// and checks that it answers, answers the same twice, and leaves the image be.
func dosExercise(t *T, img []byte, open bool) {
	before := hashBytes(1, img)
	of := dos3.OperatorFactory{}
	m1 := of.SeemsToMatch(img, t.debug())
	op, err := of.Operator(img, t.debug())
	t.Steps(2)
	if err == nil {
		descs, err := op.Catalog("")
		descs2, err2 := op.Catalog("")
		t.Steps(2)
		if fmt.Sprint(descs, err) != fmt.Sprint(descs2, err2) {
			t.Fail("listing twice gave different answers: %v %v, then %v %v", descs, err, descs2, err2)
		}
		if err == nil {
			t.outcome = "listed"
			seen := map[string]bool{}
			for i, d := range descs {
				if seen[d.Name] || i > 200 {
					continue
				}
				seen[d.Name] = true
				fi, err := op.GetFile(d.Name)
				t.Step()
				if err == nil && len(fi.Data) > 560*122*256 {
					t.Fail("get %q returned %d bytes, more than a disk can list", d.Name, len(fi.Data))
				}
			}
		} else {
			t.outcome = "refused"
		}
		_, _ = op.GetFile("NO SUCH FILE")
		_, _ = op.GetFile("")
		_, _ = op.Catalog("SUB/DIR")
		t.Steps(3)
	}
	files, deleted, err := dos3.ReadCatalog(img, t.debug())
	t.Step()
	if err == nil {
		for i := range files {
			if i > 20 {
				break
			}
			_, _ = files[i].Contents(img)
			_ = files[i].FilenameString()
			t.Step()
		}
		for i := range deleted {
			if i > 20 {
				break
			}
			_, _ = deleted[i].Contents(img)
			_ = deleted[i].FilenameString()
			t.Step()
		}
	}
	if of.SeemsToMatch(img, t.debug()) != m1 {
		t.Fail("detection gave two answers")
	}
	if open {
		for _, sys := range []string{"auto", "dos3"} {
			if op, _, err := disk.OpenImage(img, "x.dsk", "auto", sys, factories(), t.debug()); err == nil {
				_, _ = op.Catalog("")
			}
			t.Step()
		}
	}
	if hashBytes(1, img) != before {
		t.Fail("the image was modified")
	}
}

// dosBase is a disk with a bit of everything: two catalog sectors, files of
// each type, a two-list file, a deleted and a never-used entry.
func dosBase(kind int) []byte {
	var files []*dfile
	next := 0
	sp := spots(kind)
	for i, ty := range []byte{4, 2, 1, 0, 0x84, 8, 0x20} {
		n := []int{300, 20, 0, 700, 1, 10, 10}[i]
		f := &dfile{name: []string{"ALPHA", "FILE1", "FILE2", "FILE3", "FILE4", "FILE5", "FILE6"}[i], ty: ty, secs: sectorsOf(stored(ty&0x7f, 0x2000, body(i, n), 0))}
		f.place(sp, &next, true)
		files = append(files, f)
	}
	var secs [][]byte
	for i := 0; i < 125; i++ {
		if i%3 == 0 || i > 120 {
			secs = append(secs, body(i, 256))
		} else {
			secs = append(secs, nil)
		}
	}
	f := &dfile{name: "LONG", ty: 0, secs: secs}
	f.place(sp, &next, true)
	files = append(files, f)
	dead := *files[0].entry()
	dead.list.t = 0xff
	return dosDisk(files, []*dosEntry{&dead, nil}, nil)
}

func c14(c *Ctx) {
	ptr := func(i int) []ts {
		a, b, d := ts{17, 15}, ts{17, 14}, ts{17, 13}
		return []ts{{}, a, b, d, {17, 0}, {35, 0}, {255, 255}, {0, 1}, {34, 15}, {17, 16}, {5, 5}}
	}
	c.Section("volume table bytes", "every value of every byte of the volume table, on two disks; every pair of catalog track and sector")
	for kind := 0; kind < 2; kind++ {
		for off := 0; off < 256; off++ {
			c.Case(func(t *T) {
				img := dosBase(kind)
				p := 17*trackSize + off
				keep := img[p]
				for v := 0; v < 256; v++ {
					img[p] = byte(v)
					dosExercise(t, img, v%16 == 0 || c.Thorough())
					t.State(hashInt(hashInt(uint64(kind), off), v))
				}
				img[p] = keep
			}, "disk %d byte %02X", kind, off)
		}
	}
	for tr := 0; tr < 256; tr++ {
		c.Case(func(t *T) {
			img := dosBase(0)
			for _, secs := range []byte{16, 13} {
				img[17*trackSize+0x35] = secs
				for s := 0; s < 256; s++ {
					img[17*trackSize+1], img[17*trackSize+2] = byte(tr), byte(s)
					dosExercise(t, img, false)
				}
			}
			t.State(hashInt(1, tr))
		}, "catalog at track %d", tr)
	}
	c.Section("catalog graph", "every assignment of the first pointer and the next pointers of three catalog sectors over eleven targets (each other, themselves, the volume table, data, out of range)")
	for i0, p0 := range ptr(0) {
		for i1, p1 := range ptr(1) {
			c.Case(func(t *T) {
				var ents []*dosEntry
				for k := 0; k < 21; k++ {
					ents = append(ents, stdEntry(k, k%3))
				}
				img := dosImage(254, 16, dosStdChain(3), ents)
				v := img[17*trackSize:]
				v[1], v[2] = p0.t, p0.s
				n := func(k int, p ts) {
					o := ts{17, byte(15 - k)}.off()
					img[o+1], img[o+2] = p.t, p.s
				}
				n(0, p1)
				for i2, p2 := range ptr(2) {
					for i3, p3 := range ptr(3) {
						n(1, p2)
						n(2, p3)
						dosExercise(t, img, (i2+i3)%5 == 0)
						t.State(hashInt(hashInt(2, i0*11+i1), i2*11+i3))
					}
				}
			}, "first %v, then %v", p0, p1)
		}
	}
	c.Section("one pointer", "the next pointer of a catalog sector, an entry's list pointer, a list's next pointer and its first and last data pointers set to every track × sector (quick: 22 sectors)")
	for tr := 0; tr < 256; tr++ {
		c.Case(func(t *T) {
			img := dosBase(2)
			secs := seq(0, 256)
			if !c.Thorough() {
				secs = []int{0, 1, 2, 3, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 63, 127, 128, 129, 254, 255}
			}
			cat := ts{17, 15}.off()
			// LONG is the last entry: two lists
			e := ts{17, 14}.off() + 0x0b + 35*2
			l1 := ts{img[e], img[e+1]}
			l2 := ts{img[l1.off()+1], img[l1.off()+2]}
			for i, o := range []int{cat + 1, ts{17, 14}.off() + 1, cat + 0x0b + 35*2, e, l1.off() + 1, l2.off() + 1, l1.off() + 12, l1.off() + 254, l2.off() + 12} {
				k0, k1 := img[o], img[o+1]
				for _, s := range secs {
					img[o], img[o+1] = byte(tr), byte(s)
					dosExercise(t, img, false)
					t.State(hashInt(hashInt(3, tr), i*256+s))
				}
				img[o], img[o+1] = k0, k1
			}
		}, "track %d", tr)
	}
	c.Section("list graph", "every assignment of an entry's list pointer, the next pointers of three lists and a data pointer of each over nine targets")
	lists := []ts{{5, 1}, {6, 2}, {7, 3}}
	targets := append([]ts{{}, {35, 0}, {255, 255}, {17, 0}, {17, 15}, {0, 1}}, lists...)
	for i0, p0 := range targets {
		for i1, p1 := range targets {
			c.Case(func(t *T) {
				for _, ty := range []byte{0, 4, 2} {
					img := dosImage(254, 16, dosStdChain(1), []*dosEntry{{list: p0, typ: ty, name: "F", count: 3}, {list: lists[0], typ: ty, name: "G", count: 3}})
					set := func(k int, p ts) { img[lists[k].off()+1], img[lists[k].off()+2] = p.t, p.s }
					dat := func(k int, p ts) { img[lists[k].off()+12], img[lists[k].off()+13] = p.t, p.s }
					set(0, p1)
					for i2, p2 := range targets {
						set(1, p2)
						for i3, p3 := range targets {
							set(2, p3)
							for i4, p4 := range targets {
								if !c.Thorough() && i4%3 != (i2+i3)%3 {
									continue
								}
								dat(0, p4)
								dat(1, targets[(i4+3)%9])
								dat(2, targets[(i4+5)%9])
								dosExercise(t, img, false)
								t.State(hashInt(hashInt(4, i0*9+i1), (i2*9+i3)*9+i4+1000*int(ty)))
							}
						}
					}
				}
			}, "entry %v, first list %v", p0, p1)
		}
	}
	c.Section("structure bytes", "every value of every byte of a catalog sector, of the lists of a two-list file, and of the first data sector of each typed file")
	for kind := 0; kind < Pick(c, 1, 2); kind++ {
		for off := 0; off < 256; off++ {
			c.Case(func(t *T) {
				img := dosBase(kind)
				e := ts{17, 14}.off() + 0x0b + 35*2
				l1 := ts{img[e], img[e+1]}
				l2 := ts{img[l1.off()+1], img[l1.off()+2]}
				at := []int{ts{17, 15}.off(), ts{17, 14}.off(), l1.off(), l2.off()}
				for k := 2; k < 7; k++ { // the first data sectors
					le := ts{17, 15}.off() + 0x0b + 35*k
					l := ts{img[le], img[le+1]}
					if off < 8 {
						at = append(at, ts{img[l.off()+12], img[l.off()+13]}.off())
					}
				}
				for _, o := range at {
					keep := img[o+off]
					for v := 0; v < 256; v++ {
						img[o+off] = byte(v)
						dosExercise(t, img, false)
						t.State(hashInt(hashInt(5, o), off*256+v))
					}
					img[o+off] = keep
				}
			}, "disk %d byte %02X", kind, off)
		}
	}
	c.Section("types and tiny files", "every type byte × files of no list entries, only holes, one and two data sectors × stored lengths at the edges")
	for ty := 0; ty < 256; ty++ {
		c.Case(func(t *T) {
			for shape := 0; shape < 5; shape++ {
				for _, ln := range []int{0, 1, 2, 251, 252, 253, 254, 255, 256, 257, 507, 508, 509, 510, 511, 512, 32767, 32768, 65535} {
					for h := 0; h < 2; h++ {
						img := dosImage(254, 16, dosStdChain(1), []*dosEntry{{list: ts{5, 5}, typ: byte(ty), name: "F", count: 2}})
						var secs [][]byte
						d := body(1, 512)
						d[2*h], d[2*h+1] = byte(ln), byte(ln>>8)
						switch shape {
						case 1:
							secs = [][]byte{nil, nil, d[:256]}
						case 2:
							secs = [][]byte{d[:256]}
						case 3:
							secs = [][]byte{d[:256], d[256:]}
						case 4:
							secs = make([][]byte, 122)
							secs[121] = d[:256]
						}
						where := make([]ts, len(secs))
						for i := range where {
							where[i] = ts{byte(6 + i%20), byte(i % 16)}
						}
						dosFile(img, []ts{{5, 5}}, where, secs)
						dosExercise(t, img, false)
						t.State(hashInt(hashInt(6, ty), shape*100000+ln*2+h))
					}
				}
			}
		}, "type %02X", ty)
	}
	c.Section("whole disks", "every sector pointing k sectors on as catalog and list at once, for every k; disks filled with each byte value, with valid and invalid volume tables; the sample disks with each track zeroed, filled or shifted")
	for k := 1; k < 560; k++ {
		c.Case(func(t *T) {
			img := make([]byte, floppy)
			for s := 0; s < 560; s++ {
				n := (s + k) % 560
				o := s * 256
				for i := 0; i < 256; i++ {
					img[o+i] = byte((n + i*i) % 35)
				}
				img[o+1], img[o+2] = byte(n/16), byte(n%16)
			}
			copy(img[17*trackSize:], dosVTOC(1, 16, byte(k%35), byte(k%16)))
			dosExercise(t, img, true)
			t.State(hashInt(7, k))
		}, "stride %d", k)
	}
	for v := 0; v < 256; v++ {
		c.Case(func(t *T) {
			img := make([]byte, floppy)
			for i := range img {
				img[i] = byte(v)
			}
			dosExercise(t, img, true)
			copy(img[17*trackSize:], dosVTOC(1, 16, 17, 15))
			dosExercise(t, img, true)
			copy(img[17*trackSize:], dosVTOC(1, 16, byte(v), byte(v)))
			dosExercise(t, img, true)
			dosExercise(t, stamped(v), true)
			t.State(hashInt(8, v))
		}, "fill %02X", v)
	}
	for _, d := range []string{"dos33master.dsk", "lode-runner-disk-1.dsk", "prodos-users-disk.dsk", "Super-Mon-2.0.dsk"} {
		base := repoFile("data/disks/" + d)
		if len(base) != floppy {
			continue
		}
		for tr := 0; tr < 35; tr++ {
			c.Case(func(t *T) {
				for how := 0; how < 5; how++ {
					img := clone(base)
					p := img[tr*trackSize : (tr+1)*trackSize]
					for i := range p {
						switch how {
						case 0:
							p[i] = 0
						case 1:
							p[i] = 0xff
						case 2:
							p[i] = base[(tr*trackSize+i+256)%floppy]
						case 3:
							p[i] = base[(tr*trackSize+i+1)%floppy]
						case 4:
							p[i] = byte(i * 31)
						}
					}
					dosExercise(t, img, true)
					t.State(hashInt(hashString(9, d), tr*5+how))
				}
			}, "%s track %d", d, tr)
		}
	}
	c.Section("largest files", "a chain of 500 lists, all of whose entries are data, as one file and behind many names")
	c.Case(func(t *T) {
		var ents []*dosEntry
		for k := 0; k < 70; k++ {
			ents = append(ents, &dosEntry{list: ts{1, 0}, typ: []byte{0, 4, 2, 1}[k%4], name: fmt.Sprintf("BIG%d", k), count: 65535})
		}
		img := dosImage(254, 16, dosStdChain(10), ents)
		sp := spots(0)
		for i := 0; i < 500; i++ {
			o := sp[i].off()
			for j := 0; j < 122; j++ {
				p := sp[(i*7+j)%len(sp)]
				img[o+12+2*j], img[o+13+2*j] = p.t, p.s
			}
			if i+1 < 500 {
				img[o+1], img[o+2] = sp[i+1].t, sp[i+1].s
			} else {
				img[o+1], img[o+2] = 0, 0
			}
		}
		dosExercise(t, img, true)
		img[sp[499].off()+1] = 1 // and the chain closed into a loop
		dosExercise(t, img, true)
	}, "500 lists")
}
