package main

import (
	"fmt"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C09"] = prop{run: c09, level: "model_checking", assum: []string{
		"a well-formed disk has a valid volume table, an acyclic catalog chain ending in 0/0 and entries of the eight DOS file types",
		"entry states are exhaustive within one catalog sector (thorough: within two); chains are exhaustive in placement of one sector and in length, with four arrangements",
	}}
}

var dosTypes = map[byte]types.Filetype{
	0x00: types.FiletypeASCIIText, 0x01: types.FiletypeIntegerBASIC, 0x02: types.FiletypeApplesoftBASIC, 0x04: types.FiletypeBinary,
	0x08: types.FiletypeS, 0x10: types.FiletypeRelocatable, 0x20: types.FiletypeNewA, 0x40: types.FiletypeNewB,
}

// dosWant is what the catalog of img says, read independently: entries along
// the chain.
type dosWant struct {
	name   string
	typ    types.Filetype
	locked bool
	count  int
}

func dosName(b []byte) string {
	var s []byte
	for _, x := range b {
		s = append(s, x&0x7f)
	}
	return strings.TrimRight(string(s), " ")
}

func dosOracle(img []byte) (live, dead []dosWant) {
	v := img[17*trackSize:]
	at := ts{v[1], v[2]}
	for at != (ts{}) {
		sec := img[at.off() : at.off()+256]
		for j := 0; j < 7; j++ {
			e := sec[11+35*j : 11+35*j+35]
			w := dosWant{typ: dosTypes[e[2]&0x7f], locked: e[2] >= 0x80, count: int(e[33]) | int(e[34])<<8}
			switch e[0] {
			case 0:
			case 0xff:
				w.name = dosName(e[3:32])
				dead = append(dead, w)
			default:
				w.name = dosName(e[3:33])
				live = append(live, w)
			}
		}
		at = ts{sec[1], sec[2]}
	}
	return live, dead
}

// dosList lists img and compares with the oracle.
func dosList(t *T, img []byte) {
	live, dead := dosOracle(img)
	op, err := dos3.OperatorFactory{}.Operator(img, t.debug())
	t.noErr(err, "opening")
	descs, err := op.Catalog("")
	t.Step()
	t.noErr(err, "listing")
	compareDos(t, descs, live)
	files, deleted, err := dos3.ReadCatalog(img, t.debug())
	t.Step()
	t.noErr(err, "reading the catalog")
	if len(files) != len(live) || len(deleted) != len(dead) {
		t.Fail("the catalog has %d live and %d deleted entries, want %d and %d", len(files), len(deleted), len(live), len(dead))
	}
	for i := range deleted {
		d := &deleted[i]
		if d.FilenameString() != dead[i].name || int(d.SectorCount) != dead[i].count {
			t.Fail("deleted entry %d is %q of %d sectors, want %q of %d", i, d.FilenameString(), d.SectorCount, dead[i].name, dead[i].count)
		}
	}
	for i := range files {
		if n := files[i].FilenameString(); n != live[i].name {
			t.Fail("entry %d is %q, want %q", i, n, live[i].name)
		}
	}
}

func compareDos(t *T, descs []types.Descriptor, live []dosWant) {
	if len(descs) != len(live) {
		var n []string
		for _, d := range descs {
			n = append(n, d.Name)
		}
		t.Fail("%d files listed (%q), want %d", len(descs), n, len(live))
	}
	for i, d := range descs {
		w := live[i]
		if d.Name != w.name || d.Type != w.typ || d.Locked != w.locked || d.Sectors != w.count {
			t.Fail("entry %d is listed as name=%q type=%v locked=%v sectors=%d, want %q %v %v %d", i, d.Name, d.Type, d.Locked, d.Sectors, w.name, w.typ, w.locked, w.count)
		}
	}
}

// stdEntry makes entry k in one of the states.
func stdEntry(k int, state int) *dosEntry {
	ty := []byte{0x04, 0x82, 0x00, 0x81, 0x88, 0x10, 0xA0, 0x40}[k%8]
	e := &dosEntry{list: ts{byte(1 + k%16), byte(k % 16)}, typ: ty, name: fmt.Sprintf("FILE %d", k), count: uint16(k*3 + 2)}
	switch state {
	case 0:
		return nil
	case 1:
		e.list.t = 0xff
	}
	return e
}

// forStates calls f for every assignment of never-used/deleted/live to n entries.
func forStates(n int, f func(st []int)) {
	st := make([]int, n)
	for {
		f(st)
		i := 0
		for ; i < n; i++ {
			if st[i]++; st[i] < 3 {
				break
			}
			st[i] = 0
		}
		if i == n {
			return
		}
	}
}

// chainOf arranges n catalog sectors over the disk.
func chainOf(kind, n int, sectors byte) []ts {
	var all []ts
	for tr := 0; tr < 35; tr++ {
		for s := 0; s < int(sectors); s++ {
			if (tr == 0 && s == 0) || (tr == 17 && s == 0) {
				continue
			}
			all = append(all, ts{byte(tr), byte(s)})
		}
	}
	m := len(all)
	if n > m {
		n = m
	}
	out := make([]ts, n)
	for i := range out {
		switch kind {
		case 0: // down from 17/15, wrapping over the whole disk
			start := 0
			for x, a := range all {
				if a == (ts{17, sectors - 1}) {
					start = x
				}
			}
			out[i] = all[(start-i+m)%m]
		case 1:
			out[i] = all[i]
		case 2:
			out[i] = all[m-1-i]
		default:
			step := 101
			for gcd(step, m) != 1 {
				step++
			}
			out[i] = all[(i*step+50)%m]
		}
	}
	return out
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func c09(c *Ctx) {
	c.Section("entry states", "every assignment of never-used, deleted and live to the seven entries of the first, middle and last sector of a three-sector catalog, with the other sectors empty, full or mixed; thorough: all assignments over two sectors")
	for where := 0; where < 3; where++ {
		for other := 0; other < 3; other++ {
			for first := 0; first < 9; first++ {
				c.Case(func(t *T) {
					forStates(5, func(st5 []int) {
						ents := make([]*dosEntry, 21)
						for k := range ents {
							switch other {
							case 1:
								ents[k] = stdEntry(k, 2)
							case 2:
								ents[k] = stdEntry(k, k%3)
							}
						}
						st := append([]int{first % 3, first / 3}, st5...)
						for j, x := range st {
							ents[where*7+j] = stdEntry(where*7+j, x)
						}
						img := dosImage(254, 16, dosStdChain(3), ents)
						dosList(t, img)
						t.State(hashBytes(hashInt(1, other), img[17*trackSize:18*trackSize]))
					})
					t.Outcome("states")
				}, "sector %d, others %d, first two entries %d", where, other, first)
			}
		}
	}
	if c.Thorough() {
		for a := 0; a < 2187; a++ {
			c.Case(func(t *T) {
				ents := make([]*dosEntry, 14)
				for j, x := 0, a; j < 7; j, x = j+1, x/3 {
					ents[j] = stdEntry(j, x%3)
				}
				img := dosImage(1, 16, dosStdChain(2), ents)
				sec := img[ts{17, 14}.off()+0x0b:]
				forStates(7, func(st []int) {
					for j, x := range st {
						e := stdEntry(7+j, x)
						b := make([]byte, 35)
						if e != nil {
							b = e.bytes()
						}
						copy(sec[35*j:], b)
					}
					dosList(t, img)
					t.Step()
				})
				t.Outcome("two sectors")
			}, "two sectors, first %d", a)
		}
	}
	c.Section("chain placement", "a catalog sector at every track and sector, first, second or last of the chain, and before and after those whose track or sector differs in one bit or that have them swapped, on 16- and 13-sector disks")
	for _, sectors := range []byte{16, 13} {
		for tr := 0; tr < 35; tr++ {
			c.Case(func(t *T) {
				for s := byte(0); s < sectors; s++ {
					at := ts{byte(tr), s}
					if at == (ts{}) || at == (ts{17, 0}) {
						continue
					}
					chains := [][]ts{{at}, {at, {17, 7}}, {{17, 7}, at}, {{17, 12}, at, {5, 5}}, {{17, 12}, {5, 5}, at}}
					for _, n := range neighbours(at, sectors) {
						if n != (ts{17, 0}) {
							chains = append(chains, []ts{at, n}, []ts{{17, 12}, n, at})
						}
					}
					for _, chain := range chains {
						dup := false
						for i, x := range chain {
							for _, y := range chain[:i] {
								dup = dup || x == y
							}
						}
						if dup {
							continue
						}
						var ents []*dosEntry
						for k := 0; k < 7*len(chain); k++ {
							ents = append(ents, stdEntry(k, (k*5+1)%3))
						}
						img := dosImage(7, sectors, chain, ents)
						dosList(t, img)
						t.State(hashInt(hashInt(2, at.off()), len(chain)*100+int(sectors)))
					}
				}
				t.Outcome("placed")
			}, "track %d, %d sectors", tr, sectors)
		}
	}
	c.Section("chain length", "catalog chains of every length from 0 to the whole disk (558 sectors) in four arrangements, every entry live; thorough: with five state patterns")
	for _, sectors := range []byte{16, 13} {
		for kind := 0; kind < 4; kind++ {
			for n := 0; n <= 558; n++ {
				if n > 35*int(sectors)-2 {
					continue
				}
				c.Case(func(t *T) {
					for pat := 0; pat < Pick(c, 1, 5); pat++ {
						chain := chainOf(kind, n, sectors)
						var ents []*dosEntry
						for k := 0; k < 7*n; k++ {
							st := 2
							if pat > 0 {
								st = (k*pat + k/7) % 3
							}
							ents = append(ents, stdEntry(k, st))
						}
						img := dosImage(100, sectors, chain, ents)
						dosList(t, img)
						t.State(hashInt(hashInt(3, n), kind*1000+int(sectors)+pat*100))
					}
					t.Outcome("length")
				}, "%d catalog sectors, arrangement %d, %d sectors per track", n, kind, sectors)
			}
		}
	}
	c.Section("names", "every length 0-30; every byte value at every position; every pair of positions with blanks between; deleted entries likewise")
	for pos := 0; pos < 30; pos++ {
		c.Case(func(t *T) {
			base := stdEntry(4, 2)
			img := dosImage(254, 16, dosStdChain(2), []*dosEntry{stdEntry(0, 2), base, stdEntry(2, 1), nil, nil, nil, stdEntry(6, 2), stdEntry(7, 2)})
			o := ts{17, 15}.off() + 0x0b
			for _, slot := range []int{0, 1, 6} {
				for _, tr := range []byte{1, 34, 0xfe, 0xff} {
					e := img[o+35*slot : o+35*slot+35]
					keep := clone(e)
					e[0] = tr
					for _, style := range []int{0, 1, 2} {
						for i := 0; i < 30; i++ {
							ch := byte('A'+i) | 0x80
							switch {
							case style == 1:
								ch = ' ' | 0x80
							case style == 2 && i > pos:
								ch = ' ' | 0x80
							}
							e[3+i] = ch
						}
						for v := 0; v < 256; v++ {
							e[3+pos] = byte(v)
							dosList(t, img)
							t.State(hashBytes(hashInt(4, slot), e))
						}
					}
					copy(e, keep)
				}
			}
			t.Outcome("names")
		}, "position %d", pos)
		c.Case(func(t *T) { // two characters, blanks elsewhere
			for p2 := pos; p2 < 30; p2++ {
				name := []byte(strings.Repeat(" ", 30))
				name[pos], name[p2] = 'X', 'Y'
				e := stdEntry(0, 2)
				e.name = string(name)
				img := dosImage(254, 16, dosStdChain(1), []*dosEntry{e, nil, stdEntry(2, 2)})
				dosList(t, img)
				t.State(hashInt(hashInt(5, pos), p2))
			}
			t.Outcome("blanks")
		}, "characters at %d and later", pos)
	}
	c.Section("types, locks and sizes", "every type byte of the eight types with and without lock × every sector count × both ends of the sector")
	for ty := range dosTypes {
		_ = ty
	}
	for _, ty := range []byte{0, 1, 2, 4, 8, 0x10, 0x20, 0x40} {
		for _, lock := range []byte{0, 0x80} {
			c.Case(func(t *T) {
				img := dosImage(254, 16, dosStdChain(1), []*dosEntry{stdEntry(0, 2), stdEntry(1, 2), stdEntry(2, 2), nil, stdEntry(4, 1), nil, stdEntry(6, 2)})
				o := ts{17, 15}.off() + 0x0b
				for _, slot := range []int{0, 6} {
					e := img[o+35*slot:]
					e[2] = ty | lock
					step := 1
					if !c.Thorough() && (ty != 4 || lock != 0) {
						step = 37
					}
					for n := 0; n < 65536; n += step {
						e[33], e[34] = byte(n), byte(n>>8)
						dosList(t, img)
						if n < 600 || n%64 == 63 || c.Thorough() { // of the deleted entry too
							d := img[o+35*4:]
							d[2], d[33], d[34] = ty|lock, byte(n), byte(n>>8)
							dosList(t, img)
						}
					}
				}
				t.State(hashInt(6, int(ty|lock)))
				t.Outcome("types")
			}, "type %02X", ty|lock)
		}
	}
	c.Section("list locations", "an entry's track (1-254) × sector (0-255) of its first track/sector list does not affect the listing")
	for tr := 1; tr < 255; tr++ {
		c.Case(func(t *T) {
			img := dosImage(254, 16, dosStdChain(1), []*dosEntry{stdEntry(0, 2), stdEntry(1, 2), stdEntry(2, 1)})
			e := img[ts{17, 15}.off()+0x0b+35:]
			for s := 0; s < 256; s++ {
				e[0], e[1] = byte(tr), byte(s)
				dosList(t, img)
			}
			e = e[35:]
			for s := 0; s < 256; s++ {
				e[1] = byte(s)
				dosList(t, img)
			}
			t.State(hashInt(7, tr))
			t.Outcome("lists")
		}, "track %d", tr)
	}
	c.Section("volume table", "every volume number 0-254, every value of every byte the validity rule leaves free (free-sector map, last track, unused bytes), and every value of the unused bytes of a catalog sector")
	c.Case(func(t *T) {
		img := dosImage(254, 16, dosStdChain(2), []*dosEntry{stdEntry(0, 2), stdEntry(1, 1), stdEntry(2, 2), nil, nil, nil, nil, stdEntry(7, 2)})
		v := img[17*trackSize:]
		for vol := 0; vol < 255; vol++ {
			for _, dir := range []byte{1, 0xff} {
				for _, sec := range []byte{16} {
					v[6], v[0x31], v[0x35] = byte(vol), dir, sec
					dosList(t, img)
					t.State(hashInt(hashInt(8, vol), int(dir)))
				}
			}
		}
		t.Outcome("volumes")
	}, "volumes")
	for off := 0; off < 256; off++ {
		c.Case(func(t *T) {
			img := dosImage(254, 16, dosStdChain(2), []*dosEntry{stdEntry(0, 2), stdEntry(1, 1), stdEntry(2, 2), nil, nil, nil, nil, stdEntry(7, 2)})
			v := img[17*trackSize : 17*trackSize+256]
			if off != 1 && off != 2 {
				keep := v[off]
				n := 0
				for x := 0; x < 256; x++ {
					v[off] = byte(x)
					if dosVTOCValid(v) && v[0x35] != 13 {
						dosList(t, img)
						n++
					}
				}
				v[off] = keep
				t.State(hashInt(hashInt(9, off), n))
			}
			if off == 0 || (off >= 3 && off < 11) {
				for _, sec := range []byte{15, 14} {
					p := ts{17, sec}.off() + off
					for x := 0; x < 256; x++ {
						img[p] = byte(x)
						dosList(t, img)
					}
					img[p] = 0
				}
			}
			t.Outcome("free bytes")
		}, "offset %02X", off)
	}
	c.Section("through the tool", "disks stored in DOS and ProDOS order, opened by file name, list the same")
	for _, order := range []types.DiskOrder{"do", "po"} {
		for n := 1; n <= 15; n++ {
			c.Case(func(t *T) {
				var ents []*dosEntry
				for k := 0; k < 7*n; k++ {
					ents = append(ents, stdEntry(k, (k*k+n)%3))
				}
				img := dosImage(254, 16, dosStdChain(n), ents)
				live, _ := dosOracle(img)
				for _, ext := range []string{"." + string(order), ".dsk", ""} {
					o := order
					if ext == "."+string(order) {
						o = types.DiskOrderAuto
					}
					op, _, err := disk.OpenImage(clone(oracleConvert(img, "do", order)), "x"+ext, o, "auto", factories(), t.debug())
					t.noErr(err, "opening x%s as %s", ext, o)
					descs, err := op.Catalog("")
					t.Step()
					t.noErr(err, "listing")
					compareDos(t, descs, live)
				}
				t.State(hashInt(hashString(10, string(order)), n))
				t.Outcome("opened")
			}, "%s, %d catalog sectors", order, n)
		}
	}
}

// neighbours are the sectors whose track or sector differs in one bit from
// a's, and the one with both swapped; never track 0 sector 0.
func neighbours(a ts, sectors byte) []ts {
	var out []ts
	add := func(n ts) {
		if n != a && n != (ts{}) && n.t < 35 && n.s < sectors {
			out = append(out, n)
		}
	}
	for k := 0; k < 6; k++ {
		add(ts{a.t ^ 1<<k, a.s})
		add(ts{a.t, a.s ^ 1<<k})
	}
	add(ts{a.s, a.t})
	return out
}
