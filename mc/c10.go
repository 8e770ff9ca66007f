package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C10"] = prop{run: c10, level: "model_checking", assum: []string{
		"a well-formed file's first list lies on tracks 1-34 and its last listed sector is not a hole",
		"quick enumerates every length up to 1100 and around every list boundary; thorough every length up to 65535",
	}}
}

// spots lists every sector outside track 0 and 17 in an arrangement.
func spots(kind int) []ts {
	var all []ts
	for tr := 1; tr < 35; tr++ {
		if tr == 17 {
			continue
		}
		for s := 0; s < 16; s++ {
			all = append(all, ts{byte(tr), byte(s)})
		}
	}
	m := len(all)
	out := make([]ts, m)
	for i := range out {
		switch kind {
		case 0:
			out[i] = all[i]
		case 1:
			out[i] = all[m-1-i]
		default:
			out[i] = all[(i*107+13)%m] // 528 = 16*3*11
		}
	}
	return out
}

// body makes recognisable contents of n bytes.
func body(id, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(id*29 + i*7 + i/256*11 + i/4096*5)
	}
	return b
}

// stored returns the bytes of a file as its sectors hold them: the header the
// type has, the contents, then filler up to a whole sector.
func stored(ty byte, load int, data []byte, fill byte) []byte {
	var b []byte
	if ty == 4 {
		b = append(b, byte(load), byte(load>>8))
	}
	if ty != 0 {
		b = append(b, byte(len(data)), byte(len(data)>>8))
	}
	b = append(b, data...)
	for len(b)%256 != 0 {
		b = append(b, fill)
	}
	return b
}

func sectorsOf(b []byte) [][]byte {
	var out [][]byte
	for len(b) > 0 {
		out = append(out, b[:256])
		b = b[256:]
	}
	return out
}

type dfile struct {
	noCount bool // the entry gives no sector count
	name    string
	ty      byte // with lock bit
	secs    [][]byte
	// layout: which spots the lists and the data take
	lists []ts
	where []ts
}

// place lays a file out on spots from index *next on: lists first, or each
// list before its own sectors.
func (f *dfile) place(sp []ts, next *int, listFirst bool) {
	nl := (len(f.secs) + 121) / 122
	if nl == 0 {
		nl = 1
	}
	take := func() ts { *next++; return sp[*next-1] }
	f.lists, f.where = nil, nil
	if listFirst {
		for i := 0; i < nl; i++ {
			f.lists = append(f.lists, take())
		}
	}
	for i, s := range f.secs {
		if !listFirst && i%122 == 0 {
			f.lists = append(f.lists, take())
		}
		if s == nil {
			f.where = append(f.where, ts{})
		} else {
			f.where = append(f.where, take())
		}
	}
	if !listFirst && len(f.secs) == 0 {
		f.lists = append(f.lists, take())
	}
}

func (f *dfile) entry() *dosEntry {
	n := len(f.lists)
	for _, s := range f.secs {
		if s != nil {
			n++ // holes take no sector
		}
	}
	if f.noCount {
		n = 0
	}
	return &dosEntry{list: f.lists[0], typ: f.ty, name: f.name, count: uint16(n)}
}

// dosDisk builds a disk with the files in catalog order, other sectors holding
// bytes of their own.
func dosDisk(files []*dfile, before, between []*dosEntry) []byte {
	ents := append([]*dosEntry{}, before...)
	for i, f := range files {
		if i > 0 {
			ents = append(ents, between...)
		}
		ents = append(ents, f.entry())
	}
	n := (len(ents) + 6) / 7
	img := dosImage(254, 16, dosStdChain(n), ents)
	for tr := 1; tr < 35; tr++ {
		if tr == 17 {
			continue
		}
		for i := 0; i < trackSize; i++ {
			img[tr*trackSize+i] = byte(tr*9 + i*13 + 0x77)
		}
	}
	for _, f := range files {
		dosFile(img, f.lists, f.where, f.secs)
	}
	return img
}

func dosGet(t *T, img []byte, name string) (types.FileInfo, error) {
	op, err := dos3.OperatorFactory{}.Operator(img, t.debug())
	t.noErr(err, "opening")
	fi, err := op.GetFile(name)
	t.Step()
	return fi, err
}

func wantFile(t *T, img []byte, name string, ty byte, load int, want []byte) {
	fi, err := dosGet(t, img, name)
	t.noErr(err, "get %q", name)
	if !bytes.Equal(fi.Data, want) {
		t.Fail("get %q: %s", name, diffAt(fi.Data, want))
	}
	if ty == 4 && int(fi.StartAddress) != load {
		t.Fail("get %q: load address %04X, want %04X", name, fi.StartAddress, load)
	}
	if fi.Descriptor.Name != name {
		t.Fail("get %q returned a file named %q", name, fi.Descriptor.Name)
	}
	if fi.Descriptor.Length != len(want) {
		t.Fail("get %q: length reported as %d, want %d", name, fi.Descriptor.Length, len(want))
	}
}

func textOf(secs [][]byte) []byte {
	var b []byte
	for _, s := range secs {
		if s == nil {
			s = zeros(256)
		}
		b = append(b, s...)
	}
	return bytes.TrimRight(b, "\x00")
}

func c10(c *Ctx) {
	tyName := map[byte]string{0: "TEXT", 1: "INTEGER", 2: "APPLESOFT", 4: "BINARY"}
	bodyTypes := []byte{1, 2, 4}

	lens := map[int]bool{}
	for n := 0; n <= 1100; n++ {
		lens[n] = true
	}
	for _, edge := range []int{122 * 256, 244 * 256, 65535, 256 * 16, 256 * 121, 256 * 200} {
		for d := -8; d <= 8; d++ {
			if n := edge + d; n <= 65535 {
				lens[n] = true
			}
		}
	}
	c.Section("lengths", "BASIC and binary files of every length 0-1100 and around every list boundary up to 65535 (thorough: every length), three layouts, two fillers")
	for blk := 0; blk < 65536; blk += 64 {
		var mine []int
		for n := blk; n < blk+64; n++ {
			if lens[n] || c.Thorough() {
				mine = append(mine, n)
			}
		}
		if len(mine) == 0 {
			continue
		}
		for _, ty := range bodyTypes {
			c.Case(func(t *T) {
				for _, n := range mine {
					for layout := 0; layout < 3; layout++ {
						if n > 1100 && layout != n%3 {
							continue
						}
						data := body(n, n)
						f := &dfile{name: tyName[ty], ty: ty | byte(n%2)<<7, secs: sectorsOf(stored(ty, n*3, data, byte(0xff*(layout&1))))}
						next := 0
						f.place(spots(layout), &next, layout != 1)
						img := dosDisk([]*dfile{f}, nil, nil)
						wantFile(t, img, f.name, ty, n*3&0xffff, data)
						t.State(hashInt(hashInt(int1(ty), n), layout))
					}
				}
				t.Outcome(tyName[ty])
			}, "%s of %d-%d bytes", tyName[ty], mine[0], mine[len(mine)-1])
		}
	}

	c.Section("sector counts", "text files of every sector count 0-490 (up to five lists), three layouts")
	for n := 0; n <= 490; n++ {
		c.Case(func(t *T) {
			for layout := 0; layout < 3; layout++ {
				var secs [][]byte
				for i := 0; i < n; i++ {
					s := body(i, 256)
					s[0], s[255] = byte(i+1), byte(i/256+1)
					secs = append(secs, s)
				}
				f := &dfile{name: "TEXT FILE", ty: 0, secs: secs}
				next := 0
				f.place(spots(layout), &next, layout != 1)
				img := dosDisk([]*dfile{f}, nil, nil)
				wantFile(t, img, f.name, 0, 0, textOf(secs))
				t.State(hashInt(hashInt(20, n), layout))
			}
			t.Outcome("%d lists", (n+121)/122)
		}, "%d sectors", n)
	}

	c.Section("text endings", "a one- to three-sector text file whose last nonzero byte is at every offset, with zeros inside; all-zero files; every last byte value")
	for n := 1; n <= 3; n++ {
		for blk := -1; blk < n*256; blk += 32 {
			c.Case(func(t *T) {
				for last := blk; last < blk+32 && last < n*256; last++ {
					for _, gaps := range []int{1, 2, 3} {
						b := make([]byte, n*256)
						for i := 0; i <= last; i++ {
							if i%gaps == 0 {
								b[i] = byte(i*3 + 1)
							}
						}
						for _, v := range []byte{1, 0x8d, 0x80, 0xff, 0x20} {
							if last >= 0 {
								b[last] = v
							}
							f := &dfile{name: "T", ty: 0x80, secs: sectorsOf(b)}
							next := 0
							f.place(spots(2), &next, true)
							img := dosDisk([]*dfile{f}, nil, nil)
							wantFile(t, img, "T", 0, 0, bytes.TrimRight(b, "\x00"))
							t.State(hashBytes(21, b))
						}
					}
				}
				t.Outcome("text")
			}, "%d sectors, last byte at %d-", n, blk)
		}
	}

	c.Section("text padding", "text files of 1-3 sectors and at list ends followed by 0-480 sectors of zeros, three layouts")
	for _, n := range []int{0, 1, 2, 3, 121, 122, 123, 243, 244, 245} {
		for blk := 0; blk <= 480; blk += 8 {
			c.Case(func(t *T) {
				for zeros := blk; zeros < blk+8 && n+zeros <= 488; zeros++ {
					layout := (n + zeros) % 3
					var secs [][]byte
					for i := 0; i < n; i++ {
						s := body(i+n, 256)
						s[0] = byte(i + 1)
						secs = append(secs, s)
					}
					for i := 0; i < zeros; i++ {
						secs = append(secs, make([]byte, 256))
					}
					f := &dfile{name: "TEXT FILE", ty: 0, secs: secs}
					next := 0
					f.place(spots(layout), &next, layout != 1)
					img := dosDisk([]*dfile{f}, nil, nil)
					wantFile(t, img, f.name, 0, 0, textOf(secs))
					t.State(hashInt(hashInt(23, n), zeros))
				}
				t.Outcome("padding")
			}, "%d sectors and %d or more of zeros", n, blk)
		}
	}

	c.Section("holes", "every set of holes in files of up to 9 sectors; every run of holes at list boundaries; whole lists of holes")
	for n := 1; n <= 9; n++ {
		for part := 0; part < 4; part++ {
			c.Case(func(t *T) {
				for mask := part; mask < 1<<(n-1); mask += 4 {
					for _, ty := range []byte{0, 4, 2} {
						if ty != 0 && mask&1 != 0 {
							continue // the header's sector is there
						}
						var full []byte
						var want []byte
						if ty == 0 {
							full = body(mask, n*256)
							full[len(full)-1] = 7
						} else {
							full = stored(ty, 0x2000, body(mask, n*256-4), 0)
							if ty == 2 {
								full = stored(ty, 0, body(mask, n*256-2), 0)
							}
						}
						secs := sectorsOf(full)
						for i := 0; i < n; i++ {
							if mask>>i&1 != 0 {
								secs[i] = nil
							}
						}
						var all []byte
						for _, s := range secs {
							if s == nil {
								s = zeros(256)
							}
							all = append(all, s...)
						}
						switch ty {
						case 0:
							want = all
						case 2:
							want = all[2:]
						case 4:
							want = all[4:]
						}
						f := &dfile{name: "HOLES", ty: ty, secs: secs}
						next := 0
						f.place(spots(mask%3), &next, true)
						img := dosDisk([]*dfile{f}, nil, nil)
						wantFile(t, img, "HOLES", ty, 0x2000, want)
						t.State(hashInt(hashInt(22, n), mask*8+int(ty)))
					}
				}
				t.Outcome("hole sets")
			}, "%d sectors, part %d", n, part)
		}
	}
	for _, total := range []int{123, 130, 245, 300, 400} {
		for from := 0; from < total-1; from++ {
			c.Case(func(t *T) {
				for _, ln := range []int{1, 2, 5, 121, 122, 123, 200, 244, 245} {
					if from+ln > total-1 {
						continue
					}
					var secs [][]byte
					for i := 0; i < total; i++ {
						if i >= from && i < from+ln {
							secs = append(secs, nil)
							continue
						}
						s := body(i, 256)
						s[255] = 1
						secs = append(secs, s)
					}
					f := &dfile{name: "SPARSE", ty: 0, secs: secs}
					next := 0
					f.place(spots(1), &next, true)
					img := dosDisk([]*dfile{f}, nil, nil)
					wantFile(t, img, "SPARSE", 0, 0, textOf(secs))
					t.State(hashInt(hashInt(23, total), from*1000+ln))
				}
				t.Outcome("hole runs")
			}, "%d sectors, holes from %d", total, from)
		}
	}

	c.Section("places", "the data sector, the only list, and the second list of a file at every sector of the disk, and lists and data in sectors whose addresses differ in one bit or are swapped; every order of five data sectors")
	for tr := 0; tr < 35; tr++ {
		c.Case(func(t *T) {
			for s := 0; s < 16; s++ {
				at := ts{byte(tr), byte(s)}
				if (tr == 17 || tr == 0) && s == 0 {
					continue // the volume table; (0,0) is a hole
				}
				data := body(s, 200)
				// the catalog moves out of the way when it is on the chosen sector
				chain := []ts{{17, 15}}
				if at == chain[0] {
					chain[0] = ts{17, 3}
				}
				other := []ts{{1, 1}, {2, 2}, {3, 3}, {4, 4}, {6, 6}}
				free := func() ts {
					for other[0] == at {
						other = other[1:]
					}
					x := other[0]
					other = other[1:]
					return x
				}
				mk := func(f *dfile) []byte {
					img := dosImage(254, 16, chain, []*dosEntry{nil, f.entry()})
					dosFile(img, f.lists, f.where, f.secs)
					return img
				}
				// data sector there
				f := &dfile{name: "F", ty: 4, secs: sectorsOf(stored(4, 0x300, data, 0))}
				f.lists, f.where = []ts{free()}, []ts{at}
				wantFile(t, mk(f), "F", 4, 0x300, data)
				// list there
				if tr != 0 { // a first list on track 0 marks an unused entry
					f.lists, f.where = []ts{at}, []ts{free()}
					wantFile(t, mk(f), "F", 4, 0x300, data)
				}
				// second list there
				g := &dfile{name: "F", ty: 0}
				for i := 0; i < 122; i++ {
					g.secs = append(g.secs, nil)
					g.where = append(g.where, ts{})
				}
				l1, d1 := free(), free()
				g.secs = append(g.secs, bytes.Repeat([]byte{9}, 256))
				g.where = append(g.where, d1)
				g.lists = []ts{l1, at}
				if l1 == at || d1 == at {
					continue
				}
				wantFile(t, mk(g), "F", 0, 0, textOf(g.secs))
				// first list, second list and data in neighbouring sectors
				for _, n := range neighbours(at, 16) {
					if n == (ts{17, 0}) || n == chain[0] {
						continue
					}
					for _, pos := range [][3]ts{{at, n, d1}, {n, at, d1}, {l1, at, n}} {
						if pos[0].t == 0 || pos[0] == pos[1] || pos[0] == pos[2] || pos[1] == pos[2] {
							continue
						}
						g.lists = []ts{pos[0], pos[1]}
						g.where[122] = pos[2]
						wantFile(t, mk(g), "F", 0, 0, textOf(g.secs))
					}
				}
				t.State(hashInt(24, at.off()))
			}
			t.Outcome("places")
		}, "track %d", tr)
	}
	for _, p := range permutations(5) {
		c.Case(func(t *T) {
			sp := []ts{{1, 0}, {1, 1}, {34, 15}, {16, 7}, {18, 0}}
			f := &dfile{name: "ORDER", ty: 4, secs: sectorsOf(stored(4, 0x4000, body(3, 1270), 0)), lists: []ts{{20, 3}}}
			for i := range f.secs {
				f.where = append(f.where, sp[p[i]])
			}
			wantFile(t, dosDisk([]*dfile{f}, nil, nil), "ORDER", 4, 0x4000, body(3, 1270))
			t.State(hashString(25, fmt.Sprint(p)))
			t.Outcome("orders")
		}, "order %v", p)
	}

	c.Section("headers", "every load address; every stored length 0-65535 of a binary, Applesoft or Integer file of 1, 2 and 130 sectors: exact bytes or an error when too long")
	for hi := 0; hi < 256; hi++ {
		c.Case(func(t *T) {
			for _, ty := range bodyTypes {
				for _, n := range []int{1, 2, 130} {
					if n == 130 && hi%8 != 0 && hi != 0x81 && hi != 0x82 && !c.Thorough() {
						continue
					}
					raw := body(n, n*256)
					h := 0
					if ty == 4 {
						h = 2
					}
					f := &dfile{name: "X", ty: ty, secs: sectorsOf(raw)}
					next := 0
					f.place(spots(0), &next, true)
					img := dosDisk([]*dfile{f}, nil, nil)
					first := img[f.where[0].off():]
					for lo := 0; lo < 256; lo++ {
						length := hi<<8 | lo
						first[h], first[h+1] = byte(lo), byte(hi)
						if ty == 4 {
							first[0], first[1] = byte(hi), byte(lo)
						}
						if length > len(raw)-h-2 {
							if fi, err := dosGet(t, img, "X"); err == nil {
								t.Fail("stored length %d in %d sectors: get returned %d bytes", length, n, len(fi.Data))
							}
							continue
						}
						want := append([]byte(nil), raw[h+2:h+2+length]...)
						wantFile(t, img, "X", ty, lo<<8|hi, want)
					}
					t.State(hashInt(hashInt(26, hi), int(ty)*1000+n))
				}
			}
			t.Outcome("headers")
		}, "stored length %02Xxx", hi)
	}

	c.Section("many files", "getting each of 1-40 files by name, names that are prefixes of each other, deleted entries of the same name before and after, missing names refused")
	for n := 1; n <= 40; n++ {
		for variant := 0; variant < 6; variant++ {
			c.Case(func(t *T) {
				var files []*dfile
				want := map[string][]byte{}
				tys := map[string]byte{}
				next := 0
				sp := spots(2)
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("FILE %d", i)
					switch variant {
					case 1:
						name = strings.Repeat("A", i%30+1)
						if i >= 30 {
							name = strings.Repeat("B", i%30+1)
						}
					case 2:
						name = fmt.Sprintf("%30d", i)
						name = strings.Replace(name, " ", "X", 3)
					case 3:
						name = fmt.Sprintf("a,b.c/%d:\x01", i)
					case 4: // leading blanks and control characters
						name = []string{" ", "  ", "\t", "\x04", "\x00"}[i%5] + fmt.Sprintf("LEAD %d", i/5)
					case 5: // names that differ in case or by a leading blank only
						name = []string{"Hello", "HELLO", "hello", " hello"}[i%4] + fmt.Sprint(i/4)
					}
					ty := []byte{4, 2, 1, 0}[i%4]
					data := body(i+1, i*67%700+1)
					data[len(data)-1] |= 1
					f := &dfile{name: name, ty: ty, secs: sectorsOf(stored(ty, 0x800, data, 0)), noCount: variant == 5 && i%3 > 0}
					f.place(sp, &next, i%2 == 0)
					files = append(files, f)
					want[name], tys[name] = data, ty
				}
				dead := *files[0].entry()
				dead.list = ts{0xff, 1}
				dead2 := *files[n-1].entry()
				dead2.list = ts{0xff, 3}
				dead2.typ = 0
				between := []*dosEntry{&dead2, nil}
				if n > 30 {
					between = between[:1] // 105 entries at most
				}
				img := dosDisk(files, []*dosEntry{&dead, &dead2}, between)
				for name, data := range want {
					wantFile(t, img, name, tys[name], 0x800, data)
				}
				for _, missing := range []string{"NOSUCH", "FILE", "FILE 99", "FILE  1", "Q", strings.Repeat("A", 31), "", otherCase(files[0].name), otherCase(files[n-1].name), " " + files[0].name, files[n-1].name + "X", files[0].name[:len(files[0].name)-1], files[n/2].name[1:], files[n/2].name + "\x00", strings.ReplaceAll(files[0].name, " ", "")} {
					if _, ok := want[missing]; ok {
						continue
					}
					if fi, err := dosGet(t, img, missing); err == nil {
						t.Fail("get of missing %q returned %q (%d bytes)", missing, fi.Descriptor.Name, len(fi.Data))
					}
				}
				// the same through the image file in both orders
				for _, order := range []types.DiskOrder{"do", "po"} {
					op, _, err := disk.OpenImage(oracleConvert(img, "do", order), "x."+string(order), "auto", "auto", factories(), t.debug())
					t.noErr(err, "opening in %s order", order)
					for name, data := range want {
						fi, err := op.GetFile(name)
						t.Step()
						t.noErr(err, "get %q from the %s image", name, order)
						t.mustEqual(fi.Data, data, "get %q from the %s image", name, order)
					}
				}
				t.State(hashInt(hashInt(27, n), variant))
				t.Outcome("files")
			}, "%d files, names %d", n, variant)
		}
	}
	c.Section("list bytes", "lists of two- and three-list files with every unused byte set and with sector offsets of every kind: the chain alone decides")
	for _, total := range []int{1, 122, 123, 250} {
		for off := 0; off < 12; off++ {
			if off == 1 || off == 2 {
				continue
			}
			c.Case(func(t *T) {
				for _, v := range []byte{1, 17, 0x7a, 0x80, 0xff} {
					for _, only := range []int{-1, 0, 1, 2} {
						var secs [][]byte
						for i := 0; i < total; i++ {
							s := body(i, 256)
							s[255] = 1
							secs = append(secs, s)
						}
						f := &dfile{name: "LISTS", ty: 0, secs: secs}
						next := 0
						f.place(spots(2), &next, true)
						img := dosImage(254, 16, dosStdChain(1), []*dosEntry{nil, f.entry()})
						dosFileWith(img, f.lists, f.where, f.secs, func(li int, sec []byte) {
							if only == -1 || only == li {
								sec[off] = v
							}
						})
						wantFile(t, img, "LISTS", 0, 0, textOf(secs))
						t.State(hashInt(hashInt(29, total), off*100000+int(v)*10+only))
					}
				}
				t.Outcome("lists")
			}, "%d sectors, list byte %02X", total, off)
		}
	}
	c.Section("own copies", "the bytes returned are the caller's: changing them changes neither the disk nor a later get")
	for _, ty := range []byte{0, 1, 2, 4} {
		for n := 0; n <= 5; n++ {
			c.Case(func(t *T) {
				for _, d := range []int{-2, -1, 0} {
					l := n*256 + d
					if l < 0 {
						continue
					}
					data := body(n, l)
					if l > 0 {
						data[l-1] |= 1
					}
					f := &dfile{name: "F", ty: ty, secs: sectorsOf(stored(ty, 0x800, data, 0))}
					next := 0
					f.place(spots(0), &next, true)
					img := dosDisk([]*dfile{f}, nil, nil)
					was := clone(img)
					op, err := dos3.OperatorFactory{}.Operator(img, t.debug())
					t.noErr(err, "opening")
					for k := 0; k < 3; k++ {
						fi, err := op.GetFile("F")
						t.Step()
						t.noErr(err, "get")
						t.mustEqual(fi.Data, data, "get %d", k)
						for i := range fi.Data {
							fi.Data[i] ^= 0x5A
						}
						t.mustEqual(img, was, "the disk after changing the bytes got")
					}
					t.State(hashInt(hashInt(30, int(ty)), l))
				}
				t.Outcome("own")
			}, "%s of %d sectors", tyName[ty], n)
		}
	}
	c.Section("text bytes", "a text file holding every byte value and every pair of adjacent values comes back verbatim")
	for b0 := 0; b0 < 256; b0++ {
		c.Case(func(t *T) {
			d := []byte{}
			for b1 := 0; b1 < 256; b1++ {
				d = append(d, byte(b0), byte(b1))
			}
			d = append(d, 1)
			for _, ty := range []byte{0, 1, 2, 4} {
				f := &dfile{name: "BYTES", ty: ty, secs: sectorsOf(stored(ty, 1, d, 0))}
				next := 0
				f.place(spots(1), &next, true)
				wantFile(t, dosDisk([]*dfile{f}, nil, nil), "BYTES", ty, 1, d)
			}
			t.State(hashInt(28, b0))
			t.Outcome("bytes")
		}, "byte %02X", b0)
	}
}

func int1(b byte) uint64 { return uint64(b) }

func seq(a, b int) []int {
	var out []int
	for i := a; i < b; i++ {
		out = append(out, i)
	}
	return out
}
