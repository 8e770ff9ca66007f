package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C11"] = prop{run: c11, level: "model_checking", assum: []string{
		"a well-formed volume: key block 2, directory blocks doubly linked, subdirectory headers carrying their entry's name and referring to some block of the parent, paths of at most 64 characters",
		"slot patterns are exhaustive within one directory block; trees are exhaustive in the slot and parent reference of a subdirectory at depths 1 and 2",
	}}
}

// live returns a directory's entries in order.
func (d *pDir) live() []*pEntry {
	var pos []int
	for p, e := range d.entries {
		if e.storage != 0 {
			pos = append(pos, p)
		}
	}
	sort.Ints(pos)
	var out []*pEntry
	for _, p := range pos {
		out = append(out, d.entries[p])
	}
	return out
}

// walk visits every directory with its path.
func (d *pDir) walk(path string, f func(path string, d *pDir)) {
	f(path, d)
	for _, e := range d.live() {
		if e.sub != nil {
			p := e.name
			if path != "" {
				p = path + "/" + e.name
			}
			e.sub.walk(p, f)
		}
	}
}

func comparePro(t *T, path string, descs []types.Descriptor, d *pDir) {
	live := d.live()
	if len(descs) != len(live) {
		var n []string
		for _, x := range descs {
			n = append(n, x.Name)
		}
		t.Fail("directory %q lists %d entries (%q), want %d", path, len(descs), n, len(live))
	}
	for i, e := range live {
		x := descs[i]
		if x.Name != e.name || x.Type != types.Filetype(e.ftype) || x.Length != e.eof || x.Blocks != int(e.used) {
			t.Fail("directory %q entry %d is listed as name=%q type=%02X length=%d blocks=%d, want %q %02X %d %d", path, i, x.Name, byte(x.Type), x.Length, x.Blocks, e.name, e.ftype, e.eof, e.used)
		}
	}
}

// proList lists every directory of the tree and some paths that do not exist.
func proList(t *T, img []byte, root *pDir) {
	op, err := prodos.OperatorFactory{}.Operator(img, t.debug())
	t.noErr(err, "opening")
	proListOp(t, op, root)
}

func proListOp(t *T, op types.Operator, root *pDir) {
	dirs := map[string]bool{}
	files := []string{}
	total, at := 0, 0
	root.walk("", func(string, *pDir) { total++ })
	root.walk("", func(path string, d *pDir) {
		at++
		dirs[path] = true
		if total > 200 && len(d.entries) == 1 && at > 5 && at < total-3 && at%(total/30) != 0 {
			return // each listing reads the whole volume: of very many small directories, some are listed
		}
		descs, err := op.Catalog(path)
		t.Step()
		t.noErr(err, "listing %q", path)
		comparePro(t, path, descs, d)
		for _, e := range d.entries {
			p := e.name
			if path != "" {
				p = path + "/" + e.name
			}
			if e.sub == nil && e.name != "" {
				files = append(files, p)
			}
		}
	})
	missing := []string{"NOSUCH", "NOSUCH/SUB", root.name + ".X"}
	for i, f := range files {
		if i < 3 {
			missing = append(missing, f)
		}
	}
	var paths []string
	for p := range dirs {
		if p != "" {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for n := 0; n < 3 && n < len(paths); n++ {
		p := paths[(n*7+len(paths)/2)%len(paths)]
		missing = append(missing, p+"/NOSUCH", "NOSUCH/"+p, p+"/", "/"+p, p+" ", p[:len(p)-1], p+"X", strings.ToLower(p), root.name+"/"+p, "/"+root.name+"/"+p, strings.Replace(p, "/", "//", 1), strings.Replace(p, "/", ".", 1))
		if i := strings.LastIndex(p, "/"); i >= 0 {
			missing = append(missing, p[i+1:])
		}
	}
	for _, m := range missing {
		if dirs[m] || m == "" {
			continue
		}
		descs, err := op.Catalog(m)
		t.Step()
		if err == nil {
			t.Fail("listing %q, which does not exist, returned %d entries", m, len(descs))
		}
	}
}

// proAlloc hands out blocks.
type proAlloc struct {
	n, next, kind int
}

func (a *proAlloc) take(k int) []int {
	var out []int
	for i := 0; i < k; i++ {
		b := 0
		switch a.kind {
		case 0:
			b = 30 + a.next
		case 1:
			b = a.n - 1 - a.next
		default:
			m := a.n - 30
			step := 37
			for gcd(step, m) != 1 {
				step++
			}
			b = 30 + (a.next*step+5)%m
		}
		a.next++
		out = append(out, b)
	}
	return out
}

func rootDir(a *proAlloc, nblocks int) *pDir {
	d := &pDir{name: "VOLUME", blocks: []int{2}, entries: map[int]*pEntry{}}
	for i := 1; i < nblocks; i++ {
		if i < 4 && a.kind != 2 {
			d.blocks = append(d.blocks, 2+i)
		} else {
			d.blocks = append(d.blocks, a.take(1)...)
		}
	}
	return d
}

func slots(nblocks int) int { return 13*nblocks - 1 }

func fileEntry(k int) *pEntry {
	return &pEntry{storage: byte(1 + k%3), name: fmt.Sprintf("FILE.%d", k), ftype: byte(k*7 + 4), used: uint16(k*31 + 1), eof: k*12345 + 1, key: uint16(100 + k%100)}
}

func deadEntry(k int) *pEntry { e := fileEntry(k); e.storage = 0; return e }

func subEntry(name string, d *pDir) *pEntry {
	d.name = name
	return &pEntry{storage: 0xD, name: name, ftype: 0x0F, used: uint16(len(d.blocks)), eof: 512 * len(d.blocks), sub: d}
}

func c11(c *Ctx) {
	c.Section("slot patterns", "every set of live slots in the key block (2^12) and in a later block (2^13), others empty, full or alternating, for the volume directory and for a subdirectory")
	for where := 0; where < 3; where++ {
		for sub := 0; sub < 2; sub++ {
			for other := 0; other < 3; other++ {
				for part := 0; part < 8; part++ {
					c.Case(func(t *T) {
						bits := 13
						first := where*13 - 1
						if where == 0 {
							bits, first = 12, 0
						}
						a := &proAlloc{n: 64, kind: other}
						root := rootDir(a, 3)
						d := root
						if sub == 1 {
							root.entries[5] = subEntry("SUB", &pDir{blocks: a.take(3), entries: map[int]*pEntry{}})
							d = root.entries[5].sub
						}
						base := map[int]*pEntry{}
						for k := 0; k < slots(3); k++ {
							if other == 1 || other == 2 && k%2 == 0 {
								base[k] = fileEntry(k)
							} else if k%3 == 0 {
								base[k] = deadEntry(k)
							}
						}
						for mask := part; mask < 1<<bits; mask += 8 {
							for k, e := range base {
								d.entries[k] = e
							}
							for j := 0; j < bits; j++ {
								k := first + j
								switch {
								case mask>>j&1 != 0:
									d.entries[k] = fileEntry(k)
								case (k+mask)%2 == 0:
									d.entries[k] = deadEntry(k)
								default:
									delete(d.entries, k)
								}
							}
							if sub == 0 {
								root = d
							}
							img := proImage(64, root)
							proList(t, img, root)
							t.State(hashInt(hashInt(uint64(where*10+sub), mask), other))
						}
						t.Outcome("patterns")
					}, "block %d, subdirectory %d, others %d, part %d", where, sub, other, part)
				}
			}
		}
	}

	c.Section("directory sizes", "volume directories and subdirectories of every number of blocks 1-60 (thorough 200), full or sparse, three block arrangements")
	for n := 1; n <= Pick(c, 60, 200); n++ {
		for kind := 0; kind < 3; kind++ {
			c.Case(func(t *T) {
				for fill := 0; fill < 3; fill++ {
					for sub := 0; sub < 2; sub++ {
						a := &proAlloc{n: 1000, kind: kind}
						var root, d *pDir
						if sub == 0 {
							root = rootDir(a, n)
							d = root
						} else {
							root = rootDir(a, 4)
							root.entries[20] = subEntry("SUB", &pDir{blocks: a.take(n), entries: map[int]*pEntry{}})
							d = root.entries[20].sub
						}
						for k := 0; k < slots(n); k++ {
							switch fill {
							case 0:
								d.entries[k] = fileEntry(k)
							case 1:
								if k%13 == 12 || k%13 == 11 || k == slots(n)-1 {
									d.entries[k] = fileEntry(k)
								} else {
									d.entries[k] = deadEntry(k)
								}
							}
						}
						proList(t, proImage(1000, root), root)
						t.State(hashInt(hashInt(40, n), kind*10+fill*2+sub))
					}
				}
				t.Outcome("sizes")
			}, "%d blocks, arrangement %d", n, kind)
		}
	}

	c.Section("subdirectory places", "a subdirectory entry in every slot of a 1-5 block volume directory, its header referring to every block of the parent, with 1-3 blocks of its own")
	for nb := 1; nb <= 5; nb++ {
		for slot := 0; slot < slots(nb); slot++ {
			c.Case(func(t *T) {
				for ref := -1; ref < nb; ref++ {
					for own := 1; own <= 3; own++ {
						for kind := 0; kind < 3; kind++ {
							a := &proAlloc{n: 280, kind: kind}
							root := rootDir(a, nb)
							sub := &pDir{blocks: a.take(own), entries: map[int]*pEntry{}}
							if ref < 0 {
								sub.parentExact = true
							} else {
								sub.parentIdx = ref
							}
							for k := 0; k < slots(nb); k += 3 {
								root.entries[k] = fileEntry(k)
							}
							root.entries[slot] = subEntry("SUB.DIR", sub)
							for k := 0; k < slots(own); k++ {
								if k%2 == own%2 {
									sub.entries[k] = fileEntry(k + 50)
								}
							}
							proList(t, proImage(280, root), root)
							t.State(hashInt(hashInt(41, nb*100+slot), ref*100+own*10+kind))
						}
					}
				}
				t.Outcome("places")
			}, "%d blocks, slot %d", nb, slot)
		}
	}

	c.Section("nested places", "a subdirectory in every slot of a 3-block subdirectory in every slot of a 3-block volume directory (quick: 7 slots each), all combinations of parent references")
	ks := []int{0, 5, 11, 12, 24, 25, 37}
	if c.Thorough() {
		ks = seq(0, slots(3))
	}
	for _, s1 := range ks {
		for _, s2 := range ks {
			c.Case(func(t *T) {
				for r1 := -1; r1 < 3; r1++ {
					for r2 := -1; r2 < 3; r2++ {
						for kind := 0; kind < 3; kind++ {
							a := &proAlloc{n: 280, kind: kind}
							root := rootDir(a, 3)
							mid := &pDir{blocks: a.take(3), entries: map[int]*pEntry{}, parentExact: r1 < 0}
							low := &pDir{blocks: a.take(2), entries: map[int]*pEntry{0: fileEntry(1), 14: fileEntry(2)}, parentExact: r2 < 0}
							if r1 > 0 {
								mid.parentIdx = r1
							}
							if r2 > 0 {
								low.parentIdx = r2
							}
							root.entries[s1] = subEntry("MID", mid)
							mid.entries[s2] = subEntry("LOW", low)
							// a sibling with the same inner name, and a file of that name
							o := (s1 + 1) % slots(3)
							sib := &pDir{blocks: a.take(1), entries: map[int]*pEntry{}}
							root.entries[o] = subEntry("SIB", sib)
							sib.entries[3] = subEntry("LOW", &pDir{blocks: a.take(1), entries: map[int]*pEntry{7: fileEntry(9)}})
							proList(t, proImage(280, root), root)
							t.State(hashInt(hashInt(42, s1*100+s2), (r1+1)*100+(r2+1)*10+kind))
						}
					}
				}
				t.Outcome("nested")
			}, "slots %d and %d", s1, s2)
		}
	}

	c.Section("depth and breadth", "chains of 1-32 nested subdirectories with short, equal and full-length names; full trees of depth up to 3 and breadth up to 5 with repeated names; a full 4-block directory of subdirectories; 100-5000 subdirectories in the volume directory, in a subdirectory and in groups")
	for depth := 1; depth <= 32; depth++ {
		c.Case(func(t *T) {
			for kind := 0; kind < 3; kind++ {
				for style := 0; style < 3; style++ {
					a := &proAlloc{n: 280, kind: kind}
					root := rootDir(a, 4)
					d := root
					for i := 0; i < depth; i++ {
						n := &pDir{blocks: a.take(1 + i%3), entries: map[int]*pEntry{2: fileEntry(i)}, parentExact: style == 1}
						name := string(rune('A' + i%26))
						switch style {
						case 1:
							name = "S"
						case 2:
							name = fmt.Sprintf("NAME.OF.15.%c%03d", 'A'+i%26, i)
						}
						d.entries[(i*7)%slots(len(d.blocks))] = subEntry(name, n)
						d = n
					}
					proList(t, proImage(280, root), root)
					t.State(hashInt(hashInt(43, depth), kind*3+style))
				}
			}
			t.Outcome("depth")
		}, "depth %d", depth)
	}
	for depth := 1; depth <= 3; depth++ {
		for width := 1; width <= 5; width++ {
			c.Case(func(t *T) {
				for kind := 0; kind < 3; kind++ {
					a := &proAlloc{n: 800, kind: kind}
					root := rootDir(a, 4)
					var grow func(d *pDir, k int)
					grow = func(d *pDir, k int) {
						if k == 0 {
							return
						}
						for w := 0; w < width; w++ {
							n := &pDir{blocks: a.take(1 + w%2), entries: map[int]*pEntry{11: fileEntry(w)}, parentExact: w%2 == 0}
							d.entries[w*2] = subEntry(fmt.Sprintf("D%d", w), n)
							grow(n, k-1)
						}
					}
					grow(root, depth)
					proList(t, proImage(800, root), root)
					t.State(hashInt(hashInt(44, depth), width*10+kind))
				}
				t.Outcome("trees")
			}, "depth %d, %d subdirectories each", depth, width)
		}
	}
	c.Case(func(t *T) {
		for kind := 0; kind < 3; kind++ {
			a := &proAlloc{n: 280, kind: kind}
			root := rootDir(a, 4)
			for k := 0; k < slots(4); k++ {
				root.entries[k] = subEntry(fmt.Sprintf("DIR%d", k), &pDir{blocks: a.take(1), parentExact: k%2 == 0, entries: map[int]*pEntry{k % 12: fileEntry(k)}})
			}
			proList(t, proImage(280, root), root)
		}
		t.Outcome("51 subdirectories")
	}, "51 subdirectories")
	for _, n := range []int{100, 127, 128, 129, 255, 256, 257, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2049, 5000} {
		c.Case(func(t *T) {
			for kind := 0; kind < 3; kind++ {
				for below := 0; below < 3; below++ {
					blocks := 2048
					switch {
					case n > 3000:
						blocks = 65535
					case n > 600:
						blocks = 8192
					}
					a := &proAlloc{n: blocks, kind: kind}
					root := rootDir(a, 4)
					d := root
					switch below {
					case 0: // in the volume directory
						d = rootDir(a, n/13+2)
						root = d
					case 1: // in a subdirectory
						d = &pDir{blocks: a.take(n/13 + 2), parentExact: true, entries: map[int]*pEntry{}}
						root.entries[4] = subEntry("WIDE", d)
					}
					for k := 0; k < n; k++ {
						s := &pDir{blocks: a.take(1), parentExact: k%2 == 0, entries: map[int]*pEntry{k % 12: fileEntry(k % 1000)}}
						if below == 2 { // 40 to a subdirectory
							if k%40 == 0 {
								d = &pDir{blocks: a.take(4), entries: map[int]*pEntry{}}
								if k/40 < 50 {
									root.entries[k/40] = subEntry(fmt.Sprintf("G%d", k/40), d)
								} else {
									break
								}
							}
							d.entries[k%40] = subEntry(fmt.Sprintf("DIR%d", k), s)
							continue
						}
						d.entries[k] = subEntry(fmt.Sprintf("DIR%d", k), s)
					}
					proList(t, proImage(blocks, root), root)
					t.State(hashInt(hashInt(45, n), kind*3+below))
				}
			}
			t.Outcome("many subdirectories")
		}, "%d subdirectories", n)
	}

	c.Section("fields", "every file type; every block count; every value of each length byte; name lengths 1-15 with every allowed character in every position; storage types 1-3")
	for v := 0; v < 256; v++ {
		c.Case(func(t *T) {
			root := rootDir(&proAlloc{n: 64}, 2)
			sub := &pDir{blocks: []int{40}, entries: map[int]*pEntry{}}
			for k := 0; k < 8; k++ {
				root.entries[k] = fileEntry(k)
				sub.entries[k] = fileEntry(k + 20)
			}
			root.entries[13] = subEntry("SUB", sub)
			for _, d := range []*pDir{root, sub} {
				d.entries[0].ftype = byte(v)
				d.entries[1].eof = v
				d.entries[2].eof = v << 8
				d.entries[3].eof = v << 16
				d.entries[4].eof = 0xffffff &^ (v << 8)
				d.entries[5].used = uint16(v)
				d.entries[6].used = uint16(v << 8)
				d.entries[7].storage = byte(1 + v%3)
			}
			proList(t, proImage(64, root), root)
			for lo := 0; lo < 256; lo++ {
				root.entries[5].used = uint16(v<<8 | lo)
				root.entries[6].eof = v<<16 | lo<<8 | v ^ lo
				proList(t, proImage(64, root), root)
			}
			t.State(hashInt(45, v))
			t.Outcome("fields")
		}, "value %02X", v)
	}
	const proChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789."
	for n := 1; n <= 15; n++ {
		c.Case(func(t *T) {
			for pos := 0; pos < n; pos++ {
				for _, ch := range proChars {
					if pos == 0 && (ch < 'A' || ch > 'Z') {
						continue
					}
					b := []byte(strings.Repeat("N", n))
					b[pos] = byte(ch)
					root := rootDir(&proAlloc{n: 64}, 1)
					e := fileEntry(3)
					e.name = string(b)
					root.entries[2] = e
					root.entries[5] = subEntry(string(b), &pDir{blocks: []int{33}, entries: map[int]*pEntry{1: fileEntry(1)}})
					root.entries[2].name = "Q" + string(b)[1:]
					if root.entries[2].name == string(b) {
						root.entries[2].name = "P" + string(b)[1:]
					}
					proList(t, proImage(64, root), root)
					t.State(hashString(46, string(b)))
				}
			}
			t.Outcome("names")
		}, "names of %d characters", n)
	}

	c.Section("devices", "hard-disk images of 26 sizes up to 65535 blocks with directories at both ends, floppies in both orders, opened through the tool")
	sizes := []int{7, 8, 64, 279, 280, 281, 800, 1600, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 20480, 32767, 32768, 32769, 40960, 61439, 61440, 61441, 65534, 65535}
	for _, n := range sizes {
		c.Case(func(t *T) {
			root := &pDir{name: "HD", blocks: []int{2, 3, 4, 5}, entries: map[int]*pEntry{0: fileEntry(0), 50: fileEntry(50)}}
			if n < 30 {
				root.blocks = []int{2}
				root.entries = map[int]*pEntry{0: fileEntry(0), 11: fileEntry(11)}
			} else {
				last := n - 1
				root.entries[30] = subEntry("HIGH", &pDir{blocks: []int{last, last - 1, n / 2}, parentExact: true, entries: map[int]*pEntry{0: fileEntry(3), 20: fileEntry(4), 37: fileEntry(5)}})
				root.entries[30].sub.entries[25] = subEntry("LOW", &pDir{blocks: []int{25}, parentExact: true, entries: map[int]*pEntry{6: fileEntry(6)}})
			}
			img := proImage(n, root)
			keep := hashBytes(1, img)
			op, order, err := disk.OpenImage(img, "x.hdv", "auto", "auto", factories(), t.debug())
			if n == 280 {
				t.Outcome("floppy-sized hdv not specified")
				return
			}
			t.noErr(err, "opening a device of %d blocks", n)
			if op.Name() != "prodos" {
				t.Fail("device opened as %s (%s)", op.Name(), order)
			}
			proListOp(t, op, root)
			if hashBytes(1, op.GetBytes()) != keep {
				t.Fail("listing changed the image")
			}
			t.State(hashInt(47, n))
			t.Outcome("device")
		}, "%d blocks", n)
	}
	c.Section("every block", "each block 30-65534 of the largest device as the key, the second or the only block of a subdirectory with another below it and a third in the block beside it, and as the volume directory's second block")
	var big []byte // per worker
	for lo := 30; lo < 65535; lo += 256 {
		c.Case(func(t *T) {
			if big == nil {
				big = make([]byte, 65535*512)
			}
			for b := lo; b < lo+256 && b < 65535; b++ {
				// Other directories lie a bit or so away.
				other := 20 + b%5
				switch {
				case b > 300 && b%3 == 1:
					other = b - 256
				case b > 300 && b%3 == 2:
					other = b ^ 1
				case b > 300 && b%6 == 3:
					other = b ^ 1<<(b/6%16)
				}
				if other < 29 && b > 300 || other < 20 || other >= 65535 || other == b {
					other = 20 + b%5
				}
				near := b ^ 1
				if near == other || near >= 65535 || near < 30 {
					near = 29
				}
				low := &pDir{blocks: []int{25}, parentExact: b%3 == 0, parentIdx: b % 2, entries: map[int]*pEntry{6: fileEntry(6)}}
				sub := &pDir{blocks: []int{b, other}, parentExact: true, entries: map[int]*pEntry{0: fileEntry(b % 1000), 14: subEntry("LOW", low)}}
				if b%4 >= 2 {
					sub.blocks = []int{other, b}
				}
				root := &pDir{name: "HD", blocks: []int{2, 3}, entries: map[int]*pEntry{0: fileEntry(0), 13: subEntry("SUB", sub), 20: fileEntry(5), 21: subEntry("NEAR", &pDir{blocks: []int{near}, parentExact: true, entries: map[int]*pEntry{1: fileEntry(3)}})}}
				vol := &pDir{name: "HD", blocks: []int{2, b}, entries: map[int]*pEntry{0: fileEntry(0), 20: fileEntry(b % 1000)}}
				vol.entries[13+b%6] = subEntry("SUB", &pDir{blocks: []int{27}, parentExact: true, entries: map[int]*pEntry{3: fileEntry(9), 4: subEntry("LOW", &pDir{blocks: []int{28}, parentExact: true, entries: map[int]*pEntry{}})}})
				for _, d := range []*pDir{root, vol} {
					proDir(big, d, nil, 0, 0)
					proList(t, big, d)
				}
				for _, z := range []int{b, other, near} {
					clear(big[z*512 : z*512+512])
				}
				t.State(hashInt(49, b))
			}
			t.Outcome("block")
		}, "blocks from %d", lo)
	}
	for _, order := range []types.DiskOrder{"do", "po"} {
		for kind := 0; kind < 3; kind++ {
			for nb := 1; nb <= 6; nb++ {
				c.Case(func(t *T) {
					a := &proAlloc{n: 280, kind: kind}
					root := rootDir(a, nb)
					for k := 0; k < slots(nb); k += 2 {
						root.entries[k] = fileEntry(k)
					}
					for s := 1; s < slots(nb); s += 4 {
						root.entries[s] = subEntry(fmt.Sprintf("SUB%d", s), &pDir{blocks: a.take(2), entries: map[int]*pEntry{3: fileEntry(s), 15: fileEntry(s + 1)}})
					}
					img := proImage(280, root)
					for _, ext := range []string{"." + string(order), ".dsk", ""} {
						o := order
						if ext == "."+string(order) {
							o = "auto"
						}
						op, _, err := disk.OpenImage(oracleConvert(img, "po", order), "x"+ext, o, "prodos", factories(), t.debug())
						t.noErr(err, "opening x%s", ext)
						proListOp(t, op, root)
					}
					t.State(hashInt(hashString(48, string(order)), kind*10+nb))
					t.Outcome("floppy")
				}, "%s, arrangement %d, %d blocks", order, kind, nb)
			}
		}
	}
}
