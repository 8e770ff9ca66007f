package main

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/prodos"
)

func init() {
	props["C15"] = prop{run: c15, level: "model_checking", assum: []string{
		"does not finish: more than 20 s of processor time or 1.5 GB of memory in one call, on calls that take milliseconds",
		"damage is exhaustive for one byte, for one pointer, and for the eight pointers of a two-subdirectory volume over seven targets each; other bytes keep their values",
	}}
}

// proExercise runs everything the tool can do with a ProDOS image.
func proExercise(t *T, img []byte, paths []string) {
	before := hashBytes(1, img)
	of := prodos.OperatorFactory{}
	m1 := of.SeemsToMatch(img, t.debug())
	op, err := of.Operator(img, t.debug())
	t.Steps(2)
	if err != nil {
		t.outcome = "refused"
		return
	}
	descs, err := op.Catalog("")
	descs2, err2 := op.Catalog("")
	t.Steps(2)
	if (err == nil) != (err2 == nil) || len(descs) != len(descs2) {
		t.Fail("listing twice gave different answers: %d entries, %v; then %d entries, %v", len(descs), err, len(descs2), err2)
	}
	for i := range descs {
		if descs[i] != descs2[i] {
			t.Fail("listing twice gave different entries: %v, then %v", descs[i], descs2[i])
		}
	}
	if err == nil {
		t.outcome = "listed"
	} else {
		t.outcome = "refused"
	}
	for i, d := range descs {
		if i < 4 {
			paths = append(paths[:len(paths):len(paths)], d.Name)
		}
	}
	for _, p := range paths {
		a, e1 := op.Catalog(p)
		b, e2 := op.Catalog(p)
		t.Steps(2)
		if (e1 == nil) != (e2 == nil) || len(a) != len(b) {
			t.Fail("listing %q twice gave different answers: %d entries, %v; then %d entries, %v", p, len(a), e1, len(b), e2)
		}
		for i := range a {
			if a[i] != b[i] {
				t.Fail("listing %q twice gave different entries: %v, then %v", p, a[i], b[i])
			}
		}
	}
	if of.SeemsToMatch(img, t.debug()) != m1 {
		t.Fail("detection gave two answers")
	}
	if hashBytes(1, img) != before {
		t.Fail("the image was modified")
	}
}

func proOpen(t *T, img []byte, name string) {
	before := hashBytes(1, img)
	for _, sys := range []string{"auto", "prodos"} {
		if op, _, err := disk.OpenImage(img, name, "auto", sys, factories(), t.debug()); err == nil {
			_, _ = op.Catalog("")
			_, _ = op.Catalog("A")
			_, _ = op.Catalog("A/B")
			t.Steps(3)
		}
		t.Step()
	}
	if hashBytes(1, img) != before {
		t.Fail("the image was modified")
	}
}

var proPaths = []string{"A", "A/B", "B", "A/A", "A/B/B"}

// proSmall is a 16-block volume: two directory blocks, subdirectory A (two
// blocks) with subdirectory B (two blocks).
func proSmall() []byte {
	b := &pDir{blocks: []int{10, 11}, entries: map[int]*pEntry{1: fileEntry(1), 15: fileEntry(2)}, parentExact: true}
	a := &pDir{blocks: []int{8, 9}, entries: map[int]*pEntry{0: fileEntry(3), 20: fileEntry(4)}}
	root := &pDir{name: "V", blocks: []int{2, 3}, entries: map[int]*pEntry{0: fileEntry(5), 1: deadEntry(6), 18: fileEntry(7)}}
	root.entries[2] = subEntry("A", a)
	a.entries[13] = subEntry("B", b)
	return proImage(16, root)
}

func le16(img []byte, off int, v int) { binary.LittleEndian.PutUint16(img[off:], uint16(v)) }

// where the pointers of proSmall lie
var proPtrs = []struct {
	what string
	off  int
}{
	{"volume key block next", 2*512 + 2},
	{"volume second block next", 3*512 + 2},
	{"A's key pointer", 2*512 + 4 + 39*3 + 0x11},
	{"A's parent pointer", 8*512 + 4 + 0x23},
	{"A's next", 8*512 + 2},
	{"B's key pointer", 9*512 + 4 + 39*1 + 0x11},
	{"B's parent pointer", 10*512 + 4 + 0x23},
	{"B's next", 10*512 + 2},
	{"A's second next", 9*512 + 2},
	{"B's second next", 11*512 + 2},
	{"bitmap pointer", 2*512 + 4 + 0x23},
	{"A's previous", 8*512 + 0},
	{"volume previous", 2*512 + 0},
	{"A's header pointer", 2*512 + 4 + 39*3 + 0x25},
	{"A's parent entry", 8*512 + 4 + 0x25},
}

func c15(c *Ctx) {
	targets := []int{0, 2, 3, 8, 9, 10, 16}
	c.Section("pointer graph", "every assignment of eight directory pointers (next, key and parent pointers of the volume directory and two subdirectories) over seven targets: end, each directory block, out of range (quick: seven pointers)")
	for x := 0; x < 7*7*7; x++ {
		c.Case(func(t *T) {
			img := proSmall()
			for i, v := 0, x; i < 3; i, v = i+1, v/7 {
				le16(img, proPtrs[i].off, targets[v%7])
			}
			n := Pick(c, 7*7*7*7, 7*7*7*7*7)
			for y := 0; y < n; y++ {
				for i, v := 3, y; i < 8; i, v = i+1, v/7 {
					if i == 7 && !c.Thorough() {
						break
					}
					le16(img, proPtrs[i].off, targets[v%7])
				}
				proExercise(t, img, proPaths[:2])
				t.State(hashInt(hashInt(1, x), y))
			}
		}, "first three pointers %d", x)
	}
	c.Section("one pointer", "each of fifteen pointers set to every 16-bit value, on a 16-block device and a floppy")
	for pi, p := range proPtrs {
		for hi := 0; hi < 256; hi += 8 {
			c.Case(func(t *T) {
				img := proSmall()
				var flop []byte
				for v := hi << 8; v < (hi+8)<<8; v++ {
					le16(img, p.off, v)
					proExercise(t, img, proPaths)
					if v < 400 {
						if flop == nil {
							flop = append(proSmall(), stamped(5)[16*512:]...)
						}
						le16(flop, p.off, v)
						proExercise(t, flop, proPaths)
						proOpen(t, flop, "x.po")
					}
					if v%64 == 0 {
						proOpen(t, img, "x.hdv")
					}
				}
				t.State(hashInt(hashInt(2, pi), hi))
			}, "%s %02Xxx", p.what, hi)
		}
	}
	c.Section("structure bytes", "every value of every byte of the volume and subdirectory blocks")
	for _, blk := range []int{2, 3, 8, 9, 10, 11} {
		for off := 0; off < 512; off++ {
			c.Case(func(t *T) {
				img := proSmall()
				o := blk*512 + off
				for v := 0; v < 256; v++ {
					img[o] = byte(v)
					proExercise(t, img, proPaths)
					t.State(hashInt(hashInt(3, o), v))
				}
				if off%16 == 0 {
					proOpen(t, img, "x.hdv")
				}
			}, "block %d byte %03X", blk, off)
		}
	}
	c.Section("entries pointing anywhere", "every pair of entries of a directory made subdirectories with key pointers to every pair of blocks of the volume")
	for k1 := 0; k1 < 16; k1++ {
		for k2 := 0; k2 < 17; k2++ {
			c.Case(func(t *T) {
				for _, blk := range []int{2, 3, 8, 9} {
					for s1 := 0; s1 < 13; s1++ {
						for s2 := 0; s2 < 13; s2++ {
							if (blk == 2 || blk == 8) && (s1 == 0 || s2 == 0) || s1 == s2 {
								continue
							}
							img := proSmall()
							for i, s := range []int{s1, s2} {
								o := blk*512 + 4 + 39*s
								img[o] = 0xD1
								img[o+1] = byte('C' + i)
								le16(img, o+0x11, []int{k1, k2}[i])
							}
							proExercise(t, img, []string{"C", "D", "A"})
						}
					}
				}
				t.State(hashInt(hashInt(4, k1), k2))
			}, "key pointers %d and %d", k1, k2)
		}
	}
	c.Section("paths", "every path of up to four characters over A B / . and blank, and odd long ones")
	for i := 0; i < 5; i++ {
		c.Case(func(t *T) {
			img := proSmall()
			op, err := prodos.OperatorFactory{}.Operator(img, t.debug())
			t.noErr(err, "opening")
			const alpha = "AB/. "
			var rec func(s string)
			rec = func(s string) {
				_, e1 := op.Catalog(s)
				_, e2 := op.Catalog(s)
				t.Steps(2)
				if (e1 == nil) != (e2 == nil) {
					t.Fail("listing %q twice gave %v, then %v", s, e1, e2)
				}
				t.State(hashString(5, s))
				if len(s) < Pick(c, 4, 6) {
					for _, ch := range alpha {
						rec(s + string(ch))
					}
				}
			}
			rec(alpha[i : i+1])
			for _, p := range []string{strings.Repeat("A/", 100000), strings.Repeat("X", 1<<20), "\x00", "\xff\xfe", "A\x00", "../..", "*", "%s"} {
				_, _ = op.Catalog(p)
				t.Step()
			}
			t.Outcome("paths")
		}, "paths starting %d", i)
	}
	c.Section("sizes", "images of every length 0-4000 bytes and every block count 0-20 ±1 byte, as device and by name")
	for lo := 0; lo <= 4000; lo += 25 {
		c.Case(func(t *T) {
			full := proSmall()
			for n := lo; n < lo+25 && n <= len(full); n++ {
				img := clone(full[:n])
				proExercise(t, img, proPaths)
				proOpen(t, img, "x.hdv")
				proOpen(t, img, "x.po")
				t.State(hashInt(6, n))
			}
		}, "%d bytes", lo)
	}
	c.Case(func(t *T) {
		for b := 0; b <= 20; b++ {
			for d := -1; d <= 1; d++ {
				n := b*512 + d
				if n < 0 {
					continue
				}
				img := make([]byte, n)
				copy(img, proSmall())
				proExercise(t, img, proPaths)
				proOpen(t, img, "x.hdv")
			}
		}
	}, "block counts")
	c.Section("whole disks", "devices filled with each byte value; every block a directory block linking k blocks on, with every entry a subdirectory, for every k; floppies likewise")
	for v := 0; v < 256; v++ {
		c.Case(func(t *T) {
			for _, n := range []int{16, 280} {
				img := make([]byte, n*512)
				for i := range img {
					img[i] = byte(v)
				}
				proExercise(t, img, proPaths)
				le16(img, 2*512+2, 0)
				proExercise(t, img, proPaths)
				name := "x.hdv"
				if n == 280 {
					name = "x.po"
				}
				proOpen(t, img, name)
			}
			proExercise(t, stamped(v), proPaths)
			t.State(hashInt(7, v))
		}, "fill %02X", v)
	}
	for k := 1; k < 280; k++ {
		c.Case(func(t *T) {
			for style := 0; style < 4; style++ {
				img := make([]byte, 280*512)
				for b := 0; b < 280; b++ {
					o := b * 512
					if style < 2 {
						le16(img, o+2, (b+k)%280)
					}
					for s := 0; s < 13; s++ {
						e := o + 4 + 39*s
						img[e] = 0xD1
						img[e+1] = byte('A' + s)
						switch style {
						case 0, 2:
							le16(img, e+0x11, (b*k+s+1)%280)
						default:
							le16(img, e+0x11, (b+k)%280)
							if s > 0 {
								img[e] = 0x11
							}
						}
					}
					if style == 3 {
						le16(img, o+4+0x23, (b+280-k)%280)
						img[o+4+39] = 0xD1
						le16(img, o+4+39+0x11, (b+k)%280)
					}
				}
				le16(img, 2*512+4+0x23, 6)
				proExercise(t, img, proPaths)
				proOpen(t, img, "x.po")
				t.State(hashInt(hashInt(8, k), style))
			}
		}, "stride %d", k)
	}
	c.Section("nesting", "chains of 1-400 nested subdirectories, with sound parent pointers, with a parent cycle of every length up to 40, and with every block's parent the next")
	for d := 1; d <= 400; d++ {
		c.Case(func(t *T) {
			mk := func(parent func(i int) int) []byte {
				img := make([]byte, 512*(d+12))
				root := 2 * 512
				img[root+4] = 0xF1
				img[root+5] = 'V'
				le16(img, root+4+0x23, 6)
				prev := 2
				for i := 0; i < d; i++ {
					b := 10 + i
					e := prev*512 + 4 + 39
					img[e], img[e+1] = 0xD1, 'A'
					le16(img, e+0x11, b)
					h := b*512 + 4
					img[h], img[h+1] = 0xE1, 'A'
					le16(img, h+0x23, parent(i))
					prev = b
				}
				return img
			}
			proExercise(t, mk(func(i int) int {
				if i == 0 {
					return 2
				}
				return 9 + i
			}), []string{"A", "A/A", strings.TrimSuffix(strings.Repeat("A/", d), "/")})
			if d <= 40 {
				for cyc := 0; cyc < d; cyc++ {
					proExercise(t, mk(func(i int) int {
						if i == 0 {
							return 10 + cyc
						}
						return 9 + i
					}), []string{"A", "A/A"})
				}
			}
			proExercise(t, mk(func(i int) int { return 10 + (i+1)%d }), []string{"A", "A/A"})
			proExercise(t, mk(func(i int) int { return 10 + i }), []string{"A", "A/A"})
			t.State(hashInt(9, d))
		}, "depth %d", d)
	}
	c.Section("large devices", "65535-block devices: one directory of every block, every block a subdirectory, a chain of nested subdirectories through every block, bitmap pointers at the edges")
	big := func(f func(img []byte, b int)) []byte {
		img := make([]byte, 65535*512)
		for b := 2; b < 65535; b++ {
			f(img, b)
		}
		img[2*512+4], img[2*512+5] = 0xF1, 'V'
		le16(img, 2*512+4+0x23, 6)
		return img
	}
	sub := func(img []byte, e, key int) {
		img[e], img[e+1] = 0xD1, 'A'
		le16(img, e+0x11, key)
	}
	for style := 0; style < 6; style++ {
		c.Case(func(t *T) {
			img := big(func(img []byte, b int) {
				o := b * 512
				n := (b + 1) % 65535
				switch style {
				case 0: // one long directory
					le16(img, o+2, n)
					img[o+4+39], img[o+4+40] = 0x11, 'F'
				case 1: // nested through every block, parents sound
					sub(img, o+4+39, n)
					le16(img, o+4+0x23, b-1)
				case 2: // nested through every block, every parent the volume
					sub(img, o+4+39, n)
					le16(img, o+4+0x23, 2)
				case 3: // a tree: each block the parent of twelve
					for s := 1; s < 13; s++ {
						if k := (b-2)*12 + s + 2; k < 65535 {
							sub(img, o+4+39*s, k)
							le16(img, k*512+4+0x23, b)
						}
					}
				case 4: // long directory of subdirectories back to its start
					le16(img, o+2, n)
					sub(img, o+4+39*3, 3)
				case 5: // nested, parents pointing forward
					sub(img, o+4+39, n)
					le16(img, o+4+0x23, n)
				}
			})
			proExercise(t, img, []string{"A", "A/A/A"})
			for _, bm := range []int{0, 2, 65519, 65520, 65534, 65535} {
				le16(img, 2*512+4+0x23, bm)
				proExercise(t, img, nil)
			}
			t.Outcome(fmt.Sprintf("large device %d", style))
		}, "style %d", style)
	}
	for _, n := range []int{4095, 4096, 4097, 8192, 32768, 65535} {
		c.Case(func(t *T) {
			img := make([]byte, n*512)
			copy(img, proSmall())
			for _, bm := range []int{0, 1, 5, 6, n - 2, n - 1, n, n + 1, 32767, 32768, 65533, 65534, 65535} {
				le16(img, 2*512+4+0x23, bm&0xffff)
				proExercise(t, img, proPaths[:1])
			}
			proOpen(t, img, "x.hdv")
			t.State(hashInt(10, n))
		}, "device of %d blocks", n)
	}
}
