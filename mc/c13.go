package main

import (
	"bytes"

	"github.com/zellyn/diskii/prodos"
)

func init() {
	props["C13"] = prop{run: c13, level: "model_checking", assum: []string{
		"bitmaps are explored to all 2^12 mark states of twelve-block windows at the start, across every map-block boundary and at the end; every single mark is compared over the whole written map",
		"bits past the last block are not specified",
	}}
}

// bmWrite writes the bitmap on a device and returns the map's bytes, checking
// that nothing else changed.
func bmWrite(t *T, v prodos.VolumeBitMap, start, n int, dev, scratch []byte) []byte {
	copy(scratch, dev)
	t.noErr(v.Write(scratch), "writing the map of %d blocks at block %d", n, start)
	t.Step()
	k := (n + 4095) / 4096
	lo, hi := start*512, (start+k)*512
	if !bytes.Equal(scratch[:lo], dev[:lo]) || !bytes.Equal(scratch[hi:], dev[hi:]) {
		t.Fail("writing a map of %d blocks at block %d changed bytes outside blocks %d-%d", n, start, start, start+k-1)
	}
	return scratch[lo:hi]
}

// layoutOK compares a written map with the set of used blocks.
func layoutOK(t *T, got []byte, n int, want []byte) {
	full := n / 8
	if !bytes.Equal(got[:full], want[:full]) {
		t.Fail("the written map of %d blocks differs: %s", n, diffAt(got[:full], want[:full]))
	}
	if r := n % 8; r != 0 {
		m := byte(0xff << (8 - r))
		if got[full]&m != want[full]&m {
			t.Fail("the last byte of the written map of %d blocks is %02X, want %02X (mask %02X)", n, got[full], want[full], m)
		}
	}
}

func freeMap(n int) []byte {
	b := make([]byte, (n+4095)/4096*512)
	for i := 0; i < n; i++ {
		b[i>>3] |= 0x80 >> (i & 7)
	}
	return b
}

func c13(c *Ctx) {
	ns := map[int]bool{}
	for n := 0; n <= 300; n++ {
		ns[n] = true
	}
	for k := 4096; k <= 65536; k += 4096 {
		for d := -17; d <= 17; d++ {
			if n := k + d; n <= 65535 {
				ns[n] = true
			}
		}
	}
	c.Section("new maps", "a new map of n blocks reports blocks 0..n-1 free and is written as documented: n to 300 and around every multiple of 4096 (thorough: every n to 65535)")
	dev := bytes.Repeat([]byte{0xa7, 0x11, 0x00, 0xff}, 128*40)
	for n := 0; n < 65536; n++ {
		if !c.Thorough() && !ns[n] {
			continue
		}
		c.Case(func(t *T) {
			v := prodos.NewVolumeBitMap(6, uint16(n))
			t.Step()
			for b := 0; b < n; b++ {
				if !v.IsFree(uint16(b)) {
					t.Fail("a new map of %d blocks reports block %d used", n, b)
				}
			}
			scratch := make([]byte, len(dev))
			if n > 0 {
				layoutOK(t, bmWrite(t, v, 6, n, dev, scratch), n, freeMap(n))
			}
			t.State(hashInt(1, n))
			t.Outcome("new map")
		}, "%d blocks", n)
	}

	c.Section("starts", "the map goes to consecutive blocks from every start block 0-300 and at the end of the largest device; too small a device is an error")
	for start := 0; start <= 300; start++ {
		c.Case(func(t *T) {
			for _, n := range []int{1, 280, 4096, 4097, 9000} {
				k := (n + 4095) / 4096
				d := bytes.Repeat([]byte{0x5c, 0x00, 0xff}, (start+k+3)*512/3+1)[:(start+k+2)*512]
				v := prodos.NewVolumeBitMap(uint16(start), uint16(n))
				v.MarkUsed(0)
				w := freeMap(n)
				w[0] &^= 0x80
				layoutOK(t, bmWrite(t, v, start, n, d, make([]byte, len(d))), n, w)
				for _, short := range []int{(start+k)*512 - 1, (start + k - 1) * 512, 0} {
					if v.Write(make([]byte, short)) == nil {
						t.Fail("writing a map of %d blocks at block %d to a device of %d bytes succeeded", n, start, short)
					}
					t.Step()
				}
			}
			t.State(hashInt(2, start))
			t.Outcome("starts")
		}, "start %d", start)
	}
	c.Case(func(t *T) {
		d := make([]byte, 65536*512)
		for i := range d {
			d[i] = byte(i * 5)
		}
		s := make([]byte, len(d))
		for _, start := range []int{65520, 65519, 32760, 255, 256} {
			v := prodos.NewVolumeBitMap(uint16(start), 65535)
			layoutOK(t, bmWrite(t, v, start, 65535, d, s), 65535, freeMap(65535))
		}
		t.Outcome("big device")
	}, "big device")

	c.Section("single marks", "marking each block of maps of 7 sizes used, then unused: it and no other changes")
	for _, n := range []int{1, 9, 280, 1600, 4096, 4100, 65535} {
		for blk := 0; blk < n; blk += 512 {
			c.Case(func(t *T) {
				v := prodos.NewVolumeBitMap(1, uint16(n))
				want := freeMap(n)
				scratch := make([]byte, len(dev))
				for b := blk; b < blk+512 && b < n; b++ {
					v.MarkUsed(uint16(b))
					want[b>>3] &^= 0x80 >> (b & 7)
					t.Step()
					if v.IsFree(uint16(b)) {
						t.Fail("block %d of %d is free after being marked used", b, n)
					}
					layoutOK(t, bmWrite(t, v, 1, n, dev, scratch), n, want)
					if b%3 != 0 {
						v.MarkUnused(uint16(b))
						want[b>>3] |= 0x80 >> (b & 7)
						t.Step()
						if !v.IsFree(uint16(b)) {
							t.Fail("block %d of %d is used after being marked unused", b, n)
						}
						layoutOK(t, bmWrite(t, v, 1, n, dev, scratch), n, want)
					}
				}
				for b := 0; b < n; b++ {
					if v.IsFree(uint16(b)) != (want[b>>3]>>(7-b&7)&1 != 0) {
						t.Fail("after the marks, block %d of %d reports free=%v", b, n, v.IsFree(uint16(b)))
					}
				}
				t.State(hashInt(hashInt(3, n), blk))
				t.Outcome("marks")
			}, "map of %d, blocks from %d", n, blk)
		}
	}

	c.Section("mark sequences", "every reachable state of a 12-block window under marks (2^12 states, 24 marks from each, compared over the window and its surroundings) at the start, across each map-block boundary and at the end")
	type win struct{ n, at int }
	var wins []win
	for _, n := range []int{12, 13, 280, 8200, 65535} {
		wins = append(wins, win{n, 0})
		if n > 12 {
			wins = append(wins, win{n, n - 12})
		}
		for k := 4096; k+6 <= n; k += 4096 {
			wins = append(wins, win{n, k - 6})
		}
	}
	for _, w := range wins {
		for part := 0; part < 4; part++ {
			c.Case(func(t *T) {
				for m := part; m < 1<<12; m += 4 {
					// reach state m by marks, then apply each mark
					v := prodos.NewVolumeBitMap(6, uint16(w.n))
					for i := 0; i < 12; i++ {
						if m>>i&1 == 0 {
							v.MarkUsed(uint16(w.at + i))
						}
					}
					near := func(want int, what string, x int) {
						for b := w.at - 20; b < w.at+32; b++ {
							if b < 0 || b >= w.n {
								continue
							}
							free := true
							if i := b - w.at; i >= 0 && i < 12 {
								free = want>>i&1 != 0
							}
							if v.IsFree(uint16(b)) != free {
								t.Fail("map of %d, window at %d in state %03X, %s block %d: block %d reports free=%v", w.n, w.at, m, what, w.at+x, b, !free)
							}
						}
					}
					near(m, "before marking", 0)
					for i := 0; i < 12; i++ {
						v.MarkUsed(uint16(w.at + i))
						near(m&^(1<<i), "used", i)
						v.MarkUnused(uint16(w.at + i))
						near(m|1<<i, "unused", i)
						if m>>i&1 == 0 {
							v.MarkUsed(uint16(w.at + i))
						}
					}
					t.Steps(36)
					t.State(hashInt(hashInt(4, w.n*2+w.at), m))
				}
				t.Outcome("windows")
			}, "map of %d, window at %d, part %d", w.n, w.at, part)
		}
	}

	c.Section("index blocks", "every slot × every block number is stored in its two bytes and nothing else changes; all sequences of three stores over four slots and four values")
	for slot := 0; slot < 256; slot++ {
		c.Case(func(t *T) {
			for bg := 0; bg < 3; bg++ {
				var ib, want prodos.IndexBlock
				for i := range ib {
					ib[i] = byte([]int{0, 0xff, i*3 + i/256}[bg])
				}
				want = ib
				for v := 0; v < 65536; v += []int{1, 257, 251}[bg] {
					ib.Set(byte(slot), uint16(v))
					want[slot], want[256+slot] = byte(v), byte(v>>8)
					if ib != want {
						t.Fail("storing %04X in slot %d: %s", v, slot, diffAt(ib[:], want[:]))
					}
					if ib.Get(byte(slot)) != uint16(v) {
						t.Fail("slot %d holds %04X after storing %04X", slot, ib.Get(byte(slot)), v)
					}
				}
				t.Steps(65536)
			}
			t.State(hashInt(5, slot))
			t.Outcome("index")
		}, "slot %d", slot)
	}
	ss, vs := []byte{0, 1, 127, 255}, []uint16{0, 0x00ff, 0xff00, 0x1234}
	for a := 0; a < 16; a++ {
		c.Case(func(t *T) {
			for b := 0; b < 16; b++ {
				for d := 0; d < 16; d++ {
					var ib prodos.IndexBlock
					m := map[byte]uint16{}
					for _, x := range []int{a, b, d} {
						ib.Set(ss[x/4], vs[x%4])
						m[ss[x/4]] = vs[x%4]
						for s := 0; s < 256; s++ {
							if ib.Get(byte(s)) != m[byte(s)] {
								t.Fail("stores %d %d %d: slot %d holds %04X", a, b, d, s, ib.Get(byte(s)))
							}
						}
						t.Step()
					}
					t.State(hashInt(hashInt(6, a), b*16+d))
				}
			}
			t.Outcome("sequences")
		}, "first store %d", a)
	}
}
