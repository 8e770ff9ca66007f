package main

import (
	"fmt"
	"runtime/debug"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/basic/integer"
)

func init() {
	props["C17"] = prop{run: c17, level: "model_checking", assum: []string{
		"does not finish: more than 20 s of processor time or 1.5 GB of memory in one call, on calls that take microseconds",
		"byte strings longer than three bytes are exhaustive over a structural alphabet and for changes of valid programs, not over all 256 values",
	}}
}

// basTry decodes and lists raw with both decoders; any answer will do.
func basTry(t *T, raw []byte, locs []uint16) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadlineHit); ok {
				panic(r)
			}
			t.Fail("decoding % X: panic: %v\n%s", raw[:min(len(raw), 64)], r, debug.Stack())
		}
	}()
	for _, l := range locs {
		if p, err := applesoft.Decode(raw, l); err == nil {
			_ = p.String()
		}
		t.Step()
	}
	if p, err := integer.Decode(raw); err == nil {
		_ = p.String()
	}
	t.Step()
}

// asProg builds an Applesoft program at an address.
func asProg(loc int, nums []int, lines [][]byte) []byte {
	var out []byte
	for i, l := range lines {
		next := loc + len(out) + 4 + len(l) + 1
		out = append(out, byte(next), byte(next>>8), byte(nums[i]), byte(nums[i]>>8))
		out = append(out, l...)
		out = append(out, 0)
	}
	return append(out, 0, 0)
}

// intProg builds an Integer BASIC program.
func intProg(nums []int, lines [][]byte) []byte {
	var out []byte
	for i, l := range lines {
		out = append(out, byte(len(l)+4), byte(nums[i]), byte(nums[i]>>8))
		out = append(out, l...)
		out = append(out, 1)
	}
	return out
}

func prefixed(p []byte, extra int) []byte {
	n := len(p) + extra
	return append([]byte{byte(n), byte(n >> 8)}, p...)
}

func c17(c *Ctx) {
	locs := []uint16{0, 1, 2, 0x801, 0xffff}
	c.Section("short strings", "every byte string of up to three bytes at five addresses")
	c.Case(func(t *T) { basTry(t, nil, locs); basTry(t, []byte{}, locs) }, "empty")
	for a := 0; a < 256; a++ {
		c.Case(func(t *T) {
			basTry(t, []byte{byte(a)}, locs)
			for b := 0; b < 256; b++ {
				basTry(t, []byte{byte(a), byte(b)}, locs)
				t.State(hashInt(1, a*256+b))
				for d := 0; d < 256; d++ {
					basTry(t, []byte{byte(a), byte(b), byte(d)}, locs)
				}
			}
		}, "strings starting %02X", a)
	}
	alpha := []byte{0, 1, 2, 3, 4, 5, 6, 8, 0x80, 0xB1, 0xff}
	maxLen := Pick(c, 7, 8)
	c.Section("structural strings", fmt.Sprintf("every byte string of 3-%d bytes over %d structural values at three addresses", maxLen, len(alpha)))
	for n := 3; n <= maxLen; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		step := len(alpha) * len(alpha) * len(alpha)
		for g := 0; g < total; g += step {
			c.Case(func(t *T) {
				raw := make([]byte, n)
				for h := g; h < g+step; h++ {
					x := h
					for i := range raw {
						raw[i] = alpha[x%len(alpha)]
						x /= len(alpha)
					}
					basTry(t, raw, locs[:3])
				}
				t.State(hashInt(2, n*100000000+g))
			}, "length %d, strings %d to %d", n, g, g+step-1)
		}
	}
	small := []byte{0, 1, 5, 9, 0x80}
	maxLen = Pick(c, 10, 12)
	c.Section("longer structural strings", fmt.Sprintf("every byte string of 7-%d bytes over 00 01 05 09 80 at address 1", maxLen))
	for n := 7; n <= maxLen; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(small)
		}
		step := 3125
		for g := 0; g < total; g += step {
			c.Case(func(t *T) {
				raw := make([]byte, n)
				for h := g; h < g+step; h++ {
					x := h
					for i := range raw {
						raw[i] = small[x%len(small)]
						x /= len(small)
					}
					basTry(t, raw, locs[1:2])
				}
				t.State(hashInt(3, n*100000000+g))
			}, "length %d, strings %d to %d", n, g, g+step-1)
		}
	}
	c.Section("changed programs", "every single-byte change, truncation and extension of valid programs; every pair of changes of a short one")
	text := [][]byte{{0xBA, '"', 'H', 'I', '"'}, {0xB2, ' ', 'X', 4}, {}, {0xAB, '1', '0'}}
	ints := [][]byte{{0x61, 0x28, 0xC8, 0xC9, 0x29}, {0x5D, 0xA0, 0xC8}, {}, {0x5F, 0xB1, 10, 0}, {0xC1, 0xB5, 0x71, 0xB1, 5, 0}}
	progs := [][]byte{
		asProg(0x801, []int{10, 20, 30, 40}, text), asProg(1, []int{10, 20, 30, 40}, text),
		prefixed(asProg(0x801, []int{10, 20, 30, 40}, text), 0), prefixed(append(asProg(0x801, []int{10, 20, 30, 40}, text), 0xD5), 0),
		intProg([]int{10, 20, 30, 40, 50}, ints), prefixed(intProg([]int{10, 20, 30, 40, 50}, ints), 0),
		prefixed(append(intProg([]int{10, 20, 30, 40, 50}, ints), 0), -1),
	}
	for k, p := range progs {
		for i := range p {
			c.Case(func(t *T) {
				for v := 0; v < 256; v++ {
					q := clone(p)
					q[i] = byte(v)
					basTry(t, q, locs)
					basTry(t, q[:i+1], locs)
					basTry(t, append(q[:i:i], p[min(i+1+v%5, len(p)):]...), locs)
					t.State(hashInt(4, (k*1000+i)*256+v))
				}
				for j := i + 1; j < len(p); j++ {
					for _, v := range []byte{0, 1, 3, 4, 8, 0x80, 0xff} {
						for _, w := range []byte{0, 1, 3, 4, 8, 0x80, 0xff} {
							q := clone(p)
							q[i], q[j] = v, w
							basTry(t, q, locs[1:4])
						}
					}
				}
			}, "program %d byte %d", k, i)
		}
	}
	c.Section("line links", "every assignment of the next-line pointers of four lines over every line start, end, inside, the program's end, before and after it")
	for g := 0; g < 14*14; g++ {
		c.Case(func(t *T) {
			base := asProg(0x801, []int{1, 2, 3, 4}, [][]byte{{'A'}, {'B', 'C'}, {}, {0x80, 'D', 'E'}})
			starts := []int{0, 6, 13, 18}
			targets := []int{0, 0x800, 0x801, 0x802, 0x805, 0x806, 0x807, 0x80d, 0x80e, 0x812, 0x813, 0x801 + len(base) - 2, 0x801 + len(base), 0xffff}
			for h := 0; h < 14*14; h++ {
				q := clone(base)
				for i, x := range []int{g % 14, g / 14, h % 14, h / 14} {
					q[starts[i]], q[starts[i]+1] = byte(targets[x]), byte(targets[x]>>8)
				}
				basTry(t, q, locs[3:4])
				basTry(t, prefixed(q, 0), locs[3:4])
				t.State(hashInt(5, g*200+h))
			}
		}, "graphs %d", g)
	}
	c.Section("one link", "the next-line pointer of each of four lines set to every 16-bit value, at three addresses")
	for hi := 0; hi < 256; hi++ {
		c.Case(func(t *T) {
			for _, loc := range []int{0, 0x801, 0xff00} {
				base := asProg(loc, []int{1, 2, 3, 4}, [][]byte{{'A'}, {'B', 'C'}, {}, {0x80, 'D', 'E'}})
				for _, o := range []int{0, 6, 13, 18} {
					q := clone(base)
					q[o+1] = byte(hi)
					for lo := 0; lo < 256; lo++ {
						q[o] = byte(lo)
						basTry(t, q, []uint16{uint16(loc)})
					}
				}
				t.State(hashInt(6, hi*70000+loc))
			}
		}, "high byte %02X", hi)
	}
	c.Section("large inputs", "inputs of one value or stride up to 200,000 bytes, every fill value")
	for v := 0; v < 256; v++ {
		c.Case(func(t *T) {
			for _, n := range []int{255, 256, 257, 4096, 65535, 65536, 65537, 65538, 65539, 200000} {
				raw := make([]byte, n)
				for i := range raw {
					raw[i] = byte(v)
				}
				basTry(t, raw, locs)
				for i := range raw {
					raw[i] = byte(i * v)
				}
				basTry(t, raw, locs)
				t.State(hashInt(7, v*1000000+n))
			}
		}, "fill %02X", v)
	}
	for k := 1; k <= 64; k++ {
		c.Case(func(t *T) {
			// The longest program there is, in lines of k-1 bytes; and cut short.
			var lines [][]byte
			var nums []int
			for n := 0; n+k+4 < 64000; n += k + 4 {
				lines = append(lines, nkData(k, k-1))
				nums = append(nums, n)
			}
			for _, p := range [][]byte{asProg(0x801, nums, lines), intProg(nums, lines)} {
				basTry(t, p, locs)
				basTry(t, prefixed(p, 0), locs)
				basTry(t, p[:len(p)/2], locs)
			}
			t.State(hashInt(8, k))
		}, "full program of %d-byte lines", k-1)
	}
	c.Section("listing lines", "rendering any decoded line and escaping it: every byte string of up to two bytes and structural ones of up to five as a line of either kind")
	for a := -1; a < 256; a++ {
		c.Case(func(t *T) {
			show := func(b []byte) {
				defer func() {
					if r := recover(); r != nil {
						t.Fail("listing % X: panic: %v\n%s", b, r, debug.Stack())
					}
				}()
				_ = basic.ChevronControlCodes(applesoft.Line{Num: 10, Bytes: b}.String())
				_ = basic.ChevronControlCodes(integer.Line{Num: 10, Bytes: b}.String())
				t.Steps(4)
			}
			if a < 0 {
				show(nil)
				al := []byte{0x28, 0x29, 0x5D, 0xB1, 0xC1, 0x01, 0xff}
				raw := make([]byte, 5)
				for h := 0; h < 7*7*7*7*7; h++ {
					x := h
					for i := range raw {
						raw[i] = al[x%7]
						x /= 7
					}
					for n := 0; n <= 5; n++ {
						show(raw[:n])
					}
				}
				return
			}
			show([]byte{byte(a)})
			for b := 0; b < 256; b++ {
				show([]byte{byte(a), byte(b)})
				t.State(hashInt(9, a*256+b))
			}
		}, "lines starting %02X", a)
	}
}
