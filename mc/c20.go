package main

import (
	"fmt"
	"os"
	"os/exec"

	"github.com/zellyn/diskii/cmd"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C20"] = prop{run: c20, level: "model_checking", assum: []string{
		"the boot model: a 6502 without decimal mode, the Disk II boot ROM's sector read and entry conditions (page 27, sector 3D, track 41, slot 2B), a stepper head moved by phase magnets and WAIT",
		"the ROM uses pages 0, 1 and 3 and the loader page 8; load addresses below 0900 and extensions other than .dsk, .do and .po are not judged",
	}}
}

func orderOf(s string) types.DiskOrder { return types.DiskOrder(s) }

// sdRun runs mksd in process.
func (t *T) sdRun(order, image string, bin []byte, addr, start int) error {
	f, err := os.Open(t.writeFile("in/prog.bin", bin))
	t.noErr(err, "scratch")
	defer f.Close()
	s := cmd.SDCmd{Order: orderOf(order), DiskImage: t.path(image), Binary: f, Address: uint16(addr), Start: uint16(start)}
	t.Step()
	return s.Run(t.globals())
}

// sdBoot boots the image and compares memory and program counter.
func sdBoot(t *T, img []byte, order string, bin []byte, addr, start int) {
	if len(img) != floppy {
		t.Fail("the image has %d bytes", len(img))
	}
	fill := func(a int) byte { return byte(a*7 + a>>8*13 + 1) }
	p, why := boot(img, order, fill)
	t.Step()
	if why != "" {
		t.Fail("the disk does not boot: the loader %s", why)
	}
	if int(p.pc) != start {
		t.Fail("the loader jumps to %04X, want %04X", p.pc, start)
	}
	if p.d {
		t.Fail("decimal mode is on")
	}
	end := addr + (len(bin)+255)/256*256
	for a := 0x900; a < 0xC000; a++ {
		switch {
		case a >= addr && a < addr+len(bin):
			if p.mem[a] != bin[a-addr] {
				t.Fail("memory %04X holds %02X, the binary has %02X", a, p.mem[a], bin[a-addr])
			}
		case a < addr || a >= end:
			if p.mem[a] != fill(a) {
				t.Fail("memory %04X outside the binary's pages was overwritten", a)
			}
		}
	}
}

type sdName struct{ flag, name, order string }

var sdNames = []sdName{
	{"auto", "x.dsk", "do"}, {"auto", "x.do", "do"}, {"auto", "x.po", "po"}, {"auto", "X.PO", "po"}, {"auto", "X.DSK", "do"}, {"auto", "x.po.dsk", "do"},
	{"do", "x.dsk", "do"}, {"do", "x.po", "do"}, {"do", "x", "do"}, {"do", "x.img", "do"},
	{"po", "x.dsk", "po"}, {"po", "x.do", "po"}, {"po", "x.po", "po"}, {"po", "x", "po"}, {"po", "x.img", "po"}, {"auto", "a.po/x.do", "do"},
}

func c20(c *Ctx) {
	one := func(t *T, nm sdName, bin []byte, addr, start int) {
		want := start
		if start == 0xFFFF {
			want = addr
		}
		t.cleanScratch()
		if nm.name[0] == 'a' {
			_ = os.MkdirAll(t.path("a.po"), 0o755)
		}
		if len(bin)%3 == 1 { // mksd replaces what is there, longer or shorter
			t.writeFile(nm.name, nkData(5, []int{400, floppy, 2*floppy + 7, 1 << 20}[len(bin)/3%4]))
		}
		t.noErr(t.sdRun(nm.flag, nm.name, bin, addr, start), "mksd %d bytes at %04X start %04X", len(bin), addr, start)
		sdBoot(t, t.readFile(t.path(nm.name)), nm.order, bin, addr, want)
		t.State(hashString(hashInt(hashInt(hashInt(1, len(bin)), addr), start), nm.flag+nm.name))
	}
	c.Section("sizes and addresses", "every number of sectors 1-176 at every page from 09 up at which it fits; the length class (one byte, one short, full last sector), the start class and the order rotate (thorough: full product)")
	for n := 1; n <= 176; n++ {
		for page := 9; page+n <= 0xC0; page++ {
			c.Case(func(t *T) {
				k := n*3 + page
				lens := []int{n * 256, n*256 - 255, n*256 - 1, n*256 - 128}
				for li, l := range lens {
					if !c.Thorough() && li != k%4 {
						continue
					}
					bin := nkData(n, l)
					addr := page << 8
					starts := []int{0xFFFF, addr, addr + l - 1, addr + l/2, addr + (l-1)/256*256}
					for si, s := range starts {
						if !c.Thorough() && si != (k/4)%5 {
							continue
						}
						one(t, sdNames[(k+si)%6*5%16], bin, addr, s)
					}
				}
			}, "%d sectors at page %02X", n, page)
		}
	}
	c.Section("names and orders", "every order flag and extension for sizes around a track and at both ends")
	for _, nm := range sdNames {
		for _, n := range []int{1, 255, 256, 257, 7 * 256, 8 * 256, 15 * 256, 15*256 + 1, 16 * 256, 31*256 + 1, 176 * 256} {
			c.Case(func(t *T) { one(t, nm, nkData(n, n), 0x1000, 0xFFFF) }, "%v, %d bytes", nm, n)
		}
	}
	c.Section("lengths", "every length 1-600, and every length (thorough: up to 45056) around each sector boundary")
	for n := 1; n <= 45056; n++ {
		if !(n <= 600 || c.Thorough() || (n%256+1)%256 < 3) {
			continue
		}
		c.Case(func(t *T) { one(t, sdNames[n%16], nkData(n, n), 0x1000, 0x1000+n-1) }, "%d bytes", n)
	}
	c.Section("starts", "every start address inside binaries of 1, 2, 255-257 and 700 bytes at four addresses")
	for _, n := range []int{1, 2, 255, 256, 257, 700} {
		for _, addr := range []int{0x900, 0x2000, 0x6000, 0xBD00} {
			for s := 0; s < n; s += 8 {
				c.Case(func(t *T) {
					for k := s; k < s+8 && k < n; k++ {
						one(t, sdNames[k%16], nkData(n, n), addr, addr+k)
					}
				}, "%d bytes at %04X, starts %d on", n, addr, s)
			}
		}
	}
	c.Section("contents", "binaries of one repeated byte, every value, and of every pair of loader-like bytes")
	for v := 0; v < 256; v++ {
		c.Case(func(t *T) {
			bin := make([]byte, 20*256+v)
			for i := range bin {
				bin[i] = byte(v)
			}
			one(t, sdNames[v%16], bin, 0x900+v%4*0x1000, 0xFFFF)
			// Over an existing, longer file.
			t.writeFile("x.dsk", stamped(v))
			t.noErr(t.sdRun("auto", "x.dsk", bin, 0x2000, 0x2001), "mksd over a file")
			sdBoot(t, t.readFile(t.path("x.dsk")), "do", bin, 0x2000, 0x2001)
			t.writeFile("x.dsk", append(stamped(v), stamped(v)...))
			t.noErr(t.sdRun("auto", "x.dsk", bin, 0x2000, 0x2001), "mksd over a longer file")
			sdBoot(t, t.readFile(t.path("x.dsk")), "do", bin, 0x2000, 0x2001)
		}, "fill %02X", v)
	}
	c.Section("refusals", "every misaligned address, empty binaries, starts just outside, sizes one past each limit: an error, and the output neither created nor changed")
	refuse := func(t *T, bin []byte, addr, start int) {
		for _, exists := range []bool{false, true} {
			t.cleanScratch()
			t.writeFile("in/prog.bin", bin)
			if exists {
				t.writeFile("x.dsk", []byte("precious"))
			}
			before := t.snapshot()
			err := t.sdRun("auto", "x.dsk", bin, addr, start)
			if err == nil {
				t.Fail("mksd of %d bytes at %04X start %04X succeeded", len(bin), addr, start)
			}
			if d := snapDiff(before, t.snapshot()); d != "" {
				t.Fail("mksd refused %d bytes at %04X start %04X (%v), but %s", len(bin), addr, start, err, d)
			}
		}
		t.State(hashInt(hashInt(hashInt(2, len(bin)), addr), start))
	}
	for lo := 1; lo < 256; lo++ {
		c.Case(func(t *T) {
			for _, hi := range []int{0x900, 0x6000, 0xBE00} {
				refuse(t, nkData(1, 300), hi+lo, 0xFFFF)
				refuse(t, nkData(1, 300), hi+lo, hi+lo+1)
				refuse(t, nkData(1, 512), hi+lo, hi+256)
			}
		}, "address xx%02X", lo)
	}
	for page := 9; page < 256; page++ {
		c.Case(func(t *T) {
			addr := page << 8
			refuse(t, nil, addr, 0xFFFF)
			refuse(t, nil, addr, addr)
			refuse(t, nkData(1, 10), addr, addr-1)
			refuse(t, nkData(1, 300), addr, addr-256)
			refuse(t, nkData(1, 300), addr, 0)
			if addr+300 < 0xFFFF {
				refuse(t, nkData(1, 10), addr, addr+10)
				refuse(t, nkData(1, 256), addr, addr+256)
				refuse(t, nkData(1, 300), addr, addr+300)
				refuse(t, nkData(1, 300), addr, addr+301)
			}
			refuse(t, nkData(1, 1), addr, 0xFFFE)
			if room := 0xC000 - addr; room >= 0 {
				for _, over := range []int{1, 2, 255, 256, 257, 0x4000, 0x10000, 1 << 20} {
					refuse(t, nkData(1, room+over), addr, 0xFFFF)
					if room > 0 {
						refuse(t, nkData(1, room+over), addr, addr+room-1)
					}
				}
			} else {
				refuse(t, nkData(1, 1), addr, 0xFFFF)
			}
			if page <= 0x0F {
				refuse(t, nkData(1, 176*256+1), addr, 0xFFFF)
				refuse(t, nkData(1, 177*256), addr, addr+5)
			}
		}, "page %02X", page)
	}
	c.Section("through the tool", "the built binary with decimal, hexadecimal, octal and default addresses and defaults")
	for k, a := range []struct {
		args        []string
		addr, start int
	}{
		{nil, 0x6000, 0x6000},
		{[]string{"--address", "0x2000"}, 0x2000, 0x2000},
		{[]string{"--address", "8192"}, 0x2000, 0x2000},
		{[]string{"--address", "0x2000", "--start", "0x2101"}, 0x2000, 0x2101},
		{[]string{"--start", "0x6105"}, 0x6000, 0x6105},
		{[]string{"--start=24582", "--address=0x5F00"}, 0x5F00, 24582},
		{[]string{"--address", "020000"}, 0x2000, 0x2000},
		{[]string{"--start", "0xFFFF", "--address", "0xB000"}, 0xB000, 0xB000},
	} {
		for _, nm := range sdNames[:15] {
			c.Case(func(t *T) {
				t.cleanScratch()
				bin := nkData(k, 700)
				args := append([]string{"mksd"}, a.args...)
				if nm.flag != "auto" {
					args = append(args, "--order", nm.flag)
				}
				args = append(args, t.path(nm.name), t.writeFile("prog", bin))
				out, err := exec.Command(t.c.bin, args...).CombinedOutput()
				t.Step()
				if err != nil {
					t.Fail("%v: %v %s", args, err, out)
				}
				sdBoot(t, t.readFile(t.path(nm.name)), nm.order, bin, a.addr, a.start)
				t.State(hashString(3, fmt.Sprint(args)))
			}, "%v %v", a.args, nm)
		}
	}
}
