package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C02"] = prop{run: c02, level: "model_checking", assum: []string{
		"the interleave tables of the README are the reference",
		"byte values are covered by 256 XOR-shifted stamp patterns, not by all images",
		"an .hdv file of exactly 143360 bytes (indistinguishable from a floppy) is left out",
	}}
}

// fakeFactory lets OpenImage be driven with a system of any logical order.
type fakeFactory struct {
	name  string
	order types.DiskOrder
}

type fakeOp struct {
	types.Operator
	f    fakeFactory
	data []byte
}

func (f fakeFactory) Name() string                              { return f.name }
func (f fakeFactory) DiskOrder() types.DiskOrder                { return f.order }
func (f fakeFactory) SeemsToMatch(diskbytes []byte, _ int) bool { return true }
func (f fakeFactory) Operator(b []byte, _ int) (types.Operator, error) {
	return fakeOp{f: f, data: b}, nil
}
func (o fakeOp) Name() string               { return o.f.name }
func (o fakeOp) DiskOrder() types.DiskOrder { return o.f.order }
func (o fakeOp) GetBytes() []byte           { return o.data }

var systemOrder = map[string]types.DiskOrder{"dos3": "do", "nakedos": "raw", "prodos": "po", "xdo": "do", "xpo": "po", "xraw": "raw"}

// asNakedOS gives a stamped image (stored in order o) a valid sector map.
func asNakedOS(img []byte, o types.DiskOrder) []byte {
	raw := oracleConvert(img, o, "raw")
	var owner [nSectors]byte
	for i := range owner {
		owner[i] = 0xff
		if i < 12 {
			owner[i] = 0xfe
		}
	}
	nkPutMap(raw, owner)
	return oracleConvert(raw, "raw", o)
}

// viewAndBack opens img and checks the view and both ways of writing it back.
func viewAndBack(t *T, img []byte, name string, order types.DiskOrder, system string, facs []types.OperatorFactory, wantOrder types.DiskOrder, write bool) {
	in := clone(img)
	op, got, err := disk.OpenImage(in, name, order, system, facs, t.debug())
	t.Step()
	t.noErr(err, "open %s order %s system %s", name, order, system)
	if op.Name() != system {
		t.Fail("opened as %s, want %s", op.Name(), system)
	}
	if got != wantOrder {
		t.Fail("opened with order %s, want %s", got, wantOrder)
	}
	want := img
	if len(img) == floppy {
		want = oracleConvert(img, wantOrder, systemOrder[system])
	}
	if op.DiskOrder() != systemOrder[system] {
		t.Fail("system %s has order %s, want %s", system, op.DiskOrder(), systemOrder[system])
	}
	t.mustEqual(op.GetBytes(), want, "logical view")
	t.mustEqual(in, img, "the caller's bytes after opening")
	if !write {
		return
	}
	p := t.path("out.img")
	_ = os.Remove(p)
	t.noErr(disk.WriteBack(p, op, got, false), "writing back to a new file")
	t.Step()
	t.mustEqual(t.readFile(p), img, "written back in order %s", got)
	if disk.WriteBack(p, op, got, false) == nil {
		t.Fail("writing back over an existing file without overwrite succeeded")
	}
	t.Step()
	t.mustEqual(t.readFile(p), img, "refused overwrite")
	other := swap(got)
	if len(img) == floppy {
		t.noErr(disk.WriteBack(p, op, other, true), "writing back in order %s", other)
		t.Step()
		t.mustEqual(t.readFile(p), oracleConvert(img, got, other), "written back in order %s", other)
	} else {
		t.noErr(os.WriteFile(p, []byte("longer or shorter than before"), 0o644), "scratch")
		t.noErr(disk.WriteBack(p, op, got, true), "writing back with overwrite")
		t.Step()
		t.mustEqual(t.readFile(p), img, "written back over a file")
	}
	t.mustEqual(op.GetBytes(), want, "logical view after writing back")
	t.mustEqual(in, img, "the caller's bytes after writing back")
}

func c02(c *Ctx) {
	fakes := []types.OperatorFactory{fakeFactory{"xdo", "do"}, fakeFactory{"xpo", "po"}, fakeFactory{"xraw", "raw"}}
	c.Section("floppies", "256 stamp patterns x order by flag or extension x 3 real and 3 synthetic systems; view, write back in both orders")
	type how struct {
		name  string
		flag  types.DiskOrder
		order types.DiskOrder
	}
	hows := []how{{"a.dsk", "do", "do"}, {"a.img", "po", "po"}, {"a.do", "auto", "do"}, {"a.Po", "auto", "po"}, {"a.po", "do", "do"}, {"a.do", "po", "po"}}
	for k := 0; k < 256; k++ {
		for _, h := range hows {
			for _, sys := range []string{"dos3", "nakedos", "prodos", "xdo", "xpo", "xraw"} {
				c.Case(func(t *T) {
					img := stamped(k)
					if sys == "nakedos" {
						img = asNakedOS(img, h.order)
					}
					facs := factories()
					if sys[0] == 'x' {
						facs = fakes
					}
					t.State(hashString(hashBytes(1, img), fmt.Sprint(h, sys)))
					viewAndBack(t, img, h.name, h.flag, sys, facs, h.order, true)
					t.Outcome("%s as %s", sys, h.order)
				}, "pattern %d name %s flag %s system %s", k, h.name, h.flag, sys)
			}
		}
	}
	c.Section("every sector", "each of the 560 sectors alone nonzero x order x system")
	for s := 0; s < nSectors; s++ {
		c.Case(func(t *T) {
			for _, h := range hows[:2] {
				for _, sys := range []string{"dos3", "prodos", "xraw"} {
					img := make([]byte, floppy)
					for i := 0; i < 256; i++ {
						img[s*256+i] = byte(i + s*11 | 1)
					}
					t.State(hashInt(hashString(2, fmt.Sprint(h, sys)), s))
					viewAndBack(t, img, h.name, h.flag, sys, append(factories(), fakes...), h.order, false)
				}
			}
			t.Outcome("ok")
		}, "sector %d", s)
	}
	c.Section("paths", "files in directories with dots and extensions in their names, opened by name, as an open file and from bytes, from standard input; missing files and directories are refused")
	dirs := []string{"", "d.po/", "d.do/", "d.hdv/", "x.do/y.po/", "a b/", "./", "d.po/../", ".po/", "d.dsk/"}
	for _, dir := range dirs {
		for _, base := range []string{"a", "a.po", "a.do", "a.b", "-", "ünï", "po", "a b"} {
			for _, ext := range []string{"", ".do", ".po", ".dsk", ".DSK", ".PO", ".Do", ".x", ".hdv"} {
				if dir+base+ext == "-" {
					continue
				}
				c.Case(func(t *T) {
					t.cleanScratch()
					img := stamped(len(dir)*16 + len(base) + len(ext))
					p := t.c.scratch + "/" + dir + base + ext
					t.noErr(os.MkdirAll(t.c.scratch+"/"+dir, 0o755), "scratch")
					t.noErr(os.WriteFile(p, img, 0o644), "scratch")
					e := ext
					if e == "" {
						e = strings.TrimPrefix(base, "a")
						if len(e) > 3 || e == base || e == " b" {
							e = ""
						}
					}
					for _, flag := range []types.DiskOrder{"auto", "do", "po"} {
						want := flag
						if flag == "auto" {
							switch strings.ToLower(e) {
							case ".do", ".dsk", "":
								want = "do"
							case ".po":
								want = "po"
							default:
								want = ""
							}
						}
						for how := 0; how < 3; how++ {
							for _, sys := range []string{"xdo", "xpo", "xraw"} {
								var op types.Operator
								var got types.DiskOrder
								var err error
								switch how {
								case 0:
									op, got, err = disk.OpenFilename(p, flag, sys, fakes, t.debug())
								case 1:
									f, ferr := os.Open(p)
									t.noErr(ferr, "scratch")
									op, got, err = disk.OpenFile(f, flag, sys, fakes, t.debug())
									if f.Close() == nil {
										t.Fail("OpenFile did not close the file")
									}
								case 2:
									op, got, err = disk.OpenImage(clone(img), p, flag, sys, fakes, t.debug())
								}
								t.Step()
								t.State(hashString(5, fmt.Sprint(dir, base, ext, flag, how, sys)))
								if want == "" {
									if err == nil {
										t.Fail("%s opened with order %s", p, flag)
									}
									t.Outcome("refused")
									continue
								}
								t.noErr(err, "open %s order %s", p, flag)
								if got != want || op.Name() != sys {
									t.Fail("opened as %s in order %s, want %s in %s", op.Name(), got, sys, want)
								}
								t.mustEqual(op.GetBytes(), oracleConvert(img, want, systemOrder[sys]), "logical view")
								t.mustEqual(t.readFile(p), img, "the file after opening")
								t.Outcome("opened %s", want)
							}
						}
					}
				}, "path %s%s%s", dir, base, ext)
			}
		}
	}
	for _, flag := range []types.DiskOrder{"auto", "do", "po"} {
		for _, sys := range []string{"xdo", "xpo", "xraw"} {
			c.Case(func(t *T) {
				img := stamped(9)
				_, err := t.withStdout(img, func() error {
					op, got, err := disk.OpenFilename("-", flag, sys, fakes, t.debug())
					if err != nil {
						return err
					}
					want := flag
					if flag == "auto" {
						want = "do"
					}
					if got != want {
						t.Fail("standard input opened in order %s, want %s", got, want)
					}
					t.mustEqual(op.GetBytes(), oracleConvert(img, want, systemOrder[sys]), "logical view of standard input")
					return nil
				})
				t.Step()
				t.noErr(err, "opening standard input")
				t.State(hashString(6, fmt.Sprint(flag, sys)))
				t.Outcome("standard input")
			}, "standard input order %s system %s", flag, sys)
		}
	}
	for _, name := range []string{"missing.do", "missing", "dir.do", "dir", "missing/a.do", "a.do/x", ""} {
		c.Case(func(t *T) {
			t.cleanScratch()
			t.writeFile("a.do", stamped(1))
			t.noErr(os.MkdirAll(t.path("dir.do"), 0o755), "scratch")
			t.noErr(os.MkdirAll(t.path("dir"), 0o755), "scratch")
			before := t.snapshot()
			for _, sys := range []string{"auto", "xdo"} {
				if _, _, err := disk.OpenFilename(t.c.scratch+"/"+name, "do", sys, fakes, t.debug()); err == nil {
					t.Fail("%q opened", name)
				}
				t.Step()
			}
			if d := snapDiff(before, t.snapshot()); d != "" {
				t.Fail("refused: %s", d)
			}
			t.State(hashString(7, name))
			t.Outcome("no such image")
		}, "unreadable %q", name)
	}
	c.Section("devices", "every .hdv size of n blocks in the bound, 65535, 65536; sizes that are no multiple of 512 or too large are refused")
	limit := Pick(c, 1200, 6000)
	var sizes []int
	for n := 1; n <= limit; n++ {
		if n != 280 {
			sizes = append(sizes, n)
		}
	}
	sizes = append(sizes, 1599, 1600, 1601, 4095, 4096, 4097, 8192, 32767, 32768, 61440, 61441, 65535, 65536)
	for _, n := range sizes {
		c.Case(func(t *T) {
			img := make([]byte, n*512)
			for i := range img {
				img[i] = byte(i/512*13 + i*7 + i/131072)
			}
			t.State(hashInt(3, n))
			name, order, sys := "a.hdv", types.DiskOrder("auto"), "auto"
			if n%2 == 0 {
				name = "b.HDV"
			}
			if n%3 == 0 {
				order = "po"
			}
			if n%5 != 0 {
				sys = "prodos"
			}
			in := clone(img)
			op, got, err := disk.OpenImage(in, name, order, sys, factories(), t.debug())
			t.Step()
			t.noErr(err, "open device of %d blocks", n)
			if op.Name() != "prodos" || got != "po" {
				t.Fail("opened as %s in order %s", op.Name(), got)
			}
			t.mustEqual(op.GetBytes(), img, "logical view of a device")
			t.mustEqual(in, img, "the caller's bytes")
			viewAndBack(t, img, name, order, "prodos", factories(), "po", true)
			t.Outcome("opened")
		}, "%d blocks", n)
	}
	refuse := func(size int, name string, order types.DiskOrder, sys string, facs []types.OperatorFactory) {
		c.Case(func(t *T) {
			img := bytes.Repeat([]byte{0xA7}, size)
			in := clone(img)
			_, _, err := disk.OpenImage(in, name, order, sys, facs, t.debug())
			t.Step()
			t.State(hashString(4, fmt.Sprint(size, name, order, sys, len(facs))))
			if err == nil {
				t.Fail("%d-byte image %s opened with order %q system %q", size, name, order, sys)
			}
			t.mustEqual(in, img, "the caller's bytes after a refusal")
			t.Outcome("refused")
		}, "refuse size %d name %s order %q system %q factories %d", size, name, order, sys, len(facs))
	}
	for _, n := range []int{0, 1, 2, 100, 279, 280, 281, 65535} {
		for _, d := range []int{1, 2, 127, 255, 256, 257, 510, 511} {
			refuse(n*512+d, "a.hdv", "auto", "auto", factories())
		}
	}
	for _, size := range []int{65537 * 512, 65538 * 512, 65536*512 + 1, 65536*512 + 256} {
		refuse(size, "a.hdv", "auto", "auto", factories())
		refuse(size, "a.hdv", "po", "prodos", factories())
	}
	c.Section("refusals", "floppy sizes around 143360 by 1 and by sectors, 13-sector images, unknown extensions, orders, systems; .hdv with floppy orders or other systems")
	for _, name := range []string{"a.do", "a.po", "a.dsk", "a", "a.img", "a.nib"} {
		for _, size := range []int{0, 1, 256, 512, 116480, floppy - 4096, floppy - 512, floppy - 256, floppy - 1, floppy + 1, floppy + 256, floppy + 512, 2 * floppy, 819200, 65536 * 512} {
			for _, o := range []types.DiskOrder{"auto", "do", "po"} {
				refuse(size, name, o, "auto", factories())
				refuse(size, name, o, "dos3", factories())
				refuse(size, name, o, "xdo", fakes)
			}
		}
	}
	for _, name := range []string{"a.img", "a.nib", "a.woz", "a.2mg", "a.txt", "a.d", "a.p", "a.dos", "a.dsk2", "a.", "dsk.x", "a.do.gz"} {
		refuse(floppy, name, "auto", "auto", factories())
		refuse(floppy, name, "auto", "dos3", factories())
		refuse(floppy, name, "auto", "xdo", fakes)
	}
	for _, name := range []string{"a.do", "a.po", "a.dsk", "a", "a.hdv"} {
		for _, o := range []types.DiskOrder{"raw", "", "DO", "PO", "foo", "do ", "dos"} {
			refuse(floppy, name, o, "auto", factories())
			refuse(floppy, name, o, "xraw", fakes)
		}
		for _, sys := range []string{"", "dos", "DOS3", "prodos8", "supermon", "xx"} {
			refuse(floppy, name, "do", sys, factories())
			refuse(floppy, name, "auto", sys, factories())
		}
	}
	for _, n := range []int{1, 100, 281, 1600, 65536} {
		for _, o := range []types.DiskOrder{"do", "raw", "", "foo"} {
			refuse(n*512, "a.hdv", o, "auto", factories())
			refuse(n*512, "a.hdv", o, "prodos", factories())
		}
		for _, sys := range []string{"dos3", "nakedos", "", "xx"} {
			refuse(n*512, "a.hdv", "auto", sys, factories())
			refuse(n*512, "a.hdv", "po", sys, factories())
		}
		refuse(n*512, "a.hdv", "auto", "auto", factories()[:2])
		refuse(n*512, "a.hdv", "auto", "prodos", fakes)
	}
}
