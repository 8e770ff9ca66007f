package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/zellyn/diskii/cmd"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C01"] = prop{run: c01, level: "model_checking", assum: []string{
		"the interleave tables of the README are the reference",
		"byte values are covered by 256 XOR-shifted stamp patterns, not by all images",
	}}
}

func swap(o types.DiskOrder) types.DiskOrder {
	if o == "do" {
		return "po"
	}
	return "do"
}

func c01(c *Ctx) {
	orders := []types.DiskOrder{"do", "po", "raw"}
	nPat := 256
	c.Section("convert", "every pair of orders x 256 stamp patterns x all 560 sectors, there and back")
	for k := 0; k < nPat; k++ {
		for _, from := range orders {
			for _, to := range orders {
				c.Case(func(t *T) {
					img := stamped(k)
					t.State(hashString(hashBytes(1, img), string(from+to)))
					in := clone(img)
					raw, err := disk.Swizzle(in, disk.LogicalToPhysicalByName[from])
					t.Step()
					t.noErr(err, "Swizzle to physical")
					t.mustEqual(raw, oracleConvert(img, from, "raw"), "%s to physical", from)
					out, err := disk.Swizzle(raw, disk.PhysicalToLogicalByName[to])
					t.Step()
					t.noErr(err, "Swizzle to %s", to)
					t.mustEqual(out, oracleConvert(img, from, to), "%s to %s", from, to)
					t.mustEqual(in, img, "the input of the conversion was modified")
					back1, err := disk.Swizzle(out, disk.LogicalToPhysicalByName[to])
					t.noErr(err, "back")
					back, err := disk.Swizzle(back1, disk.PhysicalToLogicalByName[from])
					t.Steps(2)
					t.noErr(err, "back")
					t.mustEqual(back, img, "%s to %s and back", from, to)
					for i := range out {
						out[i] ^= 0xff
						raw[i] ^= 0x5a
					}
					t.mustEqual(in, img, "the result shares memory with the input")
					t.Outcome("%s to %s", from, to)
				}, "pattern %d %s->%s", k, from, to)
			}
		}
	}

	c.Section("results kept", "the results of 64 conversions in a row, from each start, all kept: each keeps its bytes")
	for k := 0; k < 9; k++ {
		c.Case(func(t *T) {
			var got, want [][]byte
			for n := 0; n < 64; n++ {
				img := stamped(n * 3)
				from, to := orders[(n+k)%3], orders[(n+k)/3%3]
				raw, err := disk.Swizzle(img, disk.LogicalToPhysicalByName[from])
				t.noErr(err, "Swizzle")
				out, err := disk.Swizzle(raw, disk.PhysicalToLogicalByName[to])
				t.noErr(err, "Swizzle")
				t.Steps(2)
				got = append(got, raw, out)
				want = append(want, oracleConvert(img, from, "raw"), oracleConvert(img, from, to))
			}
			for i := range got {
				t.mustEqual(got[i], want[i], "the result of conversion %d after %d conversions", i+1, len(got))
			}
			t.State(hashInt(99, k))
			t.Outcome("kept")
		}, "from %d", k)
	}
	c.Section("arbitrary permutations", "identity, all 120 transpositions and all rotations of 0-15 as the ordering")
	ident := func() []int {
		o := make([]int, 16)
		for i := range o {
			o[i] = i
		}
		return o
	}
	perm := func(o []int, what string, a, b int) {
		c.Case(func(t *T) {
			img := stamped(3)
			got, err := disk.Swizzle(clone(img), append([]int(nil), o...))
			t.Step()
			t.State(hashString(2, fmt.Sprint(o)))
			t.noErr(err, "Swizzle with permutation %v", o)
			for tr := 0; tr < 35; tr++ {
				for s := 0; s < 16; s++ {
					if !bytes.Equal(got[tr*trackSize+o[s]*256:tr*trackSize+o[s]*256+256], img[tr*trackSize+s*256:tr*trackSize+s*256+256]) {
						t.Fail("sector %d of track %d is not at %d under %v", s, tr, o[s], o)
					}
				}
			}
			t.Outcome("permuted")
		}, "%s %d %d", what, a, b)
	}
	for i := 0; i < 16; i++ {
		for j := i; j < 16; j++ {
			o := ident()
			o[i], o[j] = o[j], o[i]
			perm(o, "transposition", i, j)
		}
		o := make([]int, 16)
		for j := range o {
			o[j] = (i + j) % 16
		}
		perm(o, "rotation", i, 0)
		for j := range o {
			o[j] = 15 - (i+j)%16
		}
		perm(append([]int(nil), o...), "reflection", i, 0)
	}

	c.Section("malformed orderings", "each position replaced by each value -300..300 that is no permutation, extreme values")
	vals := []int{1 << 31, -1 << 31, 1 << 40, 1<<40 + 3, -256, 65536 + 5}
	for v := -300; v <= 300; v++ {
		vals = append(vals, v)
	}
	bases := []types.DiskOrder{"raw", "do", "po"}
	for _, bname := range bases {
		for i := 0; i < 16; i++ {
			c.Case(func(t *T) {
				img := stamped(5)
				n := 0
				for _, v := range vals {
					p := oraclePhysToLog[bname]
					o := append([]int(nil), p[:]...)
					if o[i] == v {
						continue
					}
					o[i] = v
					_, err := disk.Swizzle(img, o)
					t.Step()
					if err == nil {
						t.Fail("ordering %v accepted", o)
					}
					n++
				}
				t.State(hashInt(hashString(3, string(bname)), i))
				t.Outcome("refused")
			}, "%s position %d, %d values", bname, i, len(vals))
		}
	}
	c.Section("orderings with repeats", Pick(c, "the identity with every three positions set to every three values 0-15", "the three orders with every three positions set to every three values 0-15")+": refused unless a permutation")
	for _, bname := range bases[:Pick(c, 1, 3)] {
		for i := 0; i < 16; i++ {
			for j := 0; j < i; j++ {
				c.Case(func(t *T) {
					img := stamped(6)
					p := oraclePhysToLog[bname]
					o := make([]int, 16)
					for k := 0; k < j; k++ {
						for v := 0; v < 4096; v++ {
							copy(o, p[:])
							o[i], o[j], o[k] = v>>8, v>>4&15, v&15
							mask := 0
							for _, x := range o {
								mask |= 1 << x
							}
							if mask == 0xffff {
								continue
							}
							if _, err := disk.Swizzle(img, o); err == nil {
								t.Fail("ordering %v accepted", o)
							}
							t.Step()
						}
					}
					t.State(hashInt(hashInt(hashString(10, string(bname)), i), j))
					t.Outcome("refused")
				}, "%s positions %d, %d and every lower one", bname, i, j)
			}
		}
	}
	c.Section("wrong lengths", "orderings of every length 1-40 but 16")
	for n := 1; n <= 40; n++ {
		if n == 16 {
			continue
		}
		for _, wrap := range []bool{false, true} {
			c.Case(func(t *T) {
				o := make([]int, n)
				for i := range o {
					o[i] = i
					if wrap {
						o[i] = i % 16
					}
				}
				_, err := disk.Swizzle(stamped(1), o)
				t.Step()
				t.State(hashString(4, fmt.Sprint(o)))
				if err == nil {
					t.Fail("ordering of length %d accepted: %v", n, o)
				}
				t.Outcome("refused")
			}, "length %d wrap %v", n, wrap)
		}
	}

	c.Section("sizes", "every image size that is a multiple of 256 up to two disks, and sizes around them, is refused unless 143360")
	for n := 0; n <= 2*nSectors; n++ {
		for _, d := range []int{-1, 0, 1} {
			size := n*256 + d
			if size < 0 || size == floppy {
				continue
			}
			c.Case(func(t *T) {
				_, err := disk.Swizzle(make([]byte, size), ident())
				t.Step()
				t.State(hashInt(5, size))
				if err == nil {
					t.Fail("an image of %d bytes was reordered", size)
				}
				t.Outcome("refused")
			}, "size %d", size)
		}
	}

	reorderCommand(c)
}

// expectedOrders is the documented rule of the reorder command.
func expectedOrders(in, out string, order, newOrder types.DiskOrder) (from, to types.DiskOrder, ok bool) {
	guess := func(name string) types.DiskOrder {
		switch strings.ToLower(filepath.Ext(name)) {
		case ".do", ".dsk":
			return "do"
		case ".po":
			return "po"
		}
		return ""
	}
	switch {
	case order != "auto" && newOrder != "auto":
		return order, newOrder, order != newOrder
	case order != "auto":
		return order, swap(order), true
	case newOrder != "auto":
		return swap(newOrder), newOrder, true
	}
	from, to = guess(in), guess(out)
	switch {
	case from == "" && to == "":
		return "", "", false
	case from == "":
		return swap(to), to, true
	case to == "":
		return from, swap(from), true
	}
	return from, to, from != to
}

func reorderCommand(c *Ctx) {
	c.Section("reorder command", "order x new-order x 10 input names x 11 output names x output present x overwrite, in process; the same with the built binary for a subset")
	ins := []string{"a.do", "a.po", "a.dsk", "a.DSK", "a.Po", "a.DO", "a", "a.img", "a.do.bin", "a.po.dsk"}
	outs := []string{"", "b.do", "b.po", "b.dsk", "b.DSK", "b.PO", "b.Do", "b", "b.img", "b.po.x", "b.do.po"}
	flags := []types.DiskOrder{"auto", "do", "po"}
	img := stamped(7)
	for _, viaBinary := range []bool{false, true} {
		for _, in := range ins {
			for _, out := range outs {
				if viaBinary && (len(in) > 5 || len(out) > 5) {
					continue
				}
				for _, order := range flags {
					for _, newOrder := range flags {
						for _, exists := range []bool{false, true} {
							for _, force := range []bool{false, true} {
								if out == "" && exists {
									continue
								}
								if viaBinary && !c.Thorough() && (exists != force || strings.ToLower(in+out) != in+out) {
									continue
								}
								c.Case(func(t *T) {
									reorderOne(t, img, in, out, order, newOrder, exists, force, viaBinary)
								}, "reorder %s %s --order %s --new-order %s exists=%v force=%v binary=%v", in, out, order, newOrder, exists, force, viaBinary)
							}
						}
					}
				}
			}
		}
	}
	c.Section("reorder paths", "input and output in directories with dots and extensions in their names, the output the input itself under another spelling, and an existing directory as the output")
	dirs := []string{"", "d.po/", "d.do/", "d.dsk/", "x.do/y.po/", "a b/", "./", "d.po/../", ".po/"}
	for _, di := range dirs {
		for _, do := range dirs {
			for _, in := range []string{"a.do", "a.po", "a", "a.x"} {
				for _, out := range []string{"", "b.do", "b.po", "b", "b.x"} {
					for _, order := range flags {
						c.Case(func(t *T) {
							for _, newOrder := range flags {
								o := out
								if o != "" {
									o = do + o
								}
								reorderOne(t, img, di+in, o, order, newOrder, out == "b" && order != "po", order == "do", false)
							}
						}, "reorder %s%s %s%s --order %s, every new order", di, in, do, out, order)
					}
				}
			}
		}
	}
	for _, in := range ins {
		for _, same := range []string{"", "./", "d/../"} {
			for _, order := range flags {
				for _, newOrder := range flags {
					for _, force := range []bool{false, true} {
						c.Case(func(t *T) {
							t.cleanScratch()
							inPath := t.writeFile(in, img)
							t.noErr(os.Mkdir(t.path("d"), 0o755), "scratch")
							outPath := t.c.scratch + "/" + same + in
							r := &cmd.ReorderCmd{Order: order, NewOrder: newOrder, Overwrite: force, DiskImage: inPath, NewDiskImage: outPath}
							err := r.Run(t.globals())
							t.Step()
							t.State(hashString(8, fmt.Sprint(in, same, order, newOrder, force)))
							from, to, ok := expectedOrders(in, in, order, newOrder)
							want := img
							if ok && (force || err == nil) { // without -f it may count as in place
								want = oracleConvert(img, from, to)
								t.noErr(err, "reorder onto itself")
							} else if err == nil {
								t.Fail("expected a refusal")
							}
							t.mustEqual(t.readFile(inPath), want, "the file")
							t.Outcome("overwritten %v", ok && force)
						}, "reorder %s onto itself as %s%s --order %s --new-order %s force %v", in, same, in, order, newOrder, force)
					}
				}
			}
		}
	}
	for _, in := range ins {
		for _, out := range []string{"b.do", "b.po", "b"} {
			for _, order := range flags {
				for _, force := range []bool{false, true} {
					c.Case(func(t *T) {
						t.cleanScratch()
						inPath := t.writeFile(in, img)
						t.noErr(os.Mkdir(t.path(out), 0o755), "scratch")
						r := &cmd.ReorderCmd{Order: order, NewOrder: "auto", Overwrite: force, DiskImage: inPath, NewDiskImage: t.path(out)}
						err := r.Run(t.globals())
						t.Step()
						t.State(hashString(9, fmt.Sprint(in, out, order, force)))
						if err == nil {
							t.Fail("reorder onto a directory succeeded")
						}
						t.mustEqual(t.readFile(inPath), img, "the file")
						t.Outcome("directory refused")
					}, "reorder %s onto the directory %s --order %s force %v", in, out, order, force)
				}
			}
		}
	}
	c.Section("reorder command input sizes", "files of the wrong size are refused and left alone")
	for _, size := range []int{0, 1, 255, 256, 116480, floppy - 256, floppy - 1, floppy + 1, floppy + 256, 2 * floppy, 819200} {
		c.Case(func(t *T) {
			t.cleanScratch()
			data := bytes.Repeat([]byte{0xA5}, size)
			in := t.writeFile("a.do", data)
			before := t.snapshot()
			r := &cmd.ReorderCmd{Order: "auto", NewOrder: "auto", DiskImage: in, NewDiskImage: ""}
			err := r.Run(t.globals())
			t.Step()
			t.State(hashInt(6, size))
			if err == nil {
				t.Fail("reorder of a %d-byte file succeeded", size)
			}
			if d := snapDiff(before, t.snapshot()); d != "" {
				t.Fail("refused reorder: %s", d)
			}
			t.Outcome("refused")
		}, "size %d", size)
	}
}

func reorderOne(t *T, img []byte, in, out string, order, newOrder types.DiskOrder, exists, force, viaBinary bool) {
	t.cleanScratch()
	t.writeFile(in, img)
	inPath, outPath := t.c.scratch+"/"+in, ""
	_ = os.MkdirAll(inPath[:strings.LastIndex(inPath, "/")], 0o755)
	// what is there before is shorter or longer than a floppy, or one of the same size
	old := bytes.Repeat([]byte("previous contents "), []int{1, 9000, 8000, 20000}[int(hashString(3, in+out+string(order)+string(newOrder))%4)])
	if len(old) == 8000*18 {
		old = old[:floppy]
	}
	if out != "" {
		outPath = t.c.scratch + "/" + out
		_ = os.MkdirAll(outPath[:strings.LastIndex(outPath, "/")], 0o755)
		if exists {
			t.writeFile(out, old)
		}
	}
	var err error
	if viaBinary {
		args := []string{"reorder", "--order", string(order), "--new-order", string(newOrder)}
		if force {
			args = append(args, "-f")
		}
		args = append(args, inPath)
		if outPath != "" {
			args = append(args, outPath)
		}
		err = exec.Command(t.c.bin, args...).Run()
	} else {
		r := &cmd.ReorderCmd{Order: order, NewOrder: newOrder, Overwrite: force, DiskImage: inPath, NewDiskImage: outPath}
		err = r.Run(t.globals())
	}
	t.Step()
	t.State(hashString(7, fmt.Sprint(in, out, order, newOrder, exists, force)))
	from, to, ok := expectedOrders(inPath, outPath, order, newOrder)
	if ok && exists && !force {
		ok = false
	}
	if !ok {
		if err == nil {
			t.Fail("expected a refusal, but the command succeeded")
		}
		t.mustEqual(t.readFile(inPath), img, "refused, but the input changed")
		if outPath != "" {
			b, rerr := os.ReadFile(outPath)
			if exists && (rerr != nil || !bytes.Equal(b, old)) {
				t.Fail("refused, but the output file changed")
			}
			if !exists && rerr == nil {
				t.Fail("refused, but the output file was created")
			}
		}
		t.Outcome("refused")
		return
	}
	t.noErr(err, "reorder")
	want := oracleConvert(img, from, to)
	if outPath == "" {
		t.mustEqual(t.readFile(inPath), want, "file reordered in place %s->%s", from, to)
	} else {
		t.mustEqual(t.readFile(outPath), want, "output file %s->%s", from, to)
		t.mustEqual(t.readFile(inPath), img, "the input file")
	}
	t.Outcome("%s to %s", from, to)
}
