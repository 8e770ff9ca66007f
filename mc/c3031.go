package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zellyn/diskii/types"
)

func init() {
	props["C30"] = prop{run: c30, level: "model_checking", assum: []string{
		"the wording of diagnostics and messages is free; only where they go is checked",
	}}
	props["C31"] = prop{run: c31, level: "model_checking", assum: []string{
		"error messages may name the file and so differ",
		"images under an extension that leaves the order open are compared for NakedOS disks only",
	}}
}

// floppies are the disks the last checks run on, by their contents in DOS order.
func floppies() []c21File {
	var out []c21File
	for _, i := range c21Images() {
		if len(i.data) == floppy {
			d := i.data
			if strings.HasSuffix(i.name, ".po") {
				d = oracleConvert(d, "po", "do")
			}
			out = append(out, c21File{"x.do", d, i.what})
		}
	}
	for _, d := range c03Disks() {
		out = append(out, c21File{"x.do", oracleConvert(d.logical, systemOrder[d.system], "do"), d.what})
	}
	for _, n := range []string{"lode-runner-disk-1.dsk", "prodos-users-disk.dsk", "blank.dsk"} {
		if b := repoFile("data/disks/" + n); len(b) == floppy {
			out = append(out, c21File{"x.do", b, n})
		}
	}
	if b := repoFile("data/disks/sam-hardware-ver.po"); len(b) == floppy {
		out = append(out, c21File{"x.do", oracleConvert(b, "po", "do"), "sam-hardware-ver"})
	}
	seen := map[uint64]bool{}
	n := 0
	for _, i := range out {
		if h := hashBytes(77, i.data); !seen[h] {
			seen[h] = true
			out[n] = i
			n++
		}
	}
	return out[:n]
}

// ---- C30: diagnostics change nothing else

func c30(c *Ctx) {
	var images []c21File
	images = append(images, c21Images()...)
	images = append(images, floppies()...)
	reqs := append(c28Requests(),
		ucmd{kind: "put", ftype: "B", name: "BAD NAME", source: "source"}, ucmd{kind: "put", ftype: "B", name: "NEWNAME", source: "nosuch"}, ucmd{kind: "rm", name: ""},
		ucmd{kind: "hello", name: "NOSUCH", addr: 0x6000, start: 0x5000}, ucmd{kind: "sd", source: "nosuch", addr: 0x6000, start: 0xFFFF}, ucmd{kind: "sd", source: "source", addr: 0x6001, start: 0xFFFF},
		ucmd{kind: "reorder", output: "no/such/dir.po"}, ucmd{kind: "ls", force: true}, ucmd{kind: "ls", system: "prodos", name: "NOSUCH"}, ucmd{kind: "ls", system: "prodos", name: "SUB/DEEP"}, ucmd{kind: "dump", name: "HELLO"}, ucmd{kind: "dump", name: "FILE1"}, ucmd{kind: "dump", name: "DF05", order: "po"},
		ucmd{kind: "dump", name: "five"}, ucmd{kind: "dump", name: "alpha"}, ucmd{kind: "dump", name: "df5"}, ucmd{kind: "dump", name: "ALPHA "}, ucmd{kind: "ls", system: "prodos", name: "sub"}, ucmd{kind: "ls", system: "prodos", name: "SUB/"}, ucmd{kind: "ls", system: "prodos", name: "/SUB"},
		ucmd{kind: "rm", name: "five"}, ucmd{kind: "hello", name: "five", addr: 0x6000, start: 0xFFFF}, ucmd{kind: "put", ftype: "b", name: "five", source: "source", force: true}, ucmd{kind: "put", ftype: "BINARY", name: "NEWNAME", source: "source"})
	// run makes the request and tells what came of it.
	run := func(t *T, img c21File, u ucmd, tool bool, place int) (c28Result, string) {
		c28Setup(t, img)
		u.image = strings.TrimSuffix(img.name, "/")
		if u.kind == "decode" && img.what == "text" {
			u.image = "prog"
			t.writeFile("prog", c25Program(3))
		}
		var out, msg []byte
		var err error
		if tool {
			n := u.debug
			u.debug = 0
			args := u.args()
			if n > 0 {
				v := "-" + strings.Repeat("v", n)
				switch place {
				case 0: // first
					args = append([]string{v}, args...)
				case 1: // one by one, long and short
					for i := 0; i < n; i++ {
						args = append([]string{[]string{"-v", "--debug"}[i%2]}, args...)
					}
				case 2: // after the command, before its arguments
					at := 1
					if u.kind == "hello" || u.kind == "decode" {
						at = 2
					}
					args = append(append(append([]string(nil), args[:at]...), v), args[at:]...)
				}
			}
			out, msg, err = u.toolAll(t, nil, args)
		} else {
			if u.debug == 0 {
				u.debug = -1
			}
			out, err = t.withStdout([]byte{}, func() error { return u.in(t) })
		}
		return c28Result{out: string(out), failed: err != nil, files: t.snapshot()}, string(msg)
	}
	c.Section("levels", fmt.Sprintf("each of %d requests on each of %d images, at debug levels 0 to 4, in process and through the built tool with the flags in each place: same output, status and files", len(reqs), len(images)))
	for i, img := range images {
		for j, u := range reqs {
			c.Case(func(t *T) {
				want, msg := run(t, img, u, true, 0)
				if want.failed && strings.TrimSpace(msg) == "" {
					t.Fail("%v fails without a word on standard error", u)
				}
				if want.failed && want.out != "" {
					t.Fail("%v fails, but prints %.60q on standard output", u, want.out)
				}
				for n := 0; n <= 4; n++ {
					u.debug = n
					if r, _ := run(t, img, u, false, 0); r.differs(want) != "" {
						t.Fail("%v at debug level %d: %s", u, n, r.differs(want))
					}
					for place := 0; place < 3; place++ {
						if n == 0 || !c.Thorough() && (n > 3 || n != 2 && place != (i+j+n)%3) {
							continue
						}
						r, msg := run(t, img, u, true, place)
						if d := r.differs(want); d != "" {
							t.Fail("%v with %d times -v: %s", u, n, d)
						}
						if r.failed && strings.TrimSpace(msg) == "" {
							t.Fail("%v with %d times -v fails without a word on standard error", u, n)
						}
					}
				}
				t.State(hashString(1, fmt.Sprint(i, j)))
				t.Outcome("%s failed=%v", u.kind, want.failed)
			}, "%v on %s (%s)", u, img.what, img.name)
		}
	}
	c.Section("operators", "opening, listing, getting, putting and deleting on each floppy at debug levels 0 to 4: the same answers and bytes")
	for i, img := range floppies() {
		for _, system := range []string{"auto", "dos3", "nakedos", "prodos"} {
			for _, name := range []string{"x.do", "x.dsk", "x.po"} {
				c.Case(func(t *T) {
					c30Levels(t, img.data, name, system, true)
					t.State(hashString(2, fmt.Sprint(i, system, name)))
					t.Outcome("operators")
				}, "%s as %s, system %s", img.what, name, system)
			}
		}
	}
	c.Section("layouts", "DOS 3.3 catalogs with a sector at every track and sector, first, middle or last of the chain, and chains of 1 to 560 sectors in four arrangements; ProDOS directories of 1 to 12 blocks in three arrangements, to four levels: the same answers at debug levels 0 to 4")
	for tr := 0; tr < 35; tr++ {
		c.Case(func(t *T) {
			for s := byte(0); s < 16; s++ {
				at := ts{byte(tr), s}
				if at == (ts{}) || at == (ts{17, 0}) || at == (ts{17, 7}) || at == (ts{5, 5}) {
					continue
				}
				for k, chain := range [][]ts{{at}, {{17, 7}, at, {5, 5}}, {{17, 7}, {5, 5}, at}} {
					var ents []*dosEntry
					for e := 0; e < 7*len(chain); e++ {
						ents = append(ents, stdEntry(e, (e+tr)%3))
					}
					c30Levels(t, dosImage(byte(tr+1), 16, chain, ents), "x.do", []string{"auto", "dos3"}[k%2], false)
					t.State(hashString(3, fmt.Sprint(tr, s, k)))
				}
			}
			t.Outcome("dos layouts")
		}, "a catalog sector in track %d", tr)
	}
	for kind := 0; kind < 4; kind++ {
		for _, n := range []int{1, 2, 3, 14, 15, 16, 17, 31, 100, 558} {
			c.Case(func(t *T) {
				var ents []*dosEntry
				for e := 0; e < 7*n; e++ {
					ents = append(ents, stdEntry(e, 2*(e%2)))
				}
				c30Levels(t, dosImage(254, 16, chainOf(kind, n, 16), ents), "x.do", "auto", false)
				t.State(hashString(4, fmt.Sprint(kind, n)))
				t.Outcome("dos layouts")
			}, "chain kind %d of %d sectors", kind, n)
		}
	}
	for kind := 0; kind < 3; kind++ {
		for n := 1; n <= 12; n++ {
			for depth := 0; depth < 5; depth++ {
				c.Case(func(t *T) {
					a := &proAlloc{n: 280, kind: kind}
					root := rootDir(a, n)
					d := root
					for l := 0; ; l++ {
						for e := 0; e < slots(len(d.blocks)); e += 3 {
							d.entries[e] = fileEntry(e + l)
						}
						if l == depth {
							break
						}
						sub := &pDir{blocks: a.take(1 + (n+l)%4), entries: map[int]*pEntry{}, parentExact: l%2 == 0}
						d.entries[1] = subEntry(fmt.Sprintf("SUB%d", l), sub)
						d = sub
					}
					img := proImage(280, root)
					c30Levels(t, img, "x.po", "auto", false)
					c30Levels(t, img, "x.hdv", "auto", false)
					t.State(hashString(5, fmt.Sprint(kind, n, depth)))
					t.Outcome("prodos layouts")
				}, "directory kind %d of %d blocks, %d levels", kind, n, depth)
			}
		}
	}
	c.Section("damage", "every byte of the volume table, catalog and lists of a DOS 3.3 disk, of the directories of a ProDOS volume and of the sector map and symbol tables of a NakedOS disk set to each of nine values (thorough: every value): the same answers at debug levels 0 to 4")
	damage := func(what string, img []byte, name, system string, offs []int) {
		for i := 0; i < len(offs); i += 64 {
			c.Case(func(t *T) {
				img := clone(img)
				for _, off := range offs[i:min(i+64, len(offs))] {
					keep := img[off]
					vals := []byte{0, 1, 2, 0x0f, 0x10, 0x22, 0x23, 0x80, 0xff, keep + 1, keep ^ 0x80}
					if c.Thorough() {
						vals = nil
						for v := 0; v < 256; v++ {
							vals = append(vals, byte(v))
						}
					}
					for k, v := range vals {
						if v == keep && k > 0 {
							continue
						}
						img[off] = v
						c30Levels(t, img, name, system, false)
						t.State(hashString(6, fmt.Sprint(what, off, v)))
					}
					img[off] = keep
				}
				t.Outcome("damaged %s", what)
			}, "%s, bytes %06X to %06X", what, offs[i], offs[min(i+63, len(offs)-1)])
		}
	}
	span := func(off, n int) []int {
		var out []int
		for i := 0; i < n; i++ {
			out = append(out, off+i)
		}
		return out
	}
	var offs []int
	for _, o := range []int{17 * trackSize, 17*trackSize + 15*256, 17*trackSize + 14*256} {
		offs = append(offs, span(o, 0x60)...)
	}
	damage("DOS 3.3", dosBase(0), "x.do", "auto", offs)
	damage("DOS 3.3 by name", dosBase(1), "x.do", "dos3", offs)
	offs = nil
	for _, b := range []int{2, 3, 8, 9, 10, 11} {
		offs = append(offs, span(b*512, 4+39*4)...)
	}
	damage("ProDOS", proSmall(), "x.hdv", "prodos", offs)
	nk := linkBase()
	offs = span(2*256, 560+8)
	own := nkMap(nk)
	for s, f := range own {
		if f == 3 || f == 4 {
			offs = append(offs, span(s*256, 16)...)
		}
	}
	damage("NakedOS", nk, "x.do", "nakedos", offs)
}

// c30Levels opens an image at each debug level and compares the answers.
func c30Levels(t *T, img []byte, name, system string, change bool) {
	all := func(debug int) string {
		op, order, err := openAt(img, name, system, debug)
		t.Step()
		s := fmt.Sprint(order, err == nil)
		if err != nil {
			return s
		}
		s += op.Name()
		for _, dir := range []string{"", "SUB", "sub", "SUB/", "NOSUCH", "A", "A/B", "SUB0", "SUB0/SUB1/SUB2"} {
			l, err := op.Catalog(dir)
			t.Step()
			s += fmt.Sprint(err == nil)
			for k := range l {
				s += fmt.Sprint(l[k])
				if k < 12 && system != "prodos" {
					fi, err := op.GetFile(l[k].Name)
					s += fmt.Sprint(fi.Descriptor, hashBytes(1, fi.Data), err == nil)
					t.Step()
					if k < 3 {
						for _, name := range []string{strings.ToLower(l[k].Name), l[k].Name + " ", " " + l[k].Name, l[k].Fullname} {
							fi, err := op.GetFile(name)
							s += fmt.Sprint(fi.Descriptor, hashBytes(1, fi.Data), err == nil)
							t.Step()
						}
					}
				}
			}
			if dir == "" && !op.HasSubdirs() {
				break
			}
		}
		if change {
			_, err = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "NEWNAME", Length: 3, Type: types.FiletypeBinary}, Data: []byte{1, 2, 3}}, true)
			s += fmt.Sprint(err == nil)
			ok, err := op.Delete("FIVE")
			s += fmt.Sprint(ok, err == nil, hashBytes(2, op.GetBytes()))
			t.Steps(2)
		}
		return s
	}
	want := all(0)
	for n := 1; n <= 4; n++ {
		if got := all(n); got != want {
			t.Fail("the answers at debug level %d differ from those without", n)
		}
	}
}

// ---- C31: the order an image is stored in makes no difference

type c31Result struct {
	outs  []string
	raw   string // the image, in DOS order
	other string // the rest of the files
}

func (r c31Result) differs(w c31Result) string {
	for i := range w.outs {
		if r.outs[i] != w.outs[i] {
			return fmt.Sprintf("command %d answers %.120q, in DOS order %.120q", i+1, r.outs[i], w.outs[i])
		}
	}
	if r.raw != w.raw {
		return "the resulting images are not reorderings of each other: " + diffAt([]byte(r.raw), []byte(w.raw))
	}
	if r.other != w.other {
		return "the other files differ: " + diffAt([]byte(r.other), []byte(w.other))
	}
	return ""
}

// c31Run runs a history on the floppy stored in an order. mode says how the
// order is told: "ext", "flag", "against" and "odd" (by flag, against the
// extension or with one that says nothing), or "open" (not at all). Before
// command flip the image is reordered in place (only with mode "flag").
func c31Run(t *T, dos []byte, order string, mode string, hist []ucmd, flip int, tool bool) c31Result {
	t.cleanScratch()
	name := "x." + order
	switch mode {
	case "against":
		name = map[string]string{"do": "x.po", "po": "x.do"}[order]
	case "odd":
		name = "x.img"
	case "flag", "open":
		name = "x.dsk"
	}
	t.writeFile(name, oracleConvert(dos, "do", orderOf(order)))
	t.writeFile("source", nkData(1, 300))
	t.writeFile("big", nkData(2, 1200))
	var r c31Result
	for i := 0; i <= len(hist); i++ {
		if i == flip {
			to := map[string]string{"do": "po", "po": "do"}[order]
			u := ucmd{kind: "reorder", image: name, order: order, newOrder: to}
			_, err := u.either(t, tool)
			t.noErr(err, "%v", u)
			order = to
		}
		if i == len(hist) {
			break
		}
		u := hist[i]
		u.image = name
		if mode != "ext" && mode != "open" {
			u.order = order
		}
		out, err := u.either(t, tool)
		r.outs = append(r.outs, fmt.Sprintf("%s failed=%v", out, err != nil))
	}
	files := t.snapshot()
	img := []byte(files[name])
	if len(img) != floppy {
		t.Fail("the image has %d bytes after %v", len(img), hist)
	}
	r.raw = string(oracleConvert(img, orderOf(order), "do"))
	delete(files, name)
	r.other = fmt.Sprint(files)
	return r
}

func c31(c *Ctx) {
	put := func(n, src string, f bool) ucmd {
		return ucmd{kind: "put", ftype: "B", name: n, source: src, force: f}
	}
	writes := []ucmd{put("FIVE", "source", true), put("FIVE", "source", false), put("NEWNAME", "source", false), put("7:NEWNAME", "big", true), put("6", "big", false), put("BAD NAME", "source", false),
		{kind: "rm", name: "FIVE"}, {kind: "rm", name: "7", force: true}, {kind: "rm", name: "NOSUCH"}, {kind: "rm", name: "NOSUCH", force: true},
		{kind: "hello", name: "FIVE", addr: 0x6000, start: 0xFFFF}, {kind: "hello", name: "DF07:HELLO", addr: 0x2000, start: 0x2010}, {kind: "hello", name: "FIVE", addr: 0x6001, start: 0xFFFF}}
	reads := []ucmd{{kind: "ls"}, {kind: "ls", force: true}, {kind: "ls", name: "SUB"}, {kind: "ls", system: "dos3"}, {kind: "ls", system: "nakedos"}, {kind: "ls", system: "prodos"}, {kind: "ls", system: "prodos", name: "SUB"},
		{kind: "dump", name: "FIVE"}, {kind: "dump", name: "DF07"}, {kind: "dump", name: "NEWNAME"}, {kind: "dump", name: "HELLO"}, {kind: "dump", name: "FILE1"}, {kind: "dump", name: "ALPHA"}, {kind: "dump", name: "FILE3"}, {kind: "dump", name: "LONG"}, {kind: "dump", name: "APPLESOFT"}}
	all := append(append([]ucmd(nil), writes...), reads...)
	disks := floppies()
	isNak := func(i c21File) bool { return mapValid(oracleConvert(i.data, "do", "raw")) }
	check := func(t *T, d c21File, hist []ucmd, tool bool) {
		want := c31Run(t, d.data, "do", "ext", hist, -1, false)
		try := func(order, mode string, flip int) {
			if x := c31Run(t, d.data, order, mode, hist, flip, tool).differs(want); x != "" {
				t.Fail("%v on the disk in %s order (told by %s, reordered before command %d): %s", hist, order, mode, flip+1, x)
			}
		}
		try("po", "ext", -1)
		try("do", "flag", -1)
		try("po", "flag", -1)
		if !tool || c.Thorough() {
			try("do", "against", -1)
			try("po", "against", -1)
			try("do", "odd", -1)
			try("po", "odd", -1)
		}
		if isNak(d) {
			auto := true
			for _, u := range hist {
				auto = auto && (u.system == "" || u.system == "nakedos")
			}
			if auto {
				try("po", "open", -1)
				try("do", "open", -1)
			}
		}
		for flip := 0; flip <= len(hist); flip++ {
			try("do", "flag", flip)
			try("po", "flag", flip)
		}
	}
	c.Section("single commands", fmt.Sprintf("each of %d commands on each of %d floppies of every system, damaged and blank ones included, in both orders, by extension and by flag, and reordered before or after", len(all), len(disks)))
	for i, d := range disks {
		for j, u := range all {
			for _, tool := range []bool{false, true} {
				if tool && !c.Thorough() && (i+j)%3 != 0 {
					continue
				}
				c.Case(func(t *T) {
					check(t, d, []ucmd{u}, tool)
					t.State(hashString(1, fmt.Sprint(i, j)))
					t.Outcome("single")
				}, "%v on %s, tool %v", u, d.what, tool)
			}
		}
	}
	c.Section("histories", fmt.Sprintf("all pairs (thorough: triples) of %d writing commands followed by every read, on NakedOS disks, reordered at every point", len(writes)))
	bases := nkBases()
	for _, b := range []string{"tiny", "nost", "full", "numbers"} {
		d := c21File{"x.do", oracleConvert(bases[b].img, "raw", "do"), b}
		for x := range writes {
			for y := range writes {
				c.Case(func(t *T) {
					tail := []ucmd{{kind: "ls"}, {kind: "dump", name: "FIVE"}, {kind: "dump", name: "DF07"}, {kind: "dump", name: "DF01"}, {kind: "dump", name: "NEWNAME"}}
					check(t, d, append([]ucmd{writes[x], writes[y]}, tail...), false)
					t.State(hashString(2, fmt.Sprint(b, x, y)))
					if c.Thorough() {
						for _, z := range writes {
							check(t, d, append([]ucmd{writes[x], writes[y], z}, tail[:2]...), false)
						}
					}
					t.Outcome("history")
				}, "%s: %v; %v", b, writes[x], writes[y])
			}
		}
	}
	c.Section("made and copied disks", "disks made by mksd in each order and name, and every floppy copied to the other order by reorder: reorderings of each other, showing the same")
	for _, size := range []int{1, 255, 256, 257, 4096, 20000, 0x5F00} {
		for _, addr := range []int{0x900, 0x2000, 0x6000} {
			c.Case(func(t *T) {
				t.cleanScratch()
				t.writeFile("source", nkData(size, size))
				var first []byte
				for k, m := range []struct{ image, order, as string }{{"a.do", "", "do"}, {"a.dsk", "", "do"}, {"a", "do", "do"}, {"a.po", "", "po"}, {"b.dsk", "po", "po"}, {"b.do", "po", "po"}, {"b.po", "do", "do"}} {
					for _, tool := range []bool{false, true} {
						u := ucmd{kind: "sd", image: m.image, order: m.order, source: "source", addr: addr, start: 0xFFFF}
						_, err := u.either(t, tool)
						if size+addr > 0xC000 {
							if err == nil {
								t.Fail("%v succeeded", u)
							}
							continue
						}
						t.noErr(err, "%v", u)
						dos := oracleConvert(t.readFile(t.path(m.image)), orderOf(m.as), "do")
						if first == nil {
							first = dos
						}
						if !bytes.Equal(dos, first) {
							t.Fail("mksd to %s with order %q makes another disk than to a.do: %s", m.image, m.order, diffAt(dos, first))
						}
						t.State(hashInt(hashInt(hashInt(3, size), addr), k))
					}
				}
				t.Outcome("mksd")
			}, "mksd of %d bytes at %04X", size, addr)
		}
	}
	for i, d := range disks {
		for _, tool := range []bool{false, true} {
			c.Case(func(t *T) {
				t.cleanScratch()
				t.writeFile("x.do", d.data)
				for _, k := range []struct{ from, to string }{{"x.do", "y.po"}, {"y.po", "z.do"}, {"z.do", "w.po"}} {
					u := ucmd{kind: "reorder", image: k.from, output: k.to}
					_, err := u.either(t, tool)
					t.noErr(err, "%v", u)
				}
				t.mustEqual(t.readFile(t.path("z.do")), d.data, "reordered there and back")
				t.mustEqual(t.readFile(t.path("w.po")), t.readFile(t.path("y.po")), "reordered twice")
				for _, u := range reads {
					var first string
					for k, n := range []string{"x.do", "y.po", "z.do"} {
						u.image = n
						out, err := u.either(t, tool)
						s := fmt.Sprintf("%s failed=%v", out, err != nil)
						if k == 0 {
							first = s
						}
						if s != first {
							t.Fail("%v of the reordered copy answers %.120q, of the original %.120q", u, s, first)
						}
					}
				}
				t.State(hashInt(4, i))
				t.Outcome("copies")
			}, "%s, tool %v", d.what, tool)
		}
	}
}
