package main

import (
	"fmt"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C28"] = prop{run: c28, level: "model_checking", assum: []string{
		"error messages may differ; whether there is an error, the output and the files may not",
		"an order that changes at random from run to run is seen with eight runs of each request",
	}}
	props["C29"] = prop{run: c29, level: "model_checking", assum: []string{
		"a later version that implements an operation would change the statement",
	}}
}

// ---- C28: no hidden state

func c28Requests() []ucmd {
	return []ucmd{
		{kind: "put", ftype: "B", name: "FIVE", source: "source"}, {kind: "put", ftype: "B", name: "FIVE", source: "source", force: true}, {kind: "put", ftype: "B", name: "NEWNAME", source: "source"}, {kind: "put", ftype: "B", name: "7:NEWNAME", source: "big", force: true},
		{kind: "put", ftype: "NOPE", name: "NEWNAME", source: "source"}, {kind: "put", ftype: "B", name: "NEWNAME", source: "source", order: "po"},
		{kind: "rm", name: "FIVE"}, {kind: "rm", name: "NOSUCH"}, {kind: "rm", name: "seven7", force: true},
		{kind: "hello", name: "FIVE", addr: 0x6000, start: 0xFFFF}, {kind: "hello", name: "7", addr: 0x2000, start: 0x2010}, {kind: "hello", name: "FIVE", addr: 0x6001, start: 0xFFFF},
		{kind: "sd", source: "source", addr: 0x6000, start: 0xFFFF}, {kind: "sd", source: "source", addr: 0x900, start: 0x901, order: "po"}, {kind: "sd", source: "big", addr: 0x6000, start: 0xFFFF},
		{kind: "reorder"}, {kind: "reorder", newOrder: "po"}, {kind: "reorder", order: "po", output: "y.do", force: true}, {kind: "reorder", output: "new.po"}, {kind: "reorder", output: "-", newOrder: "do"},
		{kind: "ls"}, {kind: "ls", order: "po", force: true}, {kind: "ls", order: "do"}, {kind: "ls", system: "nakedos"}, {kind: "ls", system: "prodos"}, {kind: "ls", system: "prodos", name: "SUB"}, {kind: "ls", name: "SUB"}, {kind: "ls", name: "WEST/SUB"}, {kind: "ls", system: "dos3"},
		{kind: "dump", name: "FIVE"}, {kind: "dump", name: "DF07"}, {kind: "dump", name: "ALPHA"}, {kind: "dump", name: "NOSUCH"}, {kind: "dump", name: "ALPHA", order: "do"},
		{kind: "decode", addr: 0x801}, {kind: "decode", addr: 0x801, force: true}, {kind: "filetypes"}, {kind: "filetypes", force: true},
	}
}

type c28Result struct {
	out    string
	failed bool
	files  map[string]string
}

func (r c28Result) differs(w c28Result) string {
	switch {
	case r.failed != w.failed:
		return fmt.Sprintf("failed=%v, by itself failed=%v", r.failed, w.failed)
	case r.out != w.out:
		return "its output differs: " + diffAt([]byte(r.out), []byte(w.out))
	}
	if d := snapDiff(w.files, r.files); d != "" {
		return "against a run by itself, " + d
	}
	return ""
}

func c28Setup(t *T, img c21File) {
	c21Setup(t, img, nkData(1, 300), "y.do")
	t.writeFile("big", nkData(2, 1200))
}

func c28Run(t *T, img c21File, u ucmd, tool bool) c28Result {
	c28Setup(t, img)
	u.image = strings.TrimSuffix(img.name, "/")
	if u.kind == "decode" && img.what == "text" {
		u.image = "prog"
		t.writeFile("prog", c25Program(3))
	}
	var out []byte
	var err error
	if tool {
		out, err = u.tool(t, nil)
	} else {
		out, err = t.withStdout([]byte{}, func() error { return u.in(t) })
	}
	return c28Result{out: string(out), failed: err != nil, files: t.snapshot()}
}

func c28(c *Ctx) {
	var images []c21File
	keep := map[string]bool{"NakedOS": true, "NakedOS, few numbers": true, "NakedOS without symbol table": true, "DOS 3.3": true, "ProDOS": true, "ProDOS hard disk": true, "blank": true, "text": true, "missing": true, "one byte short": true, "NakedOS, full symbol table": true}
	for _, i := range c21Images() {
		if keep[i.what] {
			images = append(images, i)
		}
	}
	aliases := nkMake("aliases", []int{15, 16}, 0xfe, map[byte][]int{5: {13}, 7: {14}}, map[int]nkSym{
		1: {addr: 0xdf05, name: "FIVE"}, 2: {addr: 0xdf05, name: "CINQ"}, 9: {addr: 0xdf05, name: "FUENF"}, 12: {addr: 0xdf07, name: "SEVEN7"}, 13: {addr: 0xdf07, name: "SEPT"}}, true)
	images = append(images, c21File{"x.dsk", oracleConvert(aliases.img, "raw", "do"), "NakedOS, aliases"})
	al := &proAlloc{n: 280}
	same := rootDir(al, 1)
	for i, n := range []string{"EAST", "WEST", "NORTH"} {
		inner := &pDir{blocks: al.take(1), entries: map[int]*pEntry{0: fileEntry(3 + i)}}
		outer := &pDir{blocks: al.take(1), entries: map[int]*pEntry{0: subEntry("SUB", inner)}}
		same.entries[i] = subEntry(n, outer)
	}
	images = append(images, c21File{"x.po", proImage(280, same), "ProDOS, equal names"})
	reqs := c28Requests()
	c.Section("repeats", "every request on every image, eight times in one process, against one run of the built tool")
	for _, img := range images {
		for _, u := range reqs {
			c.Case(func(t *T) {
				want := c28Run(t, img, u, true)
				for k := 0; k < 8; k++ {
					if d := c28Run(t, img, u, false).differs(want); d != "" {
						t.Fail("%v, run %d: %s", u, k, d)
					}
				}
				t.State(hashString(1, fmt.Sprint(u, img.what, img.name)))
				t.Outcome("%s failed=%v", u.kind, want.failed)
			}, "%v on %s (%s)", u, img.what, img.name)
		}
	}
	c.Section("pairs", fmt.Sprintf("every ordered pair of %d requests, the first on one image, the second on the same or another: the second answers as by itself in a fresh process", len(reqs)))
	ref := map[string]c28Result{}
	for i, a := range images {
		for j, b := range images {
			if !(i == j || c.Thorough() || j == (i+1)%len(images) || j == (i+5)%len(images)) {
				continue
			}
			for _, u := range reqs {
				c.Case(func(t *T) {
					for _, v := range reqs {
						key := fmt.Sprint(v, b.what, b.name)
						want, ok := ref[key]
						if !ok {
							want = c28Run(t, b, v, true)
							ref[key] = want
						}
						c28Run(t, a, u, false)
						if d := c28Run(t, b, v, false).differs(want); d != "" {
							t.Fail("%v on %s after %v on %s: %s", v, b.what, u, a.what, d)
						}
						t.State(hashString(2, fmt.Sprint(u, v, a.what, a.name, b.what, b.name)))
					}
					t.Outcome("pairs")
				}, "%v on %s (%s), then each on %s (%s)", u, a.what, a.name, b.what, b.name)
			}
		}
	}

	c.Section("interleaved operators", "two operators open at once, each with every pair of operations, every interleaving: each disk ends as if the other were not there")
	ops := cat(puts([]string{"5", "AAA", "DF05:bbb"}, []int{1, 600}, []bool{true}), dels("5", "FIVE", "NOSUCH"), []nkOp{reopenOp})
	bases := nkBases()
	pairOf := func(n int) [2]nkOp { return [2]nkOp{ops[n/len(ops)], ops[n%len(ops)]} }
	digest := func(r *nkRun) string {
		s := fmt.Sprint(hashBytes(3, r.op.GetBytes()), r.op.SM, r.op.ST)
		l, err := r.op.Catalog("")
		s += fmt.Sprint(l, err)
		for _, n := range []string{"5", "7", "AAA", "FIVE", "BBB"} {
			fi, err := r.op.GetFile(n)
			s += fmt.Sprint(hashBytes(4, fi.Data), fi.Descriptor, err)
		}
		return s
	}
	type pair struct{ a, b string }
	for _, p := range []pair{{"tiny", "tiny"}, {"tiny", "full"}, {"nost", "tiny"}, {"numbers", "almost"}} {
		alone := map[int]string{}
		aloneB := map[int]string{}
		for x := 0; x < len(ops)*len(ops); x++ {
			c.Case(func(t *T) {
				single := func(base string, n int, memo map[int]string) string {
					if s, ok := memo[n]; ok {
						return s
					}
					r := bases[base].run(t)
					for _, o := range pairOf(n) {
						_, _ = r.call(o)
					}
					memo[n] = digest(r)
					return memo[n]
				}
				wa := single(p.a, x, alone)
				for y := 0; y < len(ops)*len(ops); y++ {
					wb := single(p.b, y, aloneB)
					for _, order := range []string{"abab", "abba", "baab"} {
						if order != "abab" && (x+y)%3 != 0 && !c.Thorough() {
							continue
						}
						ra, rb := bases[p.a].run(t), bases[p.b].run(t)
						na, nb := 0, 0
						for _, who := range order {
							if who == 'a' {
								_, _ = ra.call(pairOf(x)[na])
								na++
							} else {
								_, _ = rb.call(pairOf(y)[nb])
								nb++
							}
						}
						if digest(ra) != wa || digest(rb) != wb {
							t.Fail("%s: %v on one disk and %v on another in the order %s disturb each other", p.a+"/"+p.b, pairOf(x), pairOf(y), order)
						}
					}
					t.State(hashString(hashInt(hashInt(5, x), y), p.a+p.b))
				}
				t.Outcome("interleaved")
			}, "%s and %s, operations %v", p.a, p.b, pairOf(x))
		}
	}
	c.Section("shared readers", "DOS 3.3 and ProDOS operators over several disks, every order of listing and getting from three of them twice")
	disks := c03Disks()
	for i := range disks {
		for j := range disks {
			c.Case(func(t *T) {
				for k := range disks {
					var opers []types.Operator
					var first []string
					for _, n := range []int{i, j, k} {
						d := disks[n]
						op, _, err := disk.OpenImage(clone(d.logical), "x", systemOrder[d.system], d.system, factories(), t.debug())
						if d.system == "nakedos" {
							op, _, err = disk.OpenImage(oracleConvert(d.logical, "raw", "do"), "x.do", "do", d.system, factories(), t.debug())
						}
						t.noErr(err, "opening %s", d.what)
						opers = append(opers, op)
					}
					look := func(op types.Operator) string {
						l, err := op.Catalog("")
						t.Step()
						s := fmt.Sprint(l, err)
						for m := 0; m < 2 && m < len(l); m++ {
							fi, err := op.GetFile(l[m].Name)
							s += fmt.Sprint(hashBytes(6, fi.Data), fi.Descriptor, err)
						}
						return s
					}
					for _, op := range opers {
						first = append(first, look(op))
					}
					for n := len(opers) - 1; n >= 0; n-- {
						if look(opers[n]) != first[n] {
							t.Fail("the answers of %s change after looking at %s, %s and %s", disks[[]int{i, j, k}[n]].what, disks[i].what, disks[j].what, disks[k].what)
						}
					}
					t.State(hashInt(hashInt(hashInt(7, i), j), k))
				}
				t.Outcome("readers")
			}, "%s and %s with every third", disks[i].what, disks[j].what)
		}
	}
	c.Section("many open at once", "48 images of every kind opened one after the other, by name or automatically, from each starting point, with writing, writing back and reordering between: all those already open keep their bytes and answers")
	for start := 0; start < 2*len(disks); start++ {
		for busy := 0; busy < 3; busy++ {
			c.Case(func(t *T) {
				t.cleanScratch()
				type held struct {
					op    types.Operator
					order types.DiskOrder
					what  string
					bytes []byte
					list  string
				}
				var open []*held
				look := func(h *held) string {
					l, err := h.op.Catalog("")
					s := fmt.Sprint(l, err == nil)
					if len(l) > 0 {
						fi, err := h.op.GetFile(l[len(l)/2].Name)
						s += fmt.Sprint(hashBytes(6, fi.Data), fi.Descriptor, err == nil)
					}
					t.Steps(2)
					return s
				}
				for n := 0; n < 48; n++ {
					d := disks[(start+n)%len(disks)]
					system := d.system
					if (start+n)/len(disks)%2 == 1 {
						system = "auto"
					}
					order := []types.DiskOrder{"do", "po"}[n/3%2]
					raw := oracleConvert(d.logical, systemOrder[d.system], order)
					op, _, err := disk.OpenImage(raw, "x."+string(order), "auto", system, factories(), t.debug())
					t.noErr(err, "opening %s", d.what)
					h := &held{op: op, order: order, what: d.what}
					open = append(open, h)
					if busy > 0 && d.system == "nakedos" {
						_, _ = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF09", Length: 300, Type: types.FiletypeBinary}, Data: nkData(n, 300)}, true)
						t.Step()
					}
					h.bytes, h.list = clone(op.GetBytes()), look(h)
					if busy > 1 {
						e := open[(n*7+start)%len(open)]
						t.noErr(disk.WriteBack(t.path("w.dsk"), e.op, e.order, true), "writing back %s", e.what)
						t.mustEqual(t.readFile(t.path("w.dsk")), oracleConvert(e.bytes, e.op.DiskOrder(), e.order), "%s written back", e.what)
						t.Step()
					}
					for m, e := range open {
						t.mustEqual(e.op.GetBytes(), e.bytes, "image %d (%s) after opening image %d (%s)", m, e.what, n, d.what)
						if (m+n)%4 == 0 && look(e) != e.list {
							t.Fail("the answers of image %d (%s) change after opening image %d (%s)", m, e.what, n, d.what)
						}
					}
				}
				t.State(hashInt(hashInt(10, start), busy))
				t.Outcome("many")
			}, "from disk %d, kind %d", start, busy)
		}
	}
	c.Section("near copies", "a disk of each kind and the same with one of its 560 sectors changed, one listed and dumped after the other in one process, both ways round: each answers as by itself in a fresh process")
	near := []struct {
		img  c21File
		name string
	}{}
	for _, i := range images {
		switch i.what {
		case "NakedOS":
			near = append(near, struct {
				img  c21File
				name string
			}{i, "FIVE"})
		case "DOS 3.3":
			near = append(near, struct {
				img  c21File
				name string
			}{i, "ALPHA"})
		case "ProDOS":
			near = append(near, struct {
				img  c21File
				name string
			}{i, "SUB"})
		}
	}
	for _, e := range near {
		if len(e.img.data) != floppy {
			continue
		}
		reqs := []ucmd{{kind: "ls"}, {kind: "dump", name: e.name}}
		if e.img.what == "ProDOS" {
			reqs[1] = ucmd{kind: "ls", name: e.name}
		}
		var want [2]*c28Result
		for s := 0; s < nSectors; s++ {
			c.Case(func(t *T) {
				other := e.img
				other.data = clone(e.img.data)
				for i := range other.data[s*256 : s*256+256] {
					if (s+i)%3 == 0 || other.data[s*256+i] != 0 && i%2 == 0 {
						other.data[s*256+i] ^= byte(1 + i%3)
					}
				}
				for n, u := range reqs {
					if want[n] == nil {
						r := c28Run(t, e.img, u, true)
						want[n] = &r
					}
					mine := c28Run(t, other, u, true)
					c28Run(t, e.img, u, false)
					if d := c28Run(t, other, u, false).differs(mine); d != "" {
						t.Fail("%v with sector %d changed, after the same on the unchanged disk: %s", u, s, d)
					}
					if d := c28Run(t, e.img, u, false).differs(*want[n]); d != "" {
						t.Fail("%v after the same on the disk with sector %d changed: %s", u, s, d)
					}
					t.State(hashString(hashInt(11, s), fmt.Sprint(e.img.what, e.img.name, n)))
				}
				t.Outcome("near copies")
			}, "%s (%s), sector %d", e.img.what, e.img.name, s)
		}
	}

	c.Section("private data", "everything an operator returns overwritten by its caller, and files put from part of another open image, of every length to 1100: neither changes another answer or another image")
	for i := range disks {
		c.Case(func(t *T) {
			d := disks[i]
			stored := clone(d.logical)
			if d.system == "nakedos" {
				stored = oracleConvert(d.logical, "raw", "do")
			}
			name, order := "x", systemOrder[d.system]
			if d.system == "nakedos" {
				name, order = "x.do", "do"
			}
			op, _, err := disk.OpenImage(stored, name, order, d.system, factories(), t.debug())
			t.noErr(err, "opening")
			kept := clone(op.GetBytes())
			l, err := op.Catalog("")
			first := fmt.Sprint(l, err)
			for m := range l {
				fi, err := op.GetFile(l[m].Name)
				was := fmt.Sprint(fi, err)
				for b := range fi.Data {
					fi.Data[b] ^= 0x55
				}
				t.mustEqual(op.GetBytes(), kept, "changing what was got changed the disk")
				again, err2 := op.GetFile(l[m].Name)
				if fmt.Sprint(again, err2) != was {
					t.Fail("getting %q again after changing what was got gives something else", l[m].Name)
				}
				t.Steps(2)
			}
			for m := range l {
				l[m] = types.Descriptor{}
			}
			l2, err2 := op.Catalog("")
			if fmt.Sprint(l2, err2) != first {
				t.Fail("the listing changes when its caller changes the one it was given")
			}
			t.State(hashInt(8, i))
			t.Outcome("results")
		}, "%s", disks[i].what)
	}
	for n := 1; n <= 1100; n++ {
		c.Case(func(t *T) {
			a := nkOpen(t, clone(bases["numbers"].img))
			bb := bases["tiny"].run(t)
			src := a.GetBytes()
			kept := clone(src)
			at := (n * 37) % 5000
			_, _ = bb.op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF05", Length: n, Type: types.FiletypeBinary}, Data: src[at : at+n]}, true)
			t.Step()
			t.mustEqual(src, kept, "putting %d bytes of one image on another changed the first", n)
			after := clone(bb.op.GetBytes())
			for k := range src {
				src[k] ^= 0xff
			}
			t.mustEqual(bb.op.GetBytes(), after, "changing the source after the put changed the disk")
			t.State(hashInt(9, n))
			t.Outcome("sources")
		}, "%d bytes", n)
	}
}

// ---- C29: what a system does not support is refused

func c29(c *Ctx) {
	names := []string{"ALPHA", "HELLO", "NOSUCH", "", "5", "DF05", "DF05:ALPHA", "SUB", "SUB/INNER", "A NAME WITH BLANKS", strings.Repeat("X", 40), "/", ".", "..", "*"}
	type subject struct {
		what string
		img  []byte
		mk   func([]byte) (types.Operator, error)
		pro  bool
	}
	mkDos := func(b []byte) (types.Operator, error) { return dos3.OperatorFactory{}.Operator(b, 0) }
	mkPro := func(b []byte) (types.Operator, error) { return prodos.OperatorFactory{}.Operator(b, 0) }
	var subjects []subject
	for _, d := range c03Disks() {
		switch d.system {
		case "dos3":
			subjects = append(subjects, subject{d.what, d.logical, mkDos, false})
		case "prodos":
			subjects = append(subjects, subject{d.what, d.logical, mkPro, true})
		}
	}
	big := &pDir{name: "BIG", blocks: []int{2, 3}, entries: map[int]*pEntry{0: {storage: 1, name: "HELLO", ftype: 6, used: 1, eof: 9, key: 10}}}
	subjects = append(subjects, subject{"a ProDOS device", proImage(1600, big), mkPro, true}, subject{"a blank disk as ProDOS", make([]byte, floppy), mkPro, true}, subject{"a blank disk as DOS", make([]byte, floppy), mkDos, false})
	c.Section("operators", "put and delete on DOS 3.3 and ProDOS disks, get on ProDOS disks: every name, type, size and flag is an error and changes nothing")
	for _, s := range subjects {
		for _, n := range names {
			c.Case(func(t *T) {
				img := clone(s.img)
				op, err := s.mk(img)
				t.noErr(err, "opening")
				all := append([]string{n}, "")
				if l, err := op.Catalog(""); err == nil {
					for _, d := range l {
						all = append(all, d.Name)
					}
				}
				for _, name := range all {
					if s.pro {
						fi, err := op.GetFile(name)
						t.Step()
						if err == nil {
							t.Fail("%s: get %q succeeded with %d bytes, but reading is not supported", s.what, name, len(fi.Data))
						}
					}
					_, err := op.Delete(name)
					t.Step()
					if err == nil {
						t.Fail("%s: delete %q succeeded, but deleting is not supported", s.what, name)
					}
					for _, size := range []int{0, 1, 256, 600} {
						for _, ty := range []types.Filetype{types.FiletypeBinary, types.FiletypeASCIIText, types.FiletypeApplesoftBASIC, 0} {
							for _, ow := range []bool{false, true} {
								_, err := op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: size, Type: ty}, Data: nkData(1, size), StartAddress: 0x800}, ow)
								t.Step()
								if err == nil {
									t.Fail("%s: put %q (%d bytes, type %02X, overwrite %v) succeeded, but writing is not supported", s.what, name, size, int(ty), ow)
								}
							}
						}
					}
				}
				t.mustEqual(img, s.img, "%s after refused operations", s.what)
				t.State(hashString(hashString(1, s.what), n))
				t.Outcome("refused")
			}, "%s, %q", s.what, n)
		}
	}
	c.Section("DOS file types", "every file type byte: contents come back for text, BASIC and binary files, locked or not, and every other type is an error")
	for ty := 0; ty < 256; ty++ {
		c.Case(func(t *T) {
			for _, size := range []int{0, 1, 252, 1000} { // sizes of files that cannot be read
				switch ty & 0x7f {
				case 0, 1, 2, 4:
					continue
				}
				var secs [][]byte
				if size > 0 {
					secs = sectorsOf(stored(4, 0x300, body(1, size), 0))
				}
				f := &dfile{name: "F", ty: byte(ty), secs: secs}
				next := 0
				f.place(spots(0), &next, true)
				if fi, err := dosGet(t, dosDisk([]*dfile{f}, nil, nil), "F"); err == nil {
					t.Fail("get of a file of type %02X with %d sectors returned %d bytes; only text, BASIC and binary files can be read", ty, len(secs), len(fi.Data))
				}
			}
			f := &dfile{name: "F", ty: byte(ty), secs: sectorsOf(stored(byte(ty)&0x7f, 0x300, body(1, 200), 0))}
			next := 0
			f.place(spots(0), &next, true)
			img := dosDisk([]*dfile{f}, nil, nil)
			fi, err := dosGet(t, img, "F")
			switch ty & 0x7f {
			case 0, 1, 2, 4:
				t.noErr(err, "get of a file of type %02X", ty)
				t.Outcome("read")
			default:
				if err == nil {
					t.Fail("get of a file of type %02X returned %d bytes; only text, BASIC and binary files can be read", ty, len(fi.Data))
				}
				t.Outcome("refused")
			}
			t.State(hashInt(2, ty))
		}, "type %02X", ty)
	}
	c.Section("commands", "the same requests through the commands and the built tool: put, rm, dump, mkhello and ls of a directory, on every disk of a system without them, in both orders")
	var reqs []ucmd
	for _, n := range names {
		if n == "" {
			continue
		}
		for _, f := range []bool{false, true} {
			reqs = append(reqs, ucmd{kind: "put", ftype: "B", name: n, source: "source", force: f}, ucmd{kind: "put", ftype: "T", name: n, source: "source", force: f}, ucmd{kind: "rm", name: n, force: f})
		}
		reqs = append(reqs, ucmd{kind: "dump", name: n}, ucmd{kind: "hello", name: n, addr: 0x6000, start: 0xFFFF}, ucmd{kind: "ls", name: n}, ucmd{kind: "ls", name: n, force: true})
	}
	var all []knownDisk
	all = append(all, c03Disks()...)
	for _, d := range all {
		for _, o := range []types.DiskOrder{"do", "po"} {
			for _, u := range reqs {
				switch {
				case u.kind == "dump" && d.system != "prodos", u.kind == "ls" && d.system == "prodos":
					continue
				case d.system == "nakedos" && u.kind != "ls":
					continue
				}
				for _, tool := range []bool{false, true} {
					if tool && u.name != "ALPHA" && u.name != "DF05" && u.name != "SUB" {
						continue
					}
					c.Case(func(t *T) {
						t.cleanScratch()
						u.image = "x." + string(o)
						t.writeFile(u.image, oracleConvert(d.logical, systemOrder[d.system], o))
						t.writeFile("source", nkData(1, 300))
						before := t.snapshot()
						var err error
						if tool {
							_, err = u.tool(t, nil)
						} else {
							_, err = t.withStdout(nil, func() error { return u.in(t) })
						}
						if err == nil {
							t.Fail("%v on %s succeeded, but %s does not support it", u, d.what, d.system)
						}
						if df := snapDiff(before, t.snapshot()); df != "" {
							t.Fail("%v on %s was refused, but %s", u, d.what, df)
						}
						t.State(hashString(3, fmt.Sprint(u, d.what, o, tool)))
						t.Outcome("refused %s", u.kind)
					}, "%v on %s in %s order, tool %v", u, d.what, o, tool)
				}
			}
		}
	}
}
