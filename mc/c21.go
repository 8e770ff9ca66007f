package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
)

func init() {
	props["C21"] = prop{run: c21, level: "model_checking", assum: []string{
		"files are compared by name, kind and content; times and modes are not judged",
		"what a successful command writes into its own output is judged by C01, C20 and C22; here only which files change, and that a put without -f leaves the files already on the disk as they were",
		"a request refused by the flag parser counts as refused",
	}}
}

// kind of file an image argument can name.
type c21File struct {
	name string
	data []byte // nil: a directory ("/" at the end of name) or missing
	what string
}

func c21Images() []c21File {
	bases := nkBases()
	as := func(k, order string) []byte { return oracleConvert(bases[k].img, "raw", orderOf(order)) }
	dos := dosBase(0)
	pro := c22Pro()
	bad := as("tiny", "do")
	// A link in the symbol table that leads out of it.
	raw := clone(bases["tiny"].img)
	owner := nkMap(raw)
	for s := range owner {
		if owner[s] == 3 {
			raw[s*256+2], raw[s*256+3] = 0xFF, 0xFF
			break
		}
	}
	badST := oracleConvert(raw, "raw", "do")
	// What no file owns is blank.
	blank := clone(bases["tiny"].img)
	for i := range blank {
		if owner[i/256] >= 0xfe && (i < 0x9d0 || i >= 0xc00) {
			blank[i] = 0
		}
	}
	fill := func(n int, b byte) []byte {
		x := make([]byte, n)
		for i := range x {
			x[i] = b
		}
		return x
	}
	hdv := append(clone(pro), zeros(512)...)
	return []c21File{
		{"x.dsk", as("tiny", "do"), "NakedOS"}, {"x.po", as("tiny", "po"), "NakedOS"}, {"x", as("tiny", "do"), "NakedOS"},
		{"x.do", as("nost", "do"), "NakedOS without symbol table"}, {"x.dsk", as("full", "do"), "NakedOS, full symbol table"},
		{"x.dsk", as("numbers", "do"), "NakedOS, few numbers"}, {"x.dsk", as("loose", "do"), "NakedOS, a name that cannot be written back"},
		{"x.dsk", badST, "NakedOS, damaged symbol table"}, {"x.img", as("tiny", "do"), "NakedOS"}, {"x.do", as("tiny", "po"), "NakedOS under the wrong extension"},
		{"x.dsk", oracleConvert(blank, "raw", "do"), "blank NakedOS"}, {"x", oracleConvert(blank, "raw", "po"), "blank NakedOS"},
		{"x.dsk", dos, "DOS 3.3"}, {"x.po", oracleConvert(dos, "do", "po"), "DOS 3.3"},
		{"x.po", pro, "ProDOS"}, {"x.dsk", oracleConvert(pro, "po", "do"), "ProDOS"}, {"x.hdv", hdv, "ProDOS hard disk"},
		{"x.dsk", make([]byte, floppy), "blank"}, {"x.po", fill(floppy, 0xFF), "all ones"}, {"x.hdv", make([]byte, 1024), "blank hard disk"},
		{"x.dsk", bad[:floppy-1], "one byte short"}, {"x.dsk", append(clone(bad), 0), "one byte long"}, {"x.dsk", bad[:35*13*256], "13 sectors"},
		{"x.hdv", bad[:1000], "odd hard disk"}, {"x.dsk", []byte{}, "empty"}, {"x.txt", []byte("hello\n"), "text"},
		{"x.dsk", nil, "missing"}, {"x.dsk/", nil, "a directory"},
	}
}

// otherCase is the name in the other case, if it has one.
func otherCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

// c21Setup lays out the scratch directory.
func c21Setup(t *T, img c21File, source []byte, output string) {
	t.cleanScratch()
	switch {
	case strings.HasSuffix(img.name, "/"):
		t.writeFile(img.name+"inner", []byte("inner"))
	case img.data != nil:
		t.writeFile(img.name, img.data)
	}
	if source != nil {
		t.writeFile("source", source)
	}
	t.writeFile("bystander.dsk", []byte("bystander"))
	t.bystanders(strings.TrimSuffix(img.name, "/"))
	if output != "" {
		t.writeFile(output, []byte("an existing output"))
		t.bystanders(output)
	}
}

// bystanders are files with names that a command might use for itself.
func (t *T) bystanders(name string) {
	for _, e := range []string{".tmp", ".bak", "~", ".new"} {
		t.writeFile(name+e, []byte("another file "+e))
	}
}

// c21Existing are further contents an existing output may have.
func c21Existing(img c21File) [][]byte {
	return [][]byte{{}, img.data, make([]byte, floppy), make([]byte, floppy+1)}
}

// c21Judge runs the command and compares the files before and after.
func c21Judge(t *T, u ucmd, tool bool, stdin []byte) string {
	before := t.snapshot()
	var err error
	if tool {
		_, err = u.tool(t, stdin)
	} else {
		if stdin == nil {
			stdin = []byte{}
		}
		_, err = t.withStdout(stdin, func() error { return u.in(t) })
	}
	after := t.snapshot()
	if err != nil {
		if d := snapDiff(before, after); d != "" {
			t.Fail("%v failed (%v), but %s", u, err, d)
		}
		return "refused"
	}
	if u.reading() {
		if d := snapDiff(before, after); d != "" {
			t.Fail("%v only reads, but %s", u, d)
		}
		return "read"
	}
	target := u.image
	if u.kind == "reorder" && u.output != "" {
		target = u.output
		if _, ok := before[target]; ok && !u.force && target != u.image {
			t.Fail("%v succeeded although %q exists and force is not given", u, target)
		}
	}
	if u.kind == "put" && !u.force && target != "-" {
		c21Kept(t, u, []byte(before[target]), []byte(after[target]))
	}
	if target != "-" {
		if _, ok := after[target]; !ok {
			t.Fail("%v succeeded without leaving %q", u, target)
		}
		delete(before, target)
		delete(after, target)
	}
	if d := snapDiff(before, after); d != "" {
		t.Fail("%v succeeded, but besides its output %s", u, d)
	}
	return "done"
}

// c21Kept fails a put that was not told to overwrite and yet did: a file that
// the disk held has other sectors or other bytes. The order is the one asked
// for, or, where that was left open, either.
func c21Kept(t *T, u ucmd, before, after []byte) {
	if len(before) != floppy || len(after) != floppy {
		return
	}
	orders := []string{u.order}
	if u.order != "do" && u.order != "po" {
		orders = []string{"do", "po"}
	}
	lost := byte(0)
	for _, o := range orders {
		was, is := oracleConvert(before, orderOf(o), "raw"), oracleConvert(after, orderOf(o), "raw")
		had, has := nkMap(was), nkMap(is)
		lost = 0
		for s, f := range had {
			switch g := has[s]; {
			case f == 3 || f == 4 || g == 3 || g == 4: // the symbol table
			case g != f && g != 0 && g < 0xFE && bytes.IndexByte(had[:], g) >= 0:
				lost = g // an existing file was given another sector
			case f == 0 || f >= 0xFE:
			case g != f, !bytes.Equal(was[s*256:s*256+256], is[s*256:s*256+256]):
				lost = f
			}
		}
		if lost == 0 {
			return
		}
	}
	t.Fail("%v succeeded without being told to overwrite, but file DF%02X was on the disk and is no longer what it was", u, lost)
}

func c21(c *Ctx) {
	images := c21Images()
	orders := []string{"auto", "do", "po"}
	systems := []string{"auto", "dos3"}
	bools := []bool{false, true}
	names := []string{"FIVE", "seven7", "STALE", "NOTFILE", "NEWNAME", "DF07", "6", "DF06:NEWNAME", "DF07:FIVE", "5:STALE", "", ":", "5:", ":X", "1:2:3", "BAD NAME", "TOOLONG9", "1", "3", "DFFE", "ALPHA"}
	// nil: the source does not exist
	sources := [][]byte{nkData(1, 1), nkData(2, 300), {}, nkData(3, 6*256), nkData(4, 7*256), nkData(5, 6*256+1), nkData(6, 20000), nkData(7, floppy+1), nil}
	types := []string{"B", "T", "BIN", "", "NOPE", "Text", "\x00"}

	run := func(img c21File, u ucmd, source []byte, output string, tool bool) {
		c.Case(func(t *T) {
			c21Setup(t, img, source, output)
			if source != nil && u.source != "" && u.source != "source" {
				t.writeFile(u.source, source)
			}
			u.image = strings.TrimSuffix(img.name, "/")
			t.outcome = u.kind + " " + c21Judge(t, u, tool, nil)
			t.State(hashString(1, fmt.Sprint(u, img.what, len(source), output)))
		}, "%v on %s (%s, %d bytes), source %d bytes, output exists %v, tool %v", u, img.what, img.name, len(img.data), len(source), output != "", tool)
	}

	c.Section("put", "every image × order × system × name × source × overwrite; × load address; × file type")
	for _, img := range images {
		for _, o := range orders {
			for _, name := range names {
				for i, src := range sources {
					for _, f := range bools {
						sys := systems
						if !c.Thorough() && i != 1 {
							sys = sys[:1]
						}
						for _, s := range sys {
							u := ucmd{kind: "put", order: o, system: s, ftype: "B", name: name, source: "source", force: f, addr: 0x6000}
							run(img, u, src, "", false)
						}
					}
				}
			}
		}
		for _, ft := range types {
			for _, name := range []string{"FIVE", "NEWNAME", "6"} {
				for _, f := range bools {
					run(img, ucmd{kind: "put", order: "auto", ftype: ft, name: name, source: "source", force: f, debug: 2}, sources[1], "", false)
				}
			}
		}
		for _, at := range []int{0, 0x801, 0x2000, 0x6001, 0xFFFF} {
			for _, name := range names {
				for _, f := range bools {
					run(img, ucmd{kind: "put", order: "auto", ftype: "B", name: name, source: "source", force: f, addr: at}, sources[1], "", false)
				}
			}
		}
		for _, name := range []string{"FIVE", "DF07", "6", "NEWNAME"} {
			for _, f := range bools {
				run(img, ucmd{kind: "put", order: "auto", ftype: "B", name: name, source: name, force: f}, sources[1], "", false)
			}
		}
		// The image itself as the source.
		for _, f := range bools {
			run(img, ucmd{kind: "put", ftype: "B", name: "NEWNAME", source: strings.TrimSuffix(img.name, "/"), force: f}, nil, "", false)
		}
	}
	c.Section("rm and dump", "every image × order × system × name × -f")
	for _, img := range images {
		for _, o := range orders {
			for _, s := range systems {
				for _, name := range append(names, "DF05", "DF55", "4", "ALPHA,BETA") {
					for _, dbg := range []int{0, 2} {
						run(img, ucmd{kind: "rm", order: o, system: s, name: name, debug: dbg}, nil, "", false)
						run(img, ucmd{kind: "rm", order: o, system: s, name: name, force: true, debug: dbg}, nil, "", false)
						run(img, ucmd{kind: "dump", order: o, system: s, name: name, debug: dbg}, nil, "", false)
					}
				}
			}
		}
	}
	c.Section("mkhello", "every image × order × name × address × start")
	for _, img := range images {
		for _, o := range orders {
			for _, name := range names {
				for _, a := range [][2]int{{0x6000, 0xFFFF}, {0x2000, 0x2100}, {0x2001, 0xFFFF}, {0x2000, 0x1FFF}, {0, 0}, {0xFF00, 0xFFFF}} {
					run(img, ucmd{kind: "hello", order: o, name: name, addr: a[0], start: a[1]}, nil, "", false)
				}
			}
		}
	}
	c.Section("mksd", "every image present at the output × order × source × address × start")
	for _, img := range images {
		for _, o := range orders {
			for _, src := range append(sources, nkData(8, 0x5F00), nkData(9, 0xB700)) {
				for _, a := range [][2]int{{0x6000, 0xFFFF}, {0x2000, 0x2100}, {0x2001, 0xFFFF}, {0x2000, 0x1FFF}, {0x0900, 0xFFFF}, {0xBF00, 0xFFFF}, {0xC000, 0xC000}, {0x6000, 0x6001}, {0x6000, 0x7800}} {
					run(img, ucmd{kind: "sd", order: o, source: "source", addr: a[0], start: a[1]}, src, "", false)
				}
			}
		}
	}
	c.Section("reorder", "every image × order × new order × output name, present (text, empty, a copy, other images) or not × -f")
	for _, img := range images {
		for _, o := range orders {
			for _, n := range orders {
				for _, out := range []string{"", "y.po", "y.dsk", "y", "sub/y.po", "no/such/dir/y.po", "bystander.dsk", "Y.Po", strings.TrimSuffix(img.name, "/"), otherCase(strings.TrimSuffix(img.name, "/"))} {
					for _, f := range bools {
						for _, exists := range bools {
							ex := ""
							if exists {
								if !strings.ContainsAny(out, "yYX") || strings.HasPrefix(out, "no/") || out == "bystander.dsk" {
									continue
								}
								ex = out
							}
							run(img, ucmd{kind: "reorder", order: o, newOrder: n, output: out, force: f}, nil, ex, false)
						}
						if out != "y.po" && out != "y" {
							continue
						}
						for i, data := range c21Existing(img) {
							u := ucmd{kind: "reorder", order: o, newOrder: n, output: out, force: f}
							if data == nil {
								continue
							}
							c.Case(func(t *T) {
								c21Setup(t, img, nil, "")
								t.writeFile(out, data)
								u.image = strings.TrimSuffix(img.name, "/")
								t.outcome = u.kind + " " + c21Judge(t, u, false, nil)
								t.State(hashString(6, fmt.Sprint(u, img.what, i)))
							}, "%v on %s (%s), with %d bytes at the output", u, img.what, img.name, len(data))
						}
					}
				}
			}
		}
	}
	c.Section("ls, decode and filetypes", "every image × order × system × directory; every image as a program")
	for _, img := range images {
		for _, o := range orders {
			for _, s := range []string{"auto", "dos3", "prodos", "nakedos"} {
				for _, d := range []string{"", "SUB", "NOSUCH"} {
					for _, f := range bools {
						run(img, ucmd{kind: "ls", order: o, system: s, name: d, force: f}, nil, "", false)
						run(img, ucmd{kind: "ls", order: o, system: s, name: d, force: f, debug: 2}, nil, "", false)
					}
				}
			}
		}
		for _, f := range bools {
			run(img, ucmd{kind: "decode", addr: 0x801, force: f}, nil, "", false)
			run(img, ucmd{kind: "filetypes", force: f}, nil, "", false)
		}
	}
	c.Section("built tool", "every command with each kind of request through the built tool, on every image")
	small := []ucmd{
		{kind: "put", ftype: "B", name: "FIVE", source: "source"}, {kind: "put", ftype: "B", name: "FIVE", source: "source", force: true}, {kind: "put", ftype: "B", name: "NEWNAME", source: "source"},
		{kind: "put", ftype: "NOPE", name: "NEWNAME", source: "source"}, {kind: "put", ftype: "B", name: "BAD NAME", source: "source"}, {kind: "put", ftype: "B", name: "", source: "source"},
		{kind: "put", ftype: "B", name: "NEWNAME", source: "nosuch"}, {kind: "put", ftype: "B", name: "NEWNAME", source: "source", order: "po", system: "dos3"}, {kind: "put", ftype: "B", name: "NEWNAME", source: "source", order: "xx"},
		{kind: "put", ftype: "B", name: "NEWNAME", source: "source", system: "xx"}, {kind: "put", ftype: "B", name: "NEWNAME", source: "source", addr: 0x10000}, {kind: "put", ftype: "B", name: "NEWNAME", source: "big"},
		{kind: "rm", name: "FIVE"}, {kind: "rm", name: "NOSUCH"}, {kind: "rm", name: "NOSUCH", force: true}, {kind: "rm", name: "STALE"}, {kind: "rm", name: ""}, {kind: "rm", name: "FIVE", order: "po"}, {kind: "rm", name: "FIVE", system: "dos3"}, {kind: "rm", name: "FIVE", order: "xx"},
		{kind: "hello", name: "FIVE", addr: 0x6000, start: 0xFFFF}, {kind: "hello", name: "FIVE", addr: 0x6001, start: 0xFFFF}, {kind: "hello", name: "FIVE", addr: 0x16000, start: 0xFFFF}, {kind: "hello", name: "FIVE", addr: 0x6000, start: 0x5000}, {kind: "hello", name: "NOSUCH", addr: 0x6000, start: 0xFFFF},
		{kind: "sd", source: "source", addr: 0x6000, start: 0xFFFF}, {kind: "sd", source: "source", addr: 0x6001, start: 0xFFFF}, {kind: "sd", source: "big", addr: 0x6000, start: 0xFFFF}, {kind: "sd", source: "nosuch", addr: 0x6000, start: 0xFFFF}, {kind: "sd", source: "source", addr: 0x6000, start: 0x9000}, {kind: "sd", source: "source", addr: 0x6000, start: -1},
		{kind: "reorder"}, {kind: "reorder", newOrder: "po"}, {kind: "reorder", order: "po", newOrder: "po"}, {kind: "reorder", output: "y.po"}, {kind: "reorder", output: "y.po", force: true}, {kind: "reorder", output: "new.po"}, {kind: "reorder", output: "-", newOrder: "do"}, {kind: "reorder", output: "y.po", order: "xx"},
		{kind: "ls"}, {kind: "ls", order: "po", force: true}, {kind: "ls", system: "nakedos"}, {kind: "ls", system: "prodos", name: "SUB"}, {kind: "ls", system: "xx"}, {kind: "ls", debug: 2},
		{kind: "dump", name: "FIVE"}, {kind: "dump", name: "NOSUCH"}, {kind: "dump", name: "ALPHA", order: "do"}, {kind: "decode", addr: 0x801}, {kind: "decode", addr: 0x801, force: true}, {kind: "filetypes", force: true},
	}
	for _, img := range images {
		for _, u := range small {
			c.Case(func(t *T) {
				c21Setup(t, img, nkData(1, 300), "y.po")
				t.writeFile("big", nkData(2, 50000))
				u.image = strings.TrimSuffix(img.name, "/")
				t.outcome = u.kind + " " + c21Judge(t, u, true, nil)
				t.State(hashString(2, fmt.Sprint(u, img.what)))
			}, "%v on %s (%s)", u, img.what, img.name)
		}
	}
	c.Section("standard input and output", "every command with - for the image or the source: no file appears or changes")
	for _, img := range images {
		if img.data == nil {
			continue
		}
		for _, u := range small {
			for _, tool := range bools {
				for _, what := range []string{"image", "source"} {
					if what == "source" && u.kind != "put" && u.kind != "sd" || what == "image" && u.kind == "filetypes" {
						continue
					}
					c.Case(func(t *T) {
						c21Setup(t, img, nkData(1, 300), "y.po")
						t.writeFile("big", nkData(2, 50000))
						u.image = img.name
						stdin := img.data
						if what == "image" {
							u.image = "-"
						} else {
							u.source = "-"
							stdin = nkData(1, 257)
						}
						if !tool && (u.addr < 0 || u.addr > 0xFFFF || u.start < 0 || u.order == "xx" || u.system == "xx") {
							return
						}
						t.outcome = u.kind + " " + c21Judge(t, u, tool, stdin)
						t.State(hashString(3, fmt.Sprint(u, img.what, what)))
					}, "%v with %s on standard input: %s, tool %v", u, what, img.what, tool)
				}
			}
		}
	}
	c.Section("histories", fmt.Sprintf("all sequences of %d of the commands on NakedOS disks; every refusal along the way leaves everything as it was", Pick(c, 2, 3)))
	for _, img := range []c21File{images[0], images[1], images[3], images[5]} {
		for _, a := range small {
			for _, b := range small {
				if a.addr < 0 || a.addr > 0xFFFF || a.start < 0 || a.order == "xx" || a.system == "xx" || a.reading() {
					continue
				}
				if b.addr < 0 || b.addr > 0xFFFF || b.start < 0 || b.order == "xx" || b.system == "xx" {
					continue
				}
				c.Case(func(t *T) {
					c21Setup(t, img, nkData(1, 300), "y.po")
					t.writeFile("big", nkData(2, 50000))
					a.image, b.image = img.name, img.name
					o1 := c21Judge(t, a, false, nil)
					o2 := c21Judge(t, b, false, nil)
					t.Outcome("%s then %s", o1, o2)
					t.State(hashString(4, fmt.Sprint(img.what, a, b)))
					if !c.Thorough() || o1 == "refused" {
						return
					}
					now := t.snapshot()
					for _, d := range small {
						if d.addr < 0 || d.addr > 0xFFFF || d.start < 0 || d.order == "xx" || d.system == "xx" || d.reading() {
							continue
						}
						d.image = img.name
						c21Judge(t, d, false, nil)
						for k, v := range t.snapshot() {
							if w, ok := now[k]; !ok {
								_ = os.Remove(t.path(k))
							} else if v != w {
								t.writeFile(k, []byte(w))
							}
						}
					}
				}, "%s %s: %v; %v", img.name, img.what, a, b)
			}
		}
	}
}
