package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/zellyn/diskii/cmd"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C22"] = prop{run: c22, level: "model_checking", assum: []string{
		"what put and delete do to a disk is judged by C04 and C05; here the file after the command is compared with the operation applied to the disk, stored back by the independent interleave model",
		"the NakedOS calling convention of the stored mkhello program: JSR 0340 followed by ADC DC01, BIT file, BIT address",
		"rm of a symbol whose file is missing is not judged",
	}}
}

// cliOp is one command on an image.
type cliOp struct {
	kind  string // put, rm, hello
	name  string
	data  []byte
	force bool
	ftype string
	addr  int
	start int
	order string
	// delta of put's load address from the default: 0 is the default.
	delta int
	// src is the source's name, if not "source".
	src string
}

// source writes put's source.
func (o cliOp) source(t *T) string {
	if o.src != "" {
		return t.writeFile(o.src, o.data)
	}
	return t.writeFile("source", o.data)
}

// load is the address given to put.
func (o cliOp) load() uint16 { return uint16(0x6000 + o.delta) }

func (o cliOp) String() string {
	s := fmt.Sprintf("%s %q", o.kind, o.name)
	switch o.kind {
	case "put":
		s += fmt.Sprintf(" %d bytes type %s", len(o.data), o.ftype)
		if o.delta != 0 {
			s += fmt.Sprintf(" at %04X", o.load())
		}
		if o.src != "" {
			s += " from " + o.src
		}
	case "hello":
		s += fmt.Sprintf(" at %04X start %04X", o.addr, o.start)
	}
	if o.force {
		s += " -f"
	}
	if o.order != "auto" {
		s += " --order " + o.order
	}
	return s
}

// runCmd executes the command in process.
func (o cliOp) run(t *T, image string) error {
	t.Step()
	switch o.kind {
	case "put":
		src := o.source(t)
		c := cmd.PutCmd{Order: orderOf(o.order), System: "auto", FiletypeName: o.ftype, Overwrite: o.force, Address: o.load(), DiskImage: image, TargetFilename: o.name, SourceFilename: src}
		return c.Run(t.globals())
	case "rm":
		c := cmd.DeleteCmd{Order: orderOf(o.order), System: "auto", MissingOk: o.force, DiskImage: image, Filename: o.name}
		return c.Run(t.globals())
	}
	c := cmd.MkHelloCmd{Order: orderOf(o.order), DiskImage: image, Filename: o.name, Address: uint16(o.addr), Start: uint16(o.start)}
	return c.Run(t.globals())
}

// tool executes the command with the built binary.
func (o cliOp) tool(t *T, image string) error {
	t.Step()
	var args []string
	switch o.kind {
	case "put":
		args = []string{"put"}
		if o.force {
			args = append(args, "-f")
		}
		if o.ftype != "B" {
			args = append(args, "--filetype-name", o.ftype)
		}
		if o.delta != 0 {
			args = append(args, "--address", fmt.Sprintf("0x%x", o.load()))
		}
		args = append(args, "--order", o.order, "--", image, o.name, o.source(t))
	case "rm":
		args = []string{"rm"}
		if o.force {
			args = append(args, "-f")
		}
		args = append(args, "--order="+o.order, "--", image, o.name)
	default:
		args = []string{"nakedos", "mkhello"}
		if o.order != "auto" {
			args = append(args, "--order", o.order)
		}
		if o.addr != 0x6000 {
			args = append(args, "--address", fmt.Sprintf("0x%x", o.addr))
		}
		if o.start != 0xFFFF {
			args = append(args, "--start", fmt.Sprintf("%d", o.start))
		}
		args = append(args, "--", image, o.name)
	}
	out, err := exec.Command(t.c.bin, args...).CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

// expect applies the operation to the disk and returns the file that must
// result, or why the command must fail.
func (o cliOp) expect(t *T, file []byte, order string) ([]byte, string) {
	op := nkOpen(t, oracleConvert(file, orderOf(order), "raw"))
	switch o.kind {
	case "put":
		ft, err := types.FiletypeForName(o.ftype)
		if err != nil {
			return nil, "unknown type"
		}
		_, err = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: o.name, Length: len(o.data), Type: ft}, Data: clone(o.data), StartAddress: 0x6000}, o.force)
		if err != nil {
			return nil, err.Error()
		}
	case "rm":
		was, err := op.Delete(o.name)
		if err != nil {
			return nil, err.Error()
		}
		if !was {
			if !o.force {
				return nil, "no such file"
			}
			return file, ""
		}
	case "hello":
		start := o.start
		if start == 0xFFFF {
			start = o.addr
		}
		if o.addr%256 != 0 || start < o.addr {
			return nil, "bad address"
		}
		n := helloFile(op, o.name)
		if n == 0 {
			return nil, "no such file"
		}
		_, err := op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF01:FHELLO", Length: 20, Type: types.FiletypeBinary}, Data: nkData(1, 20)}, true)
		if err != nil {
			return nil, err.Error() // no symbol table, or no room
		}
		return nil, "" // judged by helloCheck
	}
	return oracleConvert(op.GetBytes(), "raw", orderOf(order)), ""
}

// helloFile is the file number mkhello must load, by the naming rule.
func helloFile(op supermon.Operator, name string) byte {
	if i := strings.IndexByte(name, ':'); i >= 0 {
		if strings.Count(name, ":") > 1 || nkNumber(name[i+1:]) != 0 {
			return 0
		}
		return nkNumber(name[:i])
	}
	if n := nkNumber(name); n != 0 {
		return n
	}
	for _, s := range op.ST {
		if s.Address != 0 && strings.EqualFold(s.Name, name) {
			if s.Address > 0xDF00 && s.Address < 0xDFFE {
				return byte(s.Address)
			}
			return 0
		}
	}
	return 0
}

// helloCheck runs the stored hello program.
func helloCheck(t *T, prog []byte, file byte, addr, start int) {
	p := &cpu{sp: 0xF0, d: true, access: func(uint16) {}}
	copy(p.mem[0x1800:], prog)
	p.pc = 0x1800
	loaded := false
	for n := 0; n < 100; n++ {
		if int(p.pc) == start && loaded {
			if p.d {
				t.Fail("the hello program jumps with decimal mode on")
			}
			return
		}
		if p.pc == 0x0340 {
			lo := p.pull()
			at := (uint16(lo) | uint16(p.pull())<<8) + 1
			b := p.mem[at : at+9]
			if b[0] != 0x6D || b[1] != 0x01 || b[2] != 0xDC {
				t.Fail("the hello program calls NakedOS with % X", b)
			}
			if b[3] != 0x2C || b[4] != file || b[5] != 0xDF || b[6] != 0x2C || b[7] != 0 || int(b[8])<<8 != addr {
				t.Fail("the hello program loads % X, want file %02X at %04X", b[3:], file, addr)
			}
			loaded = true
			p.d = true
			p.pc = at + 9
			continue
		}
		if p.pc < 0x1800 || p.pc >= 0x1900 {
			break
		}
		p.step()
		if p.bad != "" {
			t.Fail("the hello program %s", p.bad)
		}
	}
	t.Fail("the hello program ends at %04X (loaded: %v), want %04X", p.pc, loaded, start)
}

// cliStep runs one command on the image file and compares.
func cliStep(t *T, image, order string, o cliOp, tool bool) string {
	before := t.readFile(image)
	want, refuse := o.expect(t, before, order)
	snap := t.snapshot()
	var err error
	if tool {
		err = o.tool(t, image)
	} else {
		err = o.run(t, image)
	}
	after := t.readFile(image)
	if refuse != "" {
		if err == nil {
			t.Fail("%v succeeded; it must be refused: %s", o, refuse)
		}
		t.mustEqual(after, before, "%v was refused but changed the image", o)
		return "refused"
	}
	t.noErr(err, "%v", o)
	now := t.snapshot()
	for k := range now {
		if _, ok := snap[k]; !ok && k != "source" && k != o.src && !(strings.HasSuffix(k, "/") && strings.HasPrefix(o.src, k)) {
			t.Fail("%v left file %q behind", o, k)
		}
	}
	for k, v := range snap {
		if k != "source" && k != o.src && t.path(k) != image && now[k] != v {
			t.Fail("%v changed or removed file %q", o, k)
		}
	}
	if o.kind != "hello" {
		t.mustEqual(after, want, "image file after %v", o)
		if bytes.Equal(after, before) {
			return "same"
		}
		return o.kind
	}
	// mkhello: the operation is a put of some program under DF01:FHELLO.
	op := nkOpen(t, oracleConvert(before, orderOf(order), "raw"))
	file := helloFile(op, o.name)
	got := nkOpen(t, oracleConvert(after, orderOf(order), "raw"))
	fi, err := got.GetFile("DF01")
	t.noErr(err, "getting the hello file")
	prog := bytes.TrimRight(fi.Data, "\x00")
	if len(prog) < 4 {
		t.Fail("the hello file is empty")
	}
	start := o.start
	if start == 0xFFFF {
		start = o.addr
	}
	helloCheck(t, fi.Data, file, o.addr, start)
	n := len(fi.Data)
	for k := n - 255; k <= n; k++ { // the put of the program padded to the same sectors
		if k < len(prog) {
			continue
		}
		_, err = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF01:FHELLO", Length: k, Type: types.FiletypeBinary}, Data: clone(fi.Data[:k])}, true)
		t.noErr(err, "putting the hello program")
		break
	}
	t.mustEqual(after, oracleConvert(op.GetBytes(), "raw", orderOf(order)), "image file after %v", o)
	return "hello"
}

// cliShow compares ls and dump with the disk.
func cliShow(t *T, image, order, flag, system string, tool bool) {
	file := t.readFile(image)
	raw := oracleConvert(file, orderOf(order), "raw")
	op := nkOpen(t, raw)
	descs, err := op.Catalog("")
	t.noErr(err, "listing")
	for _, short := range []bool{false, true} {
		var want strings.Builder
		for _, d := range descs {
			if short {
				want.WriteString(d.Name + "\n")
			} else {
				want.WriteString(d.Fullname + "\n")
			}
		}
		var out []byte
		if tool {
			args := []string{"ls", "--order", flag, "--system", system}
			if short {
				args = append(args, "-s")
			}
			out, err = exec.Command(t.c.bin, append(args, image)...).Output()
		} else {
			f, e := os.Open(image)
			t.noErr(e, "scratch")
			out, err = t.withStdout(nil, func() error {
				c := cmd.LsCmd{Order: orderOf(flag), System: system, ShortNames: short, Image: f}
				return c.Run(t.globals())
			})
			_ = f.Close()
		}
		t.Step()
		t.noErr(err, "ls")
		if string(out) != want.String() {
			t.Fail("ls (short %v) printed %q, want %q", short, out, want.String())
		}
	}
	for _, d := range descs {
		fi, err := op.GetFile(d.Name)
		t.noErr(err, "get %s", d.Name)
		var out []byte
		if tool {
			out, err = exec.Command(t.c.bin, "dump", "--order="+flag, image, d.Name).Output()
		} else {
			out, err = t.withStdout(nil, func() error {
				c := cmd.DumpCmd{Order: orderOf(flag), System: "auto", DiskImage: image, Filename: d.Name}
				return c.Run(t.globals())
			})
		}
		t.Step()
		t.noErr(err, "dump %s", d.Name)
		t.mustEqual(out, fi.Data, "dump of %s", d.Name)
	}
	t.mustEqual(t.readFile(image), file, "ls or dump changed the image")
}

func c22(c *Ctx) {
	bases := nkBases()
	put := func(name string, n int, f bool) cliOp {
		return cliOp{kind: "put", name: name, data: nkData(n, n), force: f, ftype: "B", order: "auto"}
	}
	rm := func(name string, f bool) cliOp { return cliOp{kind: "rm", name: name, force: f, order: "auto"} }
	hello := func(name string, addr, start int) cliOp {
		return cliOp{kind: "hello", name: name, addr: addr, start: start, order: "auto", force: true}
	}
	ops := []cliOp{
		put("FIVE", 300, false), put("FIVE", 300, true), put("NEWFILE", 1, false), put("DF07:FIVE", 257, true), put("9:NINE", 256, false), put("6", 700, true),
		put("NEWFILE", 0, true), put("TOOBIG", 20000, true), put("BAD NAME", 5, false), put("1", 10, false),
		rm("FIVE", false), rm("7", false), rm("NEWFILE", false), rm("NEWFILE", true), rm("DF55", true), rm("DF55", false), rm("1", true),
		hello("FIVE", 0x6000, 0xFFFF), hello("DF07", 0x2000, 0x2100), hello("NEWFILE", 0x0900, 0x0900), hello("FIVE", 0x6001, 0xFFFF),
		{kind: "put", name: "FIVE", data: nkData(5, 5), force: true, ftype: "T", order: "auto"},
		{kind: "put", name: "FIVE", data: nkData(5, 5), force: true, ftype: "BIN", order: "auto"},
	}
	files := []struct{ name, order string }{{"x.dsk", "do"}, {"x.do", "do"}, {"x.po", "po"}}
	kinds := []string{"tiny", "nost"}
	depth := Pick(c, 2, 3)
	c.Section("command histories", fmt.Sprintf("all sequences of up to %d of %d commands on two disks in DOS and ProDOS order; ls and dump at the end", depth, len(ops)))
	for _, f := range files {
		for _, kind := range kinds {
			for i, a := range ops {
				for j, b := range ops {
					c.Case(func(t *T) {
						base := oracleConvert(bases[kind].img, "raw", orderOf(f.order))
						t.cleanScratch()
						t.bystanders(f.name)
						img := t.writeFile(f.name, base)
						o1 := cliStep(t, img, f.order, a, false)
						if j == 0 {
							cliShow(t, img, f.order, "auto", "auto", false)
						}
						o2 := cliStep(t, img, f.order, b, false)
						cliShow(t, img, f.order, "auto", "auto", false)
						t.Outcome("%s then %s", o1, o2)
						t.State(hashBytes(1, t.readFile(img)))
						if depth < 3 || o1 == "refused" && i != 0 {
							return
						}
						after := t.readFile(img)
						for _, d := range ops {
							t.writeFile(f.name, after)
							cliStep(t, img, f.order, d, false)
							t.State(hashBytes(1, t.readFile(img)))
						}
					}, "%s %s: %v; %v", f.name, kind, a, b)
				}
			}
		}
	}
	c.Section("files and flags", "each command on the disk under every file name and stored order with each order flag, in process and through the built tool; ls with every system flag")
	for _, f := range []struct{ name, order, flag string }{
		{"x.dsk", "do", "auto"}, {"x", "do", "auto"}, {"X.DSK", "do", "auto"}, {"x.do", "do", "auto"}, {"x.po", "po", "auto"}, {"X.PO", "po", "auto"},
		{"x.dsk", "po", "po"}, {"x.do", "po", "po"}, {"x.po", "do", "do"}, {"x.img", "do", "do"}, {"x.img", "po", "po"}, {"x", "po", "po"}, {"x.dsk", "do", "do"}, {"x.hdv", "po", "po"}, {"x.hdv", "do", "do"},
		{"d.po/x.dsk", "do", "auto"}, {"d.do/x.po", "po", "auto"}, {"d.po/x", "do", "auto"}, {"a.po.do", "do", "auto"}, {"d.x/a b.c.po", "po", "auto"}, {"d.do/x", "po", "po"},
		{"x.dsk", "po", "auto"}, {"x", "po", "auto"}, {"d.do/X.DSK", "po", "auto"},
	} {
		for _, kind := range kinds {
			for _, tool := range []bool{false, true} {
				for _, a := range ops {
					c.Case(func(t *T) {
						t.cleanScratch()
						img := t.writeFile(f.name, oracleConvert(bases[kind].img, "raw", orderOf(f.order)))
						a.order = f.flag
						t.outcome = cliStep(t, img, f.order, a, tool)
						if a.name == "FIVE" && !a.force {
							cliShow(t, img, f.order, f.flag, "auto", tool)
							cliShow(t, img, f.order, f.flag, "nakedos", tool)
						}
						t.State(hashString(2, fmt.Sprint(f, kind, tool, a)))
					}, "%v %s tool %v: %v", f, kind, tool, a)
				}
			}
		}
	}
	c.Section("lengths", "put of every source length 0-1300 and across the free space, read back with dump")
	for n := 0; n <= 1300; n++ {
		c.Case(func(t *T) {
			t.cleanScratch()
			f := files[n%3]
			img := t.writeFile(f.name, oracleConvert(bases["tiny"].img, "raw", orderOf(f.order)))
			t.outcome = cliStep(t, img, f.order, cliOp{kind: "put", name: "NEWFILE", data: nkData(n, n), ftype: "B", order: "auto"}, false)
			cliStep(t, img, f.order, cliOp{kind: "put", name: "FIVE", data: nkData(n, n), ftype: "B", order: "auto", force: true}, false)
			cliShow(t, img, f.order, "auto", "auto", false)
			t.State(hashInt(3, n))
		}, "%d bytes", n)
	}
	c.Section("put addresses", "put of a new file, of an existing file with and without -f, of a symbol and of a numbered file, at load addresses over the whole range: the address has no place on a NakedOS disk and decides nothing")
	for i, at := range []int{0, 1, 2, 0xFF, 0x100, 0x300, 0x7FF, 0x800, 0x801, 0x900, 0x1FFF, 0x2000, 0x2001, 0x4000, 0x5FFF, 0x6000, 0x6001, 0x6100, 0x7FFF, 0x8000, 0x9600, 0xB700, 0xBFFF, 0xC000, 0xDF05, 0xFF00, 0xFFFE, 0xFFFF} {
		for _, name := range []string{"FIVE", "NEWFILE", "DF07:FIVE", "9:NINE", "9:FIVE", "6", "7", "1", "0"} {
			for _, kind := range kinds {
				for _, tool := range []bool{false, true} {
					if tool && !c.Thorough() && kind != "tiny" {
						continue
					}
					a := put(name, 300, false)
					a.delta = at - 0x6000
					f := files[i%3]
					c.Case(func(t *T) {
						t.cleanScratch()
						base := oracleConvert(bases[kind].img, "raw", orderOf(f.order))
						for _, force := range []bool{false, true} {
							for _, ft := range []string{"B", "A"} {
								img := t.writeFile(f.name, base)
								a.force, a.ftype = force, ft
								t.Outcome("%s", cliStep(t, img, f.order, a, tool))
							}
						}
						t.State(hashString(9, fmt.Sprint(at, name, kind, tool)))
					}, "%v on %s (%s), tool %v", a, kind, f.name, tool)
				}
			}
		}
	}
	c.Section("source names", "put from sources of many names - the target's own, its upper and lower case, with extensions, in directories, those of other files of the disk - onto new and existing files, with and without -f: the name decides nothing")
	for i, name := range []string{"FIVE", "NEWFILE", "DF07:FIVE", "9:NINE", "6", "seven7"} {
		for _, src := range []string{name, strings.ToLower(name), strings.ToUpper(name), name + ".bin", name + ".o", name + ".dsk", name + ".po", "dir/" + name, "FIVE", "DF05", "seven7.txt", "x", "b.bas", "a.TXT", "a b", "y.po"} {
			for _, tool := range []bool{false, true} {
				a := put(name, 300, false)
				a.src = src
				f := files[i%3]
				c.Case(func(t *T) {
					t.cleanScratch()
					base := oracleConvert(bases["tiny"].img, "raw", orderOf(f.order))
					for _, force := range []bool{false, true} {
						img := t.writeFile(f.name, base)
						a.force = force
						t.Outcome("%s", cliStep(t, img, f.order, a, tool))
					}
					t.State(hashString(10, fmt.Sprint(name, src, tool)))
				}, "%v on %s, tool %v", a, f.name, tool)
			}
		}
	}
	c.Section("mkhello addresses", "every page and file number; every misaligned low byte; starts at, above and below the load address; both notations, symbols and compound names")
	for page := 0; page < 256; page++ {
		c.Case(func(t *T) {
			t.cleanScratch()
			f := files[page%3]
			base := oracleConvert(bases["tiny"].img, "raw", orderOf(f.order))
			at := page << 8
			for _, s := range []int{0xFFFF, at, at + 1, at + 255, at + 0x1234, at - 1, 0, 0xFFFE} {
				if s < 0 || s > 0xFFFF {
					continue
				}
				img := t.writeFile(f.name, base)
				cliStep(t, img, f.order, hello("FIVE", at, s), false)
			}
			for _, lo := range []int{1, 2, 16, 127, 128, 255, page} {
				if lo == 0 {
					continue
				}
				img := t.writeFile(f.name, base)
				cliStep(t, img, f.order, hello("FIVE", at+lo, 0xFFFF), false)
			}
			for _, n := range []string{fmt.Sprintf("%X", page), fmt.Sprintf("DF%02X", page), fmt.Sprintf("df%02x", page), fmt.Sprintf("DF%02X:FIVE", page), fmt.Sprintf("%x:NEWNAME", page)} {
				img := t.writeFile(f.name, base)
				t.outcome = cliStep(t, img, f.order, hello(n, 0x6000, 0xFFFF), false)
			}
			t.State(hashInt(4, page))
		}, "page and file %02X", page)
	}
	for _, n := range []string{"FIVE", "five", "SEVEN7", "STALE", "NOTFILE", "NOSUCH", "", ":", "5:", ":5", "5:6", "5:FIVE:X", "X:FIVE", "5:SEVEN7", "10000", "DF00", "DFFE", "0"} {
		for _, f := range files {
			for _, kind := range kinds {
				c.Case(func(t *T) {
					if strings.HasSuffix(n, ":") {
						// an empty symbol part: the rule does not say
						t.outcome = "not judged"
						return
					}
					t.cleanScratch()
					img := t.writeFile(f.name, oracleConvert(bases[kind].img, "raw", orderOf(f.order)))
					o := hello(n, 0x4000, 0x4010)
					if kind == "nost" {
						// without a symbol table DF01:FHELLO itself is refused
						before := t.readFile(img)
						err := o.run(t, img)
						if err == nil {
							t.Fail("mkhello succeeded on a disk without symbol table")
						}
						t.mustEqual(t.readFile(img), before, "refused mkhello")
						t.outcome = "refused"
						return
					}
					t.outcome = cliStep(t, img, f.order, o, false)
					t.State(hashString(5, n+f.name))
				}, "mkhello %q on %s %s", n, f.name, kind)
			}
		}
	}
	c.Section("other systems", "ls, dump, put, rm and mkhello on DOS 3.3 and ProDOS disks in every order and name: ls and dump show exactly the disk, the others refuse and change nothing")
	dosImg := dosBase(0)
	proImg := c22Pro()
	for _, s := range []struct {
		sys  string
		img  []byte
		own  string
		dirs []string
	}{{"dos3", dosImg, "do", []string{""}}, {"prodos", proImg, "po", []string{"", "SUB", "SUB/DEEP", "NOSUCH"}}} {
		for _, f := range []struct{ name, order, flag string }{{"x.do", "do", "auto"}, {"x.po", "po", "auto"}, {"x.dsk", "do", "do"}, {"x.dsk", "po", "po"}} {
			for _, tool := range []bool{false, true} {
				for _, sysflag := range []string{"auto", s.sys} {
					c.Case(func(t *T) {
						t.cleanScratch()
						stored := oracleConvert(s.img, orderOf(s.own), orderOf(f.order))
						img := t.writeFile(f.name, stored)
						op, _, err := disk.OpenImage(clone(stored), f.name, orderOf(f.flag), s.sys, factories(), 0)
						t.noErr(err, "opening")
						for _, dir := range s.dirs {
							descs, cerr := op.Catalog(dir)
							var want strings.Builder
							for _, d := range descs {
								want.WriteString(d.Name + "\n")
							}
							var out []byte
							if tool {
								args := []string{"ls", "--order", f.flag, "--system", sysflag, img}
								if dir != "" {
									args = append(args, dir)
								}
								out, err = exec.Command(t.c.bin, args...).Output()
							} else {
								fh, e := os.Open(img)
								t.noErr(e, "scratch")
								out, err = t.withStdout(nil, func() error {
									c := cmd.LsCmd{Order: orderOf(f.flag), System: sysflag, Image: fh, Directory: dir}
									return c.Run(t.globals())
								})
								_ = fh.Close()
							}
							t.Step()
							if (err == nil) != (cerr == nil) {
								t.Fail("ls %q: %v, listing: %v", dir, err, cerr)
							}
							if cerr == nil && string(out) != want.String() {
								t.Fail("ls %q printed %q, want %q", dir, out, want.String())
							}
							if dir != "" || cerr != nil {
								continue
							}
							for _, d := range descs {
								fi, gerr := op.GetFile(d.Name)
								if tool {
									out, err = exec.Command(t.c.bin, "dump", "--order", f.flag, img, d.Name).Output()
								} else {
									out, err = t.withStdout(nil, func() error {
										c := cmd.DumpCmd{Order: orderOf(f.flag), System: "auto", DiskImage: img, Filename: d.Name}
										return c.Run(t.globals())
									})
								}
								t.Step()
								if (err == nil) != (gerr == nil) {
									t.Fail("dump %q: %v, get: %v", d.Name, err, gerr)
								}
								if gerr == nil {
									t.mustEqual(out, fi.Data, "dump of %q", d.Name)
								}
							}
						}
						if s.sys != "prodos" {
							fh, _ := os.Open(img)
							c := cmd.LsCmd{Order: orderOf(f.flag), System: sysflag, Image: fh, Directory: "SUB"}
							_, err := t.withStdout(nil, func() error { return c.Run(t.globals()) })
							_ = fh.Close()
							if err == nil {
								t.Fail("ls of a subdirectory on a disk without them succeeded")
							}
						}
						for _, o := range ops {
							o.order = f.flag
							var err error
							if tool {
								err = o.tool(t, img)
							} else {
								err = o.run(t, img)
							}
							if err == nil {
								t.Fail("%v succeeded on a %s disk", o, s.sys)
							}
							t.mustEqual(t.readFile(img), stored, "%v on a %s disk", o, s.sys)
						}
						t.State(hashString(6, fmt.Sprint(s.sys, f, tool, sysflag)))
					}, "%s %v system %s tool %v", s.sys, f, sysflag, tool)
				}
			}
		}
	}
	c.Section("listing names", "ls, long and short, of disks of each system whose three files have every combination of three names: unsorted, repeated, one the start of another")
	for _, sys := range []string{"nakedos", "dos3", "prodos"} {
		for k := 0; k < 27; k++ {
			c.Case(func(t *T) {
				t.cleanScratch()
				pick := []string{"ZULU", "ALP", "ALPHA"}
				names := []string{pick[k%3], pick[k/3%3], pick[k/9]}
				var img []byte
				order := types.DiskOrderDO
				switch sys {
				case "nakedos":
					syms := map[int]nkSym{}
					for i, n := range names {
						syms[5-i] = nkSym{addr: uint16(0xdf05 + 2*i), name: n}
					}
					img = nkMake("names", []int{15, 16}, 0xfe, map[byte][]int{5: {13}, 7: {14}, 9: {12}}, syms, true).img
					order = types.DiskOrderRaw
				case "dos3":
					var files []*dfile
					next := 0
					for i, n := range names {
						f := &dfile{name: n, ty: 4, secs: sectorsOf(stored(4, 0x2000, body(i, 10), 0))}
						f.place(spots(0), &next, true)
						files = append(files, f)
					}
					img = dosDisk(files, nil, nil)
				case "prodos":
					a := &proAlloc{n: 280}
					root := rootDir(a, 2)
					for i, n := range names {
						e := fileEntry(i)
						e.name = n
						root.entries[7*i] = e
					}
					img = proImage(280, root)
					order = types.DiskOrderPO
				}
				t.writeFile("x.dsk", oracleConvert(img, order, "do"))
				op, _, err := disk.OpenImage(oracleConvert(img, order, "do"), "x.dsk", "do", sys, factories(), 0)
				t.noErr(err, "opening")
				descs, err := op.Catalog("")
				t.noErr(err, "listing")
				for _, short := range []bool{false, true} {
					want := ""
					for _, d := range descs {
						if short || d.Fullname == "" {
							want += d.Name + "\n"
						} else {
							want += d.Fullname + "\n"
						}
					}
					for _, tool := range []bool{false, true} {
						out, err := ucmd{kind: "ls", image: "x.dsk", force: short}.either(t, tool)
						t.noErr(err, "ls (short %v, tool %v)", short, tool)
						if string(out) != want {
							t.Fail("ls (short %v, tool %v) printed %q, want %q", short, tool, out, want)
						}
						t.Step()
					}
				}
				if len(descs) < 3 {
					t.Fail("only %d of 3 files listed", len(descs))
				}
				t.State(hashString(8, fmt.Sprint(sys, k)))
			}, "%s, names %d", sys, k)
		}
	}
	if b := repoFile("data/disks/Super-Mon-2.0.dsk"); len(b) == floppy {
		c.Section("real disk", "every command on the repository's NakedOS disk in both orders")
		for _, f := range files {
			for _, a := range ops {
				c.Case(func(t *T) {
					t.cleanScratch()
					img := t.writeFile(f.name, oracleConvert(b, "do", orderOf(f.order)))
					t.outcome = cliStep(t, img, f.order, a, false)
					cliShow(t, img, f.order, "auto", "auto", false)
					t.State(hashString(7, f.name+a.String()))
				}, "%s: %v", f.name, a)
			}
		}
	}
}

// c22Pro is a ProDOS floppy with nested directories, in ProDOS order.
func c22Pro() []byte {
	a := &proAlloc{n: 280}
	root := rootDir(a, 2)
	deep := &pDir{blocks: a.take(1), entries: map[int]*pEntry{0: fileEntry(5)}}
	sub := &pDir{blocks: a.take(1), entries: map[int]*pEntry{0: fileEntry(3), 1: subEntry("DEEP", deep)}}
	root.entries = map[int]*pEntry{0: fileEntry(1), 1: subEntry("SUB", sub), 14: fileEntry(2)}
	return proImage(280, root)
}
