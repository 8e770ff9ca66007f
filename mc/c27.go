package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
)

func init() {
	props["C27"] = prop{run: c27, level: "model_checking", assum: []string{
		"number forms are decimal, 0x, 0X, 0o, leading 0 and 0b as the flag's name (any base) says; well-placed underscores between digits are not judged",
		"a command in its other spellings is compared with the same request made in process (judged by C01, C18, C20 and C22)",
	}}
}

// rawTool runs the built tool with these arguments in the scratch directory.
func (t *T) rawTool(args []string, stdin []byte) ([]byte, error) {
	t.Step()
	x := exec.Command(t.c.bin, args...)
	x.Dir = t.c.scratch
	x.Stdin = bytes.NewReader(stdin)
	var out, msg bytes.Buffer
	x.Stdout, x.Stderr = &out, &msg
	err := x.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		fmt.Fprintln(diag, "cannot run the tool:", err)
		os.Exit(3)
	}
	if err != nil {
		if ee.ExitCode() < 0 || bytes.Contains(msg.Bytes(), []byte("goroutine ")) {
			t.Fail("%q: the tool crashed: %v: %.300s", args, err, msg.Bytes())
		}
		err = fmt.Errorf("%v: %.300s", err, bytes.TrimSpace(msg.Bytes()))
	}
	return out.Bytes(), err
}

// spellings of a number in every base the flags take.
func spellings(n int) []string {
	return []string{
		fmt.Sprintf("%d", n), fmt.Sprintf("0x%x", n), fmt.Sprintf("0X%X", n), fmt.Sprintf("0x%04X", n), fmt.Sprintf("0o%o", n),
		fmt.Sprintf("0%o", n), fmt.Sprintf("0b%b", n), fmt.Sprintf("0x00%x", n), fmt.Sprintf("0O%o", n), fmt.Sprintf("0B%016b", n),
	}
}

// located is a one-line program that decodes at location n and nowhere else.
func located(n int) []byte {
	next := n + 7
	return []byte{byte(next), byte(next >> 8), 10, 0, 'X', 'Y', 0, 0, 0}
}

func c27(c *Ctx) {
	c.Section("numbers", Pick(c, "every number 0-1100 and 64400-65535 and every multiple of 64 ±1 in a rotating spelling, and 40 edge numbers in ten spellings, as the location of a program that decodes only there",
		"every number 0-65535 in ten spellings, as the location of a program that decodes only there"))
	loc := func(n int, s string, joined bool) {
		c.Case(func(t *T) {
			t.cleanScratch()
			t.State(hashString(1, s))
			prog, want := located(n), "   10 XY\n"
			if n == 0 || n+len(prog) > 0x10000 {
				// It would wrap, or read as its own length; an empty program shows that the number is taken.
				prog, want = []byte{0, 0, 0, 0}, ""
			}
			args := []string{"applesoft", "decode", "--location", s, "-"}
			if joined {
				args = []string{"applesoft", "decode", "--location=" + s, "-"}
			}
			out, err := t.rawTool(args, prog)
			if err != nil {
				t.Fail("decode with --location %s of a program at %d: %v", s, n, err)
			}
			if strings.Join(strings.Fields(string(out)), " ") != strings.Join(strings.Fields(want), " ") {
				t.Fail("decode with --location %s printed %q, want %q", s, out, want)
			}
			t.Outcome("read")
		}, "location %s", s)
	}
	for n := 0; n < 65536; n++ {
		if c.Thorough() {
			for i, s := range spellings(n) {
				loc(n, s, i%2 == 0)
			}
			continue
		}
		if n <= 1100 || n >= 64400 || n%64 <= 1 || n%64 == 63 {
			loc(n, spellings(n)[n%10], n%3 == 0)
		}
	}
	for _, n := range []int{0, 1, 7, 8, 9, 10, 15, 16, 17, 63, 64, 99, 100, 127, 128, 255, 256, 511, 512, 999, 1000, 2047, 2048, 2049, 4095, 4096, 8192, 9999, 10000, 16384, 24576, 32767, 32768, 32769, 49151, 49152, 60000, 65279, 65534, 65535} {
		for i, s := range spellings(n) {
			loc(n, s, i%2 == 1)
			loc(n, s, i%2 == 0)
		}
	}
	bad := []string{"65536", "65537", "0x10000", "0o200000", "0200000", "0b10000000000000000", "70000", "131072", "4294967296", "4294991872", "18446744073709551616", "99999999999999999999999", "-1", "-0x1", "-0", "+5", "",
		"x", "0x", "0o", "0b", "0b2", "0o8", "08", "09", "1e3", "6000h", "$6000", "6000H", "C000", "c000", "0xG", "0x60 00", " 5", "5 ", "\t5", "5\n", "1.0", "1.5", "0x1p3", "1,000", "٣", "0x6000,", "--5", "''", "0d10", "NaN", "true", "5_", "_5", "1__0", "0_x10", "0x10_", "1_000_", "0x", "0x__1"}
	c.Section("refused numbers", "59 things that are no 16-bit number, for each of the six number flags: the command fails and no file changes")
	bases := nkBases()
	tiny := oracleConvert(bases["tiny"].img, "raw", "do")
	setup := func(t *T) {
		t.cleanScratch()
		t.writeFile("x.dsk", tiny)
		t.writeFile("source", nkData(9, 300))
		t.writeFile("prog", []byte{9, 8, 10, 0, 4, 66, 67, 0, 0, 0})
	}
	flags := []struct {
		name string
		args func(s string) []string
	}{
		{"decode --location", func(s string) []string { return []string{"applesoft", "decode", "--location=" + s, "prog"} }},
		{"mksd --address", func(s string) []string { return []string{"mksd", "--address=" + s, "y.dsk", "source"} }},
		{"mksd --start", func(s string) []string { return []string{"mksd", "--start=" + s, "y.dsk", "source"} }},
		{"mkhello --address", func(s string) []string { return []string{"nakedos", "mkhello", "--address=" + s, "x.dsk", "FIVE"} }},
		{"mkhello --start", func(s string) []string { return []string{"nakedos", "mkhello", "--start=" + s, "x.dsk", "FIVE"} }},
		{"put --address", func(s string) []string { return []string{"put", "--address=" + s, "x.dsk", "NEWNAME", "source"} }},
	}
	for _, f := range flags {
		for _, s := range bad {
			c.Case(func(t *T) {
				setup(t)
				before := t.snapshot()
				t.State(hashString(2, f.name+s))
				if _, err := t.rawTool(f.args(s), nil); err == nil {
					t.Fail("%s accepted %q", f.name, s)
				}
				if d := snapDiff(before, t.snapshot()); d != "" {
					t.Fail("%s refused %q, but %s", f.name, s, d)
				}
				t.Outcome("refused")
			}, "%s %q", f.name, s)
		}
	}
	// same runs the tool with args and the request u in process on equal
	// directories: same success, same output, same files.
	same := func(u ucmd, args []string, stdin []byte) {
		c.Case(func(t *T) {
			setup(t)
			out, err := t.rawTool(args, stdin)
			got := t.snapshot()
			setup(t)
			if stdin == nil {
				stdin = []byte{}
			}
			wout, werr := t.withStdout(stdin, func() error { return u.in(t) })
			t.Step()
			want := t.snapshot()
			t.State(hashString(3, fmt.Sprint(args)))
			if (err == nil) != (werr == nil) {
				t.Fail("diskii %q: %v; the same request in process: %v", args, err, werr)
			}
			if d := snapDiff(want, got); d != "" {
				t.Fail("diskii %q does not do what the same request does: %s", args, d)
			}
			t.mustEqual(out, wout, "output of diskii %q", args)
			t.Outcome("same %v", err == nil)
		}, "%q", args)
	}
	c.Section("addresses", "every page as the address of mksd and mkhello, and starts around it, in rotating spellings: the files are those of the same numbers given in process")
	for page := 0; page < 256; page++ {
		sp := spellings(page << 8)
		for k := 0; k < 2; k++ {
			s := sp[(page+5*k)%10]
			same(ucmd{kind: "sd", image: "y.dsk", source: "source", addr: page << 8, start: 0xffff}, []string{"mksd", "--address", s, "y.dsk", "source"}, nil)
			same(ucmd{kind: "hello", image: "x.dsk", name: "FIVE", addr: page << 8, start: 0xffff}, []string{"nakedos", "mkhello", "x.dsk", "FIVE", "--address=" + s}, nil)
		}
		for _, d := range []int{0, 1, 255, 299, 300} {
			st := page<<8 + d
			if st > 0xffff {
				continue
			}
			s := spellings(st)[(page+d)%10]
			same(ucmd{kind: "sd", image: "y.dsk", source: "source", addr: page << 8, start: st}, []string{"mksd", "y.dsk", "--start=" + s, "source", "--address=" + sp[d%10]}, nil)
			same(ucmd{kind: "hello", image: "x.dsk", name: "FIVE", addr: page << 8, start: st}, []string{"nakedos", "mkhello", "--start", s, "--address", sp[d%10], "x.dsk", "FIVE"}, nil)
		}
	}
	c.Section("defaults", "omitted flags mean their documented defaults: address 6000, start the address, location 801, type binary, order and system automatic, standard input")
	same(ucmd{kind: "sd", image: "y.dsk", source: "source", addr: 0x6000, start: 0xffff}, []string{"mksd", "y.dsk", "source"}, nil)
	same(ucmd{kind: "sd", image: "y.dsk", source: "source", addr: 0x6000, start: 0x6000}, []string{"mksd", "y.dsk", "source"}, nil)
	same(ucmd{kind: "sd", image: "y.po", source: "source", addr: 0x6000, start: 0xffff}, []string{"mksd", "y.po", "source"}, nil)
	same(ucmd{kind: "sd", image: "y.po", order: "po", source: "source", addr: 0x6000, start: 0xffff}, []string{"mksd", "y.po", "source"}, nil)
	same(ucmd{kind: "hello", image: "x.dsk", name: "FIVE", addr: 0x6000, start: 0xffff}, []string{"nakedos", "mkhello", "x.dsk", "FIVE"}, nil)
	same(ucmd{kind: "hello", image: "x.dsk", order: "do", name: "FIVE", addr: 0x6000, start: 0x6000}, []string{"nakedos", "mkhello", "x.dsk", "FIVE"}, nil)
	same(ucmd{kind: "put", image: "x.dsk", ftype: "B", name: "NEWNAME", source: "source", addr: 0x6000}, []string{"put", "x.dsk", "NEWNAME", "source"}, nil)
	same(ucmd{kind: "put", image: "x.dsk", order: "do", ftype: "BIN", name: "NEWNAME", source: "source"}, []string{"put", "x.dsk", "NEWNAME", "source"}, nil)
	same(ucmd{kind: "put", image: "x.dsk", ftype: "B", name: "FIVE", source: "source"}, []string{"put", "x.dsk", "FIVE", "source"}, nil)
	same(ucmd{kind: "rm", image: "x.dsk", name: "FIVE"}, []string{"rm", "x.dsk", "FIVE"}, nil)
	same(ucmd{kind: "rm", image: "x.dsk", name: "NONAME"}, []string{"rm", "x.dsk", "NONAME"}, nil)
	same(ucmd{kind: "dump", image: "x.dsk", name: "SEVEN7"}, []string{"dump", "x.dsk", "SEVEN7"}, nil)
	same(ucmd{kind: "ls", image: "x.dsk"}, []string{"ls", "x.dsk"}, nil)
	same(ucmd{kind: "reorder", image: "x.dsk"}, []string{"reorder", "x.dsk"}, nil)
	same(ucmd{kind: "reorder", image: "x.dsk", output: "y.po"}, []string{"reorder", "x.dsk", "y.po"}, nil)
	same(ucmd{kind: "reorder", image: "x.dsk", order: "do", newOrder: "po", output: "y.po"}, []string{"reorder", "x.dsk", "y.po"}, nil)
	same(ucmd{kind: "filetypes"}, []string{"filetypes"}, nil)
	at801 := append([]byte{0x09, 0x08, 0x0a, 0x00, 0x04, 0x07, 0x42, 0x00}, 0, 0)
	same(ucmd{kind: "decode", image: "-", addr: 0x801}, []string{"applesoft", "decode", "-"}, at801)
	same(ucmd{kind: "decode", image: "-", addr: 0x801}, []string{"applesoft", "decode"}, at801)
	same(ucmd{kind: "decode", image: "-", addr: 0x801}, []string{"applesoft", "decode", "--location=0x801"}, at801)

	c.Section("spellings", "every alias and flag form of every command, before and after the arguments, alone and in pairs, against the same request in process")
	type form struct {
		u     func(u *ucmd)
		forms [][]string
	}
	order := func(o string) form {
		return form{func(u *ucmd) { u.order = o }, [][]string{{"--order", o}, {"--order=" + o}}}
	}
	system := func(o string) form {
		return form{func(u *ucmd) { u.system = o }, [][]string{{"--system", o}, {"--system=" + o}}}
	}
	force := func(forms ...string) form {
		f := form{u: func(u *ucmd) { u.force = true }}
		for _, s := range forms {
			f.forms = append(f.forms, []string{s})
		}
		return f
	}
	debug := form{func(u *ucmd) {}, [][]string{{"-v"}, {"-vv"}, {"--debug"}, {"-v", "-v", "-v"}}}
	cmds := []struct {
		u     ucmd
		names []string
		args  []string
		forms []form
	}{
		{ucmd{kind: "ls", image: "x.dsk"}, []string{"ls", "list", "cat", "catalog"}, []string{"x.dsk"}, []form{order("do"), order("po"), order("auto"), system("auto"), system("dos3"), system("nakedos"), system("prodos"), force("-s", "--short-names")}},
		{ucmd{kind: "rm", image: "x.dsk", name: "FIVE"}, []string{"rm", "delete"}, []string{"x.dsk", "FIVE"}, []form{order("do"), order("po"), order("auto"), system("auto"), system("dos3"), force("-f", "--missing-ok"), debug}},
		{ucmd{kind: "rm", image: "x.dsk", name: "NONAME"}, []string{"rm", "delete"}, []string{"x.dsk", "NONAME"}, []form{order("do"), force("-f", "--missing-ok"), debug}},
		{ucmd{kind: "put", image: "x.dsk", name: "FIVE", source: "source", ftype: "B"}, []string{"put"}, []string{"x.dsk", "FIVE", "source"}, []form{order("do"), order("po"), system("auto"), system("dos3"), force("-f", "--overwrite"), debug,
			{func(u *ucmd) { u.ftype = "T" }, [][]string{{"--filetype-name", "T"}, {"--filetype-name=T"}}}, {func(u *ucmd) {}, [][]string{{"--filetype-name=BIN"}, {"--address=5"}, {"--address", "0x300"}}}}},
		{ucmd{kind: "put", image: "x.dsk", name: "NEWNAME", source: "source", ftype: "B"}, []string{"put"}, []string{"x.dsk", "NEWNAME", "source"}, []form{order("do"), force("-f", "--overwrite"), debug}},
		{ucmd{kind: "dump", image: "x.dsk", name: "SEVEN7"}, []string{"dump"}, []string{"x.dsk", "SEVEN7"}, []form{order("do"), order("po"), order("auto"), system("auto"), system("dos3"), debug}},
		{ucmd{kind: "reorder", image: "x.dsk", output: "y.dsk"}, []string{"reorder"}, []string{"x.dsk", "y.dsk"}, []form{order("do"), order("po"), order("auto"), force("-f", "--overwrite"), debug,
			{func(u *ucmd) { u.newOrder = "po" }, [][]string{{"--new-order", "po"}, {"--new-order=po"}}}, {func(u *ucmd) { u.newOrder = "do" }, [][]string{{"--new-order", "do"}, {"--new-order=do"}}}}},
		{ucmd{kind: "reorder", image: "x.dsk", output: "source"}, []string{"reorder"}, []string{"x.dsk", "source"}, []form{force("-f", "--overwrite"), {func(u *ucmd) { u.newOrder = "po" }, [][]string{{"--new-order", "po"}}}}},
		{ucmd{kind: "hello", image: "x.dsk", name: "FIVE", addr: 0x6000, start: 0xffff}, []string{"nakedos mkhello"}, []string{"x.dsk", "FIVE"}, []form{order("do"), order("po"), order("auto"), debug}},
		{ucmd{kind: "sd", image: "y.dsk", source: "source", addr: 0x6000, start: 0xffff}, []string{"mksd"}, []string{"y.dsk", "source"}, []form{order("do"), order("po"), order("auto"), debug}},
		{ucmd{kind: "decode", image: "prog", addr: 0x801}, []string{"applesoft decode"}, []string{"prog"}, []form{force("-r", "--raw"), debug}},
		{ucmd{kind: "filetypes"}, []string{"filetypes"}, nil, []form{force("--all"), debug}},
	}
	for _, k := range cmds {
		for _, name := range k.names {
			parts := strings.Fields(name)
			same(k.u, append(append([]string{}, parts...), k.args...), nil)
			if len(k.args) > 0 {
				same(k.u, append(append(append([]string{}, parts...), "--"), k.args...), nil)
			}
			for i, f := range k.forms {
				for _, a := range f.forms {
					u := k.u
					f.u(&u)
					same(u, append(append(append([]string{}, parts...), a...), k.args...), nil)
					same(u, append(append(append([]string{}, parts...), k.args...), a...), nil)
					if len(k.args) > 1 {
						same(u, append(append(append(append([]string{}, parts...), k.args[0]), a...), k.args[1:]...), nil)
					}
					if a[0][0] == '-' && a[0][1] == 'v' || a[0] == "--debug" {
						same(u, append(append(append([]string{}, a...), parts...), k.args...), nil)
					}
					for j := i + 1; j < len(k.forms); j++ {
						// The later of two values of one flag is not judged.
						if strings.SplitN(k.forms[j].forms[0][0], "=", 2)[0] == strings.SplitN(a[0], "=", 2)[0] {
							continue
						}
						for _, b := range k.forms[j].forms[:1] {
							w := u
							k.forms[j].u(&w)
							same(w, append(append(append(append([]string{}, parts...), b...), k.args...), a...), nil)
						}
					}
				}
			}
		}
	}
	c.Section("refused words", "unknown commands, flags and values, missing and extra arguments: the tool fails and no file changes")
	words := [][]string{{}, {"foo"}, {"lss", "x.dsk"}, {"ls"}, {"ls", "x.dsk", "A", "B"}, {"rm", "x.dsk"}, {"rm", "x.dsk", "FIVE", "B"}, {"delete"}, {"put", "x.dsk", "NEWNAME"}, {"put", "x.dsk", "NEWNAME", "source", "B"}, {"dump", "x.dsk"}, {"dump", "x.dsk", "FIVE", "B"},
		{"reorder"}, {"reorder", "x.dsk", "y.po", "z"}, {"mksd", "y.dsk"}, {"mksd", "y.dsk", "source", "z"}, {"nakedos"}, {"nakedos", "foo"}, {"nakedos", "mkhello", "x.dsk"}, {"nakedos", "mkhello", "x.dsk", "FIVE", "B"}, {"applesoft"}, {"applesoft", "foo"}, {"applesoft", "decode", "prog", "B"}, {"filetypes", "B"}, {"mkhello", "x.dsk", "FIVE"}, {"decode", "prog"},
		{"rm", "--force", "x.dsk", "FIVE"}, {"rm", "-x", "x.dsk", "FIVE"}, {"put", "-s", "x.dsk", "NEWNAME", "source"}, {"put", "--foo=1", "x.dsk", "NEWNAME", "source"}, {"mksd", "-f", "y.dsk", "source"}, {"nakedos", "mkhello", "-f", "x.dsk", "FIVE"}}
	for _, o := range []string{"raw", "DO", "x", "", "dos", "auto,do"} {
		words = append(words, []string{"ls", "--order=" + o, "x.dsk"}, []string{"rm", "--order=" + o, "x.dsk", "FIVE"}, []string{"put", "--order=" + o, "x.dsk", "NEWNAME", "source"}, []string{"dump", "--order=" + o, "x.dsk", "FIVE"},
			[]string{"reorder", "--order=" + o, "x.dsk", "y.po"}, []string{"reorder", "--new-order=" + o, "x.dsk", "y.po"}, []string{"mksd", "--order=" + o, "y.dsk", "source"}, []string{"nakedos", "mkhello", "--order=" + o, "x.dsk", "FIVE"})
	}
	for _, s := range []string{"foo", "DOS3", "", "pascal"} {
		words = append(words, []string{"ls", "--system=" + s, "x.dsk"}, []string{"rm", "--system=" + s, "x.dsk", "FIVE"}, []string{"put", "--system=" + s, "x.dsk", "NEWNAME", "source"}, []string{"dump", "--system=" + s, "x.dsk", "FIVE"})
	}
	for _, w := range words {
		c.Case(func(t *T) {
			setup(t)
			before := t.snapshot()
			t.State(hashString(4, fmt.Sprint(w)))
			if _, err := t.rawTool(w, nil); err == nil {
				t.Fail("diskii %q succeeded", w)
			}
			if d := snapDiff(before, t.snapshot()); d != "" {
				t.Fail("diskii %q failed, but %s", w, d)
			}
			t.Outcome("refused")
		}, "%q", w)
	}
}
