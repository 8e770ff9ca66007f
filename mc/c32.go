package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
)

func init() {
	props["C32"] = prop{run: c32, level: "model_checking", assum: []string{
		"a file called - in the working directory is not considered",
		"error messages may name the file and so differ",
	}}
}

// piped runs the tool with standard input and output as pipes, or as files
// outside the scratch directory.
func piped(t *T, u ucmd, stdin []byte, files bool) ([]byte, error) {
	if !files {
		return u.tool(t, stdin)
	}
	t.Step()
	dir, err := os.MkdirTemp(t.c.work, "std")
	t.noErr(err, "scratch")
	defer os.RemoveAll(dir)
	t.noErr(os.WriteFile(dir+"/in", stdin, 0o600), "scratch")
	in, err := os.Open(dir + "/in")
	t.noErr(err, "scratch")
	defer in.Close()
	out, err := os.Create(dir + "/out")
	t.noErr(err, "scratch")
	x := exec.Command(t.c.bin, u.args()...)
	var msg bytes.Buffer
	x.Dir, x.Stdin, x.Stdout, x.Stderr = t.c.scratch, in, out, &msg
	err = x.Run()
	out.Close()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		fmt.Fprintln(diag, "cannot run the tool:", err)
		os.Exit(3)
	}
	if err != nil && (ee.ExitCode() < 0 || bytes.Contains(msg.Bytes(), []byte("goroutine "))) {
		t.Fail("%v: the tool crashed: %v: %.300s", u, err, msg.Bytes())
	}
	b, rerr := os.ReadFile(dir + "/out")
	t.noErr(rerr, "scratch")
	if now, _ := os.ReadFile(dir + "/in"); !bytes.Equal(now, stdin) {
		t.Fail("%v changed the file standard input comes from", u)
	}
	return b, err
}

// c32Pair makes the request once on files and once with the given parts
// replaced by standard input and output, and compares.
func c32Pair(t *T, what string, setup func(), onFile, onStd ucmd, stdin []byte, result string, files bool) bool {
	t.cleanScratch()
	setup()
	out, ferr := onFile.tool(t, nil)
	want := out
	if result != "" { // what is printed instead of being left in a file
		if len(out) != 0 {
			t.Fail("%v prints %d bytes besides writing its file", onFile, len(out))
		}
		want, _ = os.ReadFile(t.path(result))
	}
	after := t.snapshot()
	t.cleanScratch()
	setup()
	before := t.snapshot()
	got, serr := piped(t, onStd, stdin, files)
	if (ferr != nil) != (serr != nil) {
		t.Fail("%s: %v: %v; the same on a file: %v", what, onStd, serr, ferr)
	}
	now := t.snapshot()
	if serr != nil {
		if len(got) != 0 {
			t.Fail("%s: %v is refused but prints %d bytes", what, onStd, len(got))
		}
		if d := snapDiff(before, now); d != "" {
			t.Fail("%s: refused %v: %s", what, onStd, d)
		}
		return false
	}
	t.mustEqual(got, want, "%s: what %v prints, against the same on a file", what, onStd)
	if result != "" { // no file is touched
		after = before
	}
	if d := snapDiff(after, now); d != "" {
		t.Fail("%s: %v: %s", what, onStd, d)
	}
	return true
}

func c32(c *Ctx) {
	type stored struct {
		what string
		data []byte
	}
	var images []stored
	for _, f := range floppies() {
		images = append(images, stored{f.what + " in DOS order", f.data}, stored{f.what + " in ProDOS order", oracleConvert(f.data, "do", "po")})
	}
	for _, f := range c21Images() {
		if f.data != nil && len(f.data) != floppy {
			images = append(images, stored{f.what, f.data})
		}
	}
	reqs := append(c28Requests(),
		ucmd{kind: "put", ftype: "B", name: "BAD NAME", source: "source"}, ucmd{kind: "put", ftype: "B", name: "DF09", source: "empty"}, ucmd{kind: "put", ftype: "B", name: "DF09", source: "huge"}, ucmd{kind: "put", ftype: "B", name: "DF09", source: "source", order: "do"}, ucmd{kind: "put", ftype: "B", name: "DF09", source: "nosuch"},
		ucmd{kind: "rm", name: ""}, ucmd{kind: "rm", name: "NOSUCH", force: true}, ucmd{kind: "rm", name: "DF07", order: "po"}, ucmd{kind: "rm", name: "DF07", order: "do"}, ucmd{kind: "hello", name: "DF07", addr: 0x4000, start: 0xFFFF, order: "po"},
		ucmd{kind: "ls", force: true}, ucmd{kind: "ls", order: "po", system: "prodos"}, ucmd{kind: "dump", name: "five", order: "po"})
	setup := func(t *T, d []byte) func() {
		return func() {
			t.writeFile("x", d)
			t.writeFile("source", nkData(1, 300))
			t.writeFile("big", nkData(2, 1200))
			t.writeFile("huge", nkData(3, 200000))
			t.writeFile("empty", nil)
			t.writeFile("other", nkData(4, 77))
		}
	}
	sources := map[string][]byte{"source": nkData(1, 300), "big": nkData(2, 1200), "huge": nkData(3, 200000), "empty": {}}
	c.Section("images from standard input", fmt.Sprintf("each of %d requests on each of %d images: given the image on standard input, and its source on it, against the same with files; pipes and redirected files", len(reqs), len(images)))
	for i, img := range images {
		for j, u := range reqs {
			switch u.kind {
			case "put", "rm", "hello", "ls", "dump":
			default:
				continue
			}
			c.Case(func(t *T) {
				files := (i+j)%2 == 0
				f, s := u, u
				f.image, s.image = "x", "-"
				result := "x"
				if u.reading() {
					result = ""
				}
				ok := c32Pair(t, img.what, setup(t, img.data), f, s, img.data, result, files)
				if u.kind == "put" {
					if src, known := sources[u.source]; known {
						s.image, s.source = "x", "-"
						c32Pair(t, img.what, setup(t, img.data), f, s, src, "", !files)
					}
					s.image, s.source = "-", "-"
					t.cleanScratch()
					setup(t, img.data)()
					before := t.snapshot()
					out, err := piped(t, s, img.data, files)
					if err == nil || len(out) != 0 {
						t.Fail("%v: image and source both from standard input: %v, %d bytes printed", s, err, len(out))
					}
					if d := snapDiff(before, t.snapshot()); d != "" {
						t.Fail("%v: %s", s, d)
					}
				}
				t.State(hashString(1, fmt.Sprint(i, j)))
				t.Outcome("%s %v", u.kind, ok)
			}, "%v on %s", u, img.what)
		}
	}
	c.Section("every file", "every file listed on every image dumped from standard input, and every directory listed")
	for i, img := range images {
		c.Case(func(t *T) {
			t.cleanScratch()
			t.writeFile("x", img.data)
			names, err := ucmd{kind: "ls", image: "x"}.tool(t, nil)
			short, _ := ucmd{kind: "ls", image: "x", force: true}.tool(t, nil)
			if err != nil {
				t.Outcome("not listed")
				return
			}
			for j, name := range strings.Split(strings.TrimSuffix(string(names)+string(short), "\n"), "\n") {
				for _, kind := range []string{"dump", "ls"} {
					f := ucmd{kind: kind, image: "x", name: name}
					s := f
					s.image = "-"
					ok := c32Pair(t, img.what, setup(t, img.data), f, s, img.data, "", j%2 == 0)
					t.Outcome("%s %v", kind, ok)
				}
				if j > Pick(c, 30, 400) {
					break
				}
			}
			t.State(hashInt(9, i))
		}, "%s", img.what)
	}
	c.Section("reorder", "every order and new order with the input, the output or both standard, or in place, against files of the same extensions")
	flags := []string{"", "auto", "do", "po"}
	for i, img := range images {
		if !c.Thorough() && i > 3 && i < len(images)-6 && i%11 != 0 {
			continue
		}
		for _, order := range flags {
			for _, newOrder := range flags {
				for _, force := range []bool{false, true} {
					c.Case(func(t *T) {
						su := setup(t, img.data)
						for n, p := range []struct{ in, out, sin, sout string }{
							{"x", "y", "-", "-"}, {"x", "y", "x", "-"}, {"x", "y", "-", "y"}, {"x.do", "y", "x.do", "-"}, {"x.po", "y", "x.po", "-"}, {"x", "y.do", "-", "y.do"}, {"x", "y.po", "-", "y.po"}, {"x", "", "-", ""}, {"x", "other", "-", "other"}, {"x.po", "y.do", "x.po", "y.do"},
						} {
							all := func() {
								su()
								t.writeFile("x.do", img.data)
								t.writeFile("x.po", img.data)
							}
							f := ucmd{kind: "reorder", order: order, newOrder: newOrder, force: force, image: p.in, output: p.out}
							s := f
							s.image, s.output = p.sin, p.sout
							result := ""
							if p.sout == "-" {
								result = p.out
							} else if p.sin == "-" && p.out == "" {
								result = "x"
							}
							ok := c32Pair(t, img.what, all, f, s, img.data, result, n%2 == 0)
							t.Outcome("reorder %v", ok)
						}
						t.State(hashString(2, fmt.Sprint(i, order, newOrder, force)))
					}, "%s, order %q new order %q force %v", img.what, order, newOrder, force)
				}
			}
		}
	}
	c.Section("lengths", "put and mksd of sources of every length 0-1100 and around the limits from standard input; mksd onto standard output")
	var lens []int
	for n := 0; n <= Pick(c, 1100, 9000); n++ {
		lens = append(lens, n)
	}
	for _, n := range []int{4095, 4096, 4097, 8192, 24575, 24576, 24577, 32767, 32768, 32769, 45055, 45056, 45057, 65535, 65536, 65537, floppy - 1, floppy, floppy + 1} {
		lens = append(lens, n)
	}
	bases := nkBases()
	for _, n := range lens {
		c.Case(func(t *T) {
			src := nkData(n, n)
			img := oracleConvert(bases["tiny"].img, "raw", "do")
			all := func() { t.writeFile("x", img); t.writeFile("source", src) }
			u := ucmd{kind: "put", ftype: "B", name: "NEWNAME", image: "x", source: "source"}
			s := u
			s.source = "-"
			c32Pair(t, "put", all, u, s, src, "", n%2 == 0)
			ends := []string{"\n", "\r\n", "\x00", "\x1a", "\x8d", " ", "\x00\x00"}
			for i, e := range ends { // bytes a text stream might lose
				if r := (n + 2) % 256; len(e) <= n && (r < 5 || i == n%len(ends)) {
					text := append(clone(src[:n-len(e)]), e...)
					c32Pair(t, "put", func() { t.writeFile("x", img); t.writeFile("source", text) }, u, s, text, "", n%2 == 1)
				}
			}
			addr := 0x900 + n%3*0x100
			u = ucmd{kind: "sd", image: "y", source: "source", addr: addr, start: []int{0xFFFF, addr, addr + n/2, addr + n}[n%4], order: []string{"", "do", "po"}[n%3]}
			s = u
			s.source = "-"
			c32Pair(t, "mksd", all, u, s, src, "", n%2 == 1)
			s.image = "-"
			c32Pair(t, "mksd", all, u, s, src, "y", n%2 == 0)
			s.source = "source"
			ok := c32Pair(t, "mksd", all, u, s, nil, "y", n%2 == 1)
			t.State(hashInt(3, n))
			t.Outcome("mksd %v", ok)
		}, "%d bytes", n)
	}
	c.Section("decode", "programs and other bytes of many lengths decoded from standard input, - and nothing, raw and escaped, against a file")
	for n := 0; n <= 300; n++ {
		c.Case(func(t *T) {
			prog := c25Program(n)
			if n%5 == 4 {
				prog = nkData(n, n)
			}
			all := func() { t.writeFile("prog", prog); t.writeFile("other", nkData(4, 77)) }
			for _, raw := range []bool{false, true} {
				for k, addr := range []int{0x801, 0x802} {
					u := ucmd{kind: "decode", image: "prog", addr: addr, force: raw}
					s := u
					s.image = "-"
					ok := c32Pair(t, "decode", all, u, s, prog, "", (n+k)%2 == 0)
					t.Outcome("decode %v", ok)
					s.image = ""
					c32Pair(t, "decode", all, u, s, prog, "", (n+k)%2 == 1)
				}
			}
			t.State(hashInt(4, n))
		}, "program %d", n)
	}
}
