package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"regexp"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C25"] = prop{run: c25, level: "fault_enumeration", assum: []string{
		"faults are injected with RLIMIT_FSIZE (a write is cut at the limit, then refused), full and closed outputs, and failing system calls (strace) on files of a scratch directory and standard output",
		"what is left of the output after a reported failure is not judged",
		"the complete output is what the library calls behind the command and the independent interleave model produce; mksd, mkhello and filetypes are compared with their own fault-free run",
	}}
}

// ioCase is one command with everything it needs.
type ioCase struct {
	u     ucmd
	files map[string][]byte
	out   string // output file; "" for standard output
	stdin string // file given on standard input
	want  []byte // nil: the fault-free run decides
}

func (k *ioCase) setup(t *T) {
	t.cleanScratch()
	for n, b := range k.files {
		t.writeFile(n, b)
	}
}

// full is the complete output; it also runs the command without any fault.
func (k *ioCase) full(t *T) []byte {
	k.setup(t)
	var in []byte
	if k.stdin != "" {
		in = k.files[k.stdin]
	}
	out, err := t.withStdout(in, func() error { return k.u.in(t) })
	t.noErr(err, "%v without faults", k.u)
	got := out
	if k.out != "" {
		got = t.readFile(t.path(k.out))
		if len(out) > 0 {
			t.Fail("%v also printed %q", k.u, out)
		}
	}
	if k.want != nil {
		t.mustEqual(got, k.want, "output of %v without faults", k.u)
	}
	if len(got) == 0 {
		t.Fail("%v without faults wrote nothing", k.u)
	}
	return got
}

// limited runs f with no file allowed to grow beyond n bytes.
func limited(n int, f func() error) error {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		fmt.Fprintln(diag, err)
		os.Exit(3)
	}
	signal.Ignore(syscall.SIGXFSZ)
	lim := syscall.Rlimit{Cur: uint64(n), Max: old.Max}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		fmt.Fprintln(diag, err)
		os.Exit(3)
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			fmt.Fprintln(diag, err)
			os.Exit(3)
		}
	}()
	return f()
}

func ioCases() []*ioCase {
	base := nkBases()["tiny"].img
	do := oracleConvert(base, "raw", "do")
	put := func(order, name string, data []byte) []byte {
		op, _, err := disk.OpenImage(oracleConvert(base, "raw", orderOf(order)), "x", orderOf(order), "nakedos", factories(), 0)
		if err != nil {
			return nil
		}
		if _, err := op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: len(data), Type: types.FiletypeBinary}, Data: clone(data), StartAddress: 0x6000}, true); err != nil {
			return nil
		}
		return oracleConvert(op.GetBytes(), "raw", orderOf(order))
	}
	rm := func(name string) []byte {
		op, _, err := disk.OpenImage(clone(do), "x", "do", "nakedos", factories(), 0)
		if err != nil {
			return nil
		}
		if _, err := op.Delete(name); err != nil {
			return nil
		}
		return oracleConvert(op.GetBytes(), "raw", "do")
	}
	src := nkData(3, 700)
	many := oracleConvert(nkBases()["numbers"].img, "raw", "do")
	var ls strings.Builder
	if op, _, err := disk.OpenImage(clone(many), "x", "do", "nakedos", factories(), 0); err == nil {
		ds, _ := op.Catalog("")
		for _, d := range ds {
			ls.WriteString(d.Fullname + "\n")
		}
	}
	dosImg := dosBase(0)
	var dosLs string
	var dosName string
	var dosData []byte
	if op, _, err := disk.OpenImage(clone(dosImg), "x.do", "do", "dos3", factories(), 0); err == nil {
		ds, _ := op.Catalog("")
		for _, d := range ds {
			dosLs += d.Name + "\n"
			if fi, err := op.GetFile(d.Name); err == nil && len(fi.Data) > len(dosData) {
				dosName, dosData = d.Name, fi.Data
			}
		}
	}
	proImg := c22Pro()
	var proLs string
	if op, _, err := disk.OpenImage(clone(proImg), "x.po", "po", "prodos", factories(), 0); err == nil {
		ds, _ := op.Catalog("")
		for _, d := range ds {
			proLs += d.Name + "\n"
		}
	}
	prog := c25Program(60)
	text := ""
	if l, err := applesoft.Decode(clone(prog), 0x801); err == nil {
		text = l.String()
	}
	cs := []*ioCase{
		{u: ucmd{kind: "put", ftype: "B", name: "NEWNAME", image: "x.dsk", source: "source"}, files: map[string][]byte{"x.dsk": do, "source": src}, out: "x.dsk", want: put("do", "NEWNAME", src)},
		{u: ucmd{kind: "put", ftype: "B", name: "FIVE", image: "x.po", source: "source", force: true}, files: map[string][]byte{"x.po": oracleConvert(base, "raw", "po"), "source": src}, out: "x.po", want: put("po", "FIVE", src)},
		{u: ucmd{kind: "rm", name: "FIVE", image: "x.dsk"}, files: map[string][]byte{"x.dsk": do}, out: "x.dsk", want: rm("FIVE")},
		{u: ucmd{kind: "hello", name: "FIVE", image: "x.dsk", addr: 0x6000, start: 0xFFFF}, files: map[string][]byte{"x.dsk": do}, out: "x.dsk"},
		{u: ucmd{kind: "sd", image: "new.dsk", source: "source", addr: 0x6000, start: 0xFFFF}, files: map[string][]byte{"source": src}, out: "new.dsk"},
		{u: ucmd{kind: "sd", image: "old.po", source: "source", addr: 0x6000, start: 0xFFFF}, files: map[string][]byte{"source": src, "old.po": []byte("old")}, out: "old.po"},
		{u: ucmd{kind: "reorder", image: "x.dsk", output: "new.po"}, files: map[string][]byte{"x.dsk": do}, out: "new.po", want: oracleConvert(do, "do", "po")},
		{u: ucmd{kind: "reorder", image: "x.dsk", newOrder: "po"}, files: map[string][]byte{"x.dsk": do}, out: "x.dsk", want: oracleConvert(do, "do", "po")},
		{u: ucmd{kind: "reorder", image: "x.po", output: "-", newOrder: "do"}, files: map[string][]byte{"x.po": do}, want: oracleConvert(do, "po", "do")},
		{u: ucmd{kind: "ls", image: "x.dsk"}, files: map[string][]byte{"x.dsk": many}, want: []byte(ls.String())},
		{u: ucmd{kind: "ls", image: "x.do"}, files: map[string][]byte{"x.do": dosImg}, want: []byte(dosLs)},
		{u: ucmd{kind: "ls", image: "x.po", force: true}, files: map[string][]byte{"x.po": proImg}, want: []byte(proLs)},
		{u: ucmd{kind: "dump", image: "x.dsk", name: "SEVEN7"}, files: map[string][]byte{"x.dsk": do}, want: nkFileOf(base, 7)},
		{u: ucmd{kind: "dump", image: "x.do", name: dosName}, files: map[string][]byte{"x.do": dosImg}, want: dosData},
		{u: ucmd{kind: "decode", image: "prog", addr: 0x801}, files: map[string][]byte{"prog": prog}, want: []byte(basic.ChevronControlCodes(text))},
		{u: ucmd{kind: "decode", image: "prog", addr: 0x801, force: true}, files: map[string][]byte{"prog": prog}, want: []byte(text)},
		{u: ucmd{kind: "filetypes"}}, {u: ucmd{kind: "filetypes", force: true}},
		// the same through standard input and output
		{u: ucmd{kind: "put", ftype: "B", name: "NEWNAME", image: "-", source: "source"}, files: map[string][]byte{"x.dsk": do, "source": src}, stdin: "x.dsk", want: put("do", "NEWNAME", src)},
		{u: ucmd{kind: "put", ftype: "B", name: "NEWNAME", image: "x.dsk", source: "-"}, files: map[string][]byte{"x.dsk": do, "source": src}, stdin: "source", out: "x.dsk", want: put("do", "NEWNAME", src)},
		{u: ucmd{kind: "rm", name: "FIVE", image: "-"}, files: map[string][]byte{"x.dsk": do}, stdin: "x.dsk", want: rm("FIVE")},
		{u: ucmd{kind: "hello", name: "FIVE", image: "-", addr: 0x6000, start: 0xFFFF}, files: map[string][]byte{"x.dsk": do}, stdin: "x.dsk"},
		{u: ucmd{kind: "sd", image: "new.dsk", source: "-", addr: 0x6000, start: 0xFFFF}, files: map[string][]byte{"source": src}, stdin: "source", out: "new.dsk"},
		{u: ucmd{kind: "sd", image: "-", source: "source", addr: 0x6000, start: 0xFFFF}, files: map[string][]byte{"source": src}},
		{u: ucmd{kind: "reorder", image: "-", output: "new.po", newOrder: "po"}, files: map[string][]byte{"x.dsk": do}, stdin: "x.dsk", out: "new.po", want: oracleConvert(do, "do", "po")},
		{u: ucmd{kind: "reorder", image: "-", newOrder: "po"}, files: map[string][]byte{"x.dsk": do}, stdin: "x.dsk", want: oracleConvert(do, "do", "po")},
		{u: ucmd{kind: "ls", image: "-"}, files: map[string][]byte{"x.dsk": many}, stdin: "x.dsk", want: []byte(ls.String())},
		{u: ucmd{kind: "dump", image: "-", name: "SEVEN7"}, files: map[string][]byte{"x.dsk": do}, stdin: "x.dsk", want: nkFileOf(base, 7)},
		{u: ucmd{kind: "decode", image: "-", addr: 0x801}, files: map[string][]byte{"prog": prog}, stdin: "prog", want: []byte(basic.ChevronControlCodes(text))},
	}
	return cs
}

func nkFileOf(img []byte, f byte) []byte {
	owner := nkMap(img)
	return nkFile(img, &owner, f)
}

// c25Program is an Applesoft program of n lines with control characters.
func c25Program(n int) []byte {
	body := []byte{0, 0}
	at := 0x801
	for i := 0; i < n; i++ {
		line := []byte{0, 0, byte(i * 10), byte(i * 10 >> 8), 0xBA, '"', byte('A' + i%26), 4, 'X', 13, '"', ':', 0xAB, '1', '0', 0}
		at += len(line)
		line[0], line[1] = byte(at), byte(at>>8)
		body = append(body, line...)
	}
	body = append(body, 0, 0)
	l := len(body) - 2
	body[0], body[1] = byte(l), byte(l>>8)
	return body
}

func c25(c *Ctx) {
	cases := ioCases()
	points := func(size int) []int {
		var ns []int
		seen := map[int]bool{}
		add := func(n int) {
			if n >= 0 && n <= size+1 && !seen[n] {
				seen[n] = true
				ns = append(ns, n)
			}
		}
		if c.Thorough() || size < 3000 {
			for n := 0; n <= size+1; n++ {
				add(n)
			}
			return ns
		}
		for n := 0; n <= 520; n++ {
			add(n)
		}
		for b := 256; b <= size+256; b += 256 {
			if b%4096 == 0 || b > size-1024 {
				for d := -2; d <= 2; d++ {
					add(b + d)
				}
			} else {
				add(b)
			}
		}
		for n := size - 300; n <= size+1; n++ {
			add(n)
		}
		return ns
	}
	c.Section("output cut off", Pick(c, "every command with its output refused after 0-520 bytes, at every multiple of 256, around every multiple of 4096 and in the last 300 bytes; every byte for outputs below 3000 bytes", "every command with its output refused after every number of bytes"))
	for i, k := range cases {
		// The size does not depend on the fault; images are floppy-sized.
		size := floppy
		if k.want != nil {
			size = len(k.want)
		} else if k.u.kind == "filetypes" {
			size = 12000
		}
		if size == 0 {
			c.Case(func(t *T) { t.Fail("%v: the library gives no output", k.u) }, "%v", k.u)
			continue
		}
		var full []byte
		for _, n := range points(size) {
			c.Case(func(t *T) {
				if full == nil {
					full = k.full(t)
				}
				k.setup(t)
				var in []byte
				if k.stdin != "" {
					in = k.files[k.stdin]
				}
				out, err := t.withStdout(in, func() error {
					return limited(n, func() error { return k.u.in(t) })
				})
				if n >= len(full) {
					t.noErr(err, "%v with room for %d bytes", k.u, n)
				}
				if err != nil {
					t.outcome = k.u.kind + " failed"
					t.State(hashInt(hashInt(1, i), n))
					return
				}
				if k.out != "" {
					out = t.readFile(t.path(k.out))
				}
				if !bytes.Equal(out, full) {
					t.Fail("%v succeeded with its output cut at %d bytes: %s", k.u, n, diffAt(out, full))
				}
				t.outcome = k.u.kind + " succeeded"
				t.State(hashInt(hashInt(1, i), n))
			}, "%v with output cut at %d bytes", k.u, n)
		}
	}

	c.Section("unwritable outputs", "every command with standard output full, closed or read-only, or its file a full device, a directory or in a missing directory; in process and with the built tool")
	for i, k := range cases {
		for _, kind := range []string{"full", "closed pipe", "read-only"} {
			for _, tool := range []bool{false, true} {
				if k.out != "" {
					continue
				}
				c.Case(func(t *T) {
					k.setup(t)
					var f *os.File
					var err error
					switch kind {
					case "full":
						f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
					case "closed pipe":
						var r *os.File
						r, f, err = os.Pipe()
						if err == nil {
							err = r.Close()
						}
					default:
						f, err = os.Open(t.writeFile("readonly", nil))
					}
					t.noErr(err, "scratch")
					defer f.Close()
					if tool {
						x := exec.Command(t.c.bin, k.u.args()...)
						x.Dir = t.c.scratch
						if k.stdin != "" {
							x.Stdin = bytes.NewReader(k.files[k.stdin])
						}
						x.Stdout = f
						err = x.Run()
						t.Step()
					} else {
						var in []byte
						if k.stdin != "" {
							in = k.files[k.stdin]
						}
						_, err = t.withStdout(in, func() error {
							old := os.Stdout
							os.Stdout = f
							defer func() { os.Stdout = old }()
							return k.u.in(t)
						})
					}
					if err == nil {
						t.Fail("%v succeeded although standard output is %s", k.u, kind)
					}
					t.outcome = "reported"
					t.State(hashString(uint64(i)+2, kind))
				}, "%v, standard output %s, tool %v", k.u, kind, tool)
			}
		}
		for _, kind := range []string{"full device", "directory", "missing directory", "below a file"} {
			for _, tool := range []bool{false, true} {
				if k.out == "" || k.u.kind != "sd" && k.u.output == "" {
					continue
				}
				c.Case(func(t *T) {
					full := k.full(t)
					k.setup(t)
					u := k.u
					target := "target.po"
					switch kind {
					case "full device":
						if err := os.Symlink("/dev/full", t.path(target)); err != nil {
							t.Stop2("no symbolic links here")
						}
					case "directory":
						t.writeFile("target.po/inner", []byte("x"))
					case "missing directory":
						target = "no/such/target.po"
					default:
						t.writeFile("file", []byte("x"))
						target = "file/target.po"
					}
					if u.kind == "sd" {
						u.image = target
						u.order = "po"
						if strings.HasSuffix(k.out, ".dsk") {
							u.order = "do"
						}
					} else {
						u.output = target
						u.force = true
					}
					var in []byte
					if k.stdin != "" {
						in = k.files[k.stdin]
					}
					var err error
					if tool {
						_, err = u.tool(t, in)
					} else {
						_, err = t.withStdout(in, func() error { return u.in(t) })
					}
					t.outcome = "reported"
					if err == nil {
						// only right if the complete output is there
						st, e := os.Lstat(t.path(target))
						if e != nil || !st.Mode().IsRegular() || !bytes.Equal(t.readFile(t.path(target)), full) {
							t.Fail("%v succeeded although its output is a %s", u, kind)
						}
						t.outcome = "written"
					}
					t.State(hashString(uint64(i)+200, kind))
				}, "%v, output in/at a %s, tool %v", k.u, kind, tool)
			}
		}
	}

	c.Section("input in pieces", "every command that reads standard input or a pipe, in pieces of every size 1-600 (whole images: "+Pick(c, "every 37th", "from 16 up")+" of them) and around the powers of two, a piece following when the last one has been read, and small inputs in every division into three")
	for i, k := range cases {
		if k.stdin == "" {
			continue
		}
		data := k.files[k.stdin]
		var sizes []int
		step := 1
		if len(data) == floppy {
			step = Pick(c, 37, 1)
		}
		for n := step; n <= 600; n += step {
			sizes = append(sizes, n)
		}
		for b := 1024; b <= 4096; b *= 2 {
			sizes = append(sizes, b-1, b)
			if b < 4096 {
				sizes = append(sizes, b+1)
			}
		}
		sizes = append(sizes, 511, 512, 513, 255, 256, 257)
		var full []byte
		for _, n := range sizes {
			if n > len(data) {
				continue
			}
			if len(data) == floppy && n < 16 {
				continue
			}
			for _, path := range []bool{false, true} {
				if path && (k.u.kind == "sd" || k.u.kind == "ls" || k.u.image == "-" && k.u.kind != "decode" && k.u.kind != "dump" && !(k.u.kind == "reorder" && k.u.output != "")) {
					continue // the path would be written to, or is opened by the flag parser
				}
				c.Case(func(t *T) {
					if full == nil {
						full = k.full(t)
					}
					k.setup(t)
					var pieces [][]byte
					for a := 0; a < len(data); a += n {
						pieces = append(pieces, data[a:min(a+n, len(data))])
					}
					k.piped(t, pieces, full, path)
					t.outcome = k.u.kind
					t.State(hashInt(hashInt(3, i), n))
				}, "%v reading pieces of %d bytes, by path %v", k.u, n, path)
			}
		}
	}
	for _, prog := range [][]byte{c25Program(1), c25Program(2), c25Program(3)} {
		k := &ioCase{u: ucmd{kind: "decode", image: "-", addr: 0x801}, files: map[string][]byte{"prog": prog}, stdin: "prog"}
		for a := 1; a < len(prog); a++ {
			for b := a; b < len(prog); b++ {
				c.Case(func(t *T) {
					full := k.full(t)
					k.piped(t, [][]byte{prog[:a], prog[a:b], prog[b:]}, full, false)
					t.outcome = "three pieces"
					t.State(hashInt(hashInt(hashInt(4, len(prog)), a), b))
				}, "decode of %d bytes divided at %d and %d", len(prog), a, b)
			}
		}
	}

	c.Section("failing system calls", "the built tool with each open, read, write, close, fsync, ftruncate, rename and stat of its files and standard output failing in turn (strace fault injection)")
	strace, serr := exec.LookPath("strace")
	for i, k := range cases {
		for _, f := range []string{"write:error=ENOSPC", "write:error=EIO", "pwrite64,writev:error=ENOSPC", "openat:error=EACCES", "openat:error=ENOSPC", "close:error=EIO", "close:error=ENOSPC", "read:error=EIO", "fsync,fdatasync:error=EIO", "ftruncate,rename,renameat,renameat2:error=EIO"} {
			c.Case(func(t *T) {
				if serr != nil {
					t.outcome = "no strace"
					return
				}
				full := k.full(t)
				misses := 0
				for n := 1; n <= 40 && misses < 2; n++ {
					fired, ok := k.traced(t, strace, fmt.Sprintf("%s:when=%d", f, n), full)
					if !ok {
						t.outcome = "strace does not work here"
						return
					}
					if !fired {
						misses++
						continue
					}
					misses = 0
					t.State(hashString(hashInt(hashInt(5, i), n), f))
				}
				t.outcome = k.u.kind + " " + strings.SplitN(f, ":", 2)[0]
			}, "%v with failing %s", k.u, f)
		}
	}
}

// piped runs the command reading the pieces, one per read.
func (k *ioCase) piped(t *T, pieces [][]byte, full []byte, path bool) {
	var p [2]int
	if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC); err != nil {
		fmt.Fprintln(diag, err)
		os.Exit(3)
	}
	r, w := os.NewFile(uintptr(p[0]), "/dev/stdin"), os.NewFile(uintptr(p[1]), "pipe")
	done := make(chan bool)
	var stop atomic.Bool
	go func() {
		for _, b := range pieces {
			if _, err := w.Write(b); err != nil {
				break // the command does not read any further
			}
			// The next piece follows only when this one has been read.
			for spins := 0; ; spins++ {
				var n int32
				if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(p[1]), syscall.TIOCINQ, uintptr(unsafe.Pointer(&n))); e != 0 || n == 0 || stop.Load() {
					break
				}
				if spins > 50 {
					time.Sleep(5 * time.Microsecond)
				} else {
					runtime.Gosched()
				}
			}
		}
		_ = w.Close()
		close(done)
	}()
	u := k.u
	if path {
		name := fmt.Sprintf("/proc/self/fd/%d", p[0])
		if u.image == "-" {
			u.image = name
		} else {
			u.source = name
		}
	}
	out, err := t.withStdout(nil, func() error {
		if !path {
			old := os.Stdin
			os.Stdin = r
			defer func() { os.Stdin = old }()
		}
		return u.in(t)
	})
	stop.Store(true)
	_ = r.Close()
	<-done
	t.noErr(err, "%v with its input in %d pieces", u, len(pieces))
	if k.out != "" {
		out = t.readFile(t.path(k.out))
	}
	t.mustEqual(out, full, "output of %v with its input in %d pieces", u, len(pieces))
}

var injected = regexp.MustCompile(`(\w+)\((?:AT_FDCWD<[^>]*>, )?(?:(\d+)<([^>]*)>|"([^"]*)").*\(INJECTED\)`)

// traced runs the built tool with a failing system call. It reports whether
// the fault happened, and whether strace works.
func (k *ioCase) traced(t *T, strace, fault string, full []byte) (fired, ok bool) {
	k.setup(t)
	trace := t.c.work + fmt.Sprintf("/trace-%d", t.c.shard)
	stdout := t.path("stdout")
	calls := strings.SplitN(fault, ":", 2)[0]
	set := calls
	for _, s := range []string{"openat", "write", "close"} {
		if !strings.Contains(","+set+",", ","+s+",") {
			set += "," + s
		}
	}
	args := append([]string{"-f", "-y", "-qq", "-s", "0", "-o", trace, "-e", "trace=" + set, "-e", "inject=" + fault, t.c.bin}, k.u.args()...)
	x := exec.Command(strace, args...)
	x.Dir = t.c.scratch
	x.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
	if k.stdin != "" {
		in, err := os.Open(t.path(k.stdin))
		t.noErr(err, "scratch")
		defer in.Close()
		x.Stdin = in
	}
	so, err := os.Create(stdout)
	t.noErr(err, "scratch")
	defer so.Close()
	x.Stdout = so
	var msg bytes.Buffer
	x.Stderr = &msg
	err = x.Run()
	t.Step()
	log, rerr := os.ReadFile(trace)
	_ = os.Remove(trace)
	if rerr != nil || len(log) == 0 || strings.Contains(msg.String(), "strace:") {
		return false, false
	}
	var hit []string
	wrote := map[string]bool{}
	for _, l := range strings.Split(string(log), "\n") {
		if m := injected.FindStringSubmatch(l); m != nil && (strings.HasPrefix(m[3], t.c.scratch) || strings.HasPrefix(m[4], t.c.scratch) || m[4] != "" && m[4][0] != '/') {
			hit = append(hit, l)
			if m[1] == "close" && !wrote[m[3]] {
				hit = hit[:len(hit)-1] // closing what was only read
			}
		}
		if i := strings.Index(l, "write("); i >= 0 {
			if a, b := strings.IndexByte(l, '<'), strings.IndexByte(l, '>'); a >= 0 && b > a {
				wrote[l[a+1:b]] = true
			}
		}
	}
	fired = strings.Contains(string(log), "(INJECTED)")
	if err != nil {
		if !fired {
			t.Fail("%v under strace without a fault: %v %s", k.u, err, msg.Bytes())
		}
		return fired, true
	}
	if len(hit) > 0 {
		t.Fail("%v succeeded although %s", k.u, strings.TrimSpace(hit[0]))
	}
	out := stdout
	if k.out != "" {
		out = t.path(k.out)
	}
	if got := t.readFile(out); !bytes.Equal(got, full) {
		t.Fail("%v succeeded with an incomplete output (%s): %s", k.u, fault, diffAt(got, full))
	}
	return fired, true
}
