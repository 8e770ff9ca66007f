package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/zellyn/diskii/cmd"
	"github.com/zellyn/diskii/types"
)

// ucmd is one use of the tool: a command, its flags and the files it names
// (relative to the scratch directory, "-" for standard input or output).
type ucmd struct {
	kind          string // put rm hello sd reorder ls dump decode filetypes
	order, system string
	newOrder      string
	ftype         string
	force         bool // -f of put, rm and reorder; -s of ls, -r of decode, --all of filetypes
	addr, start   int
	image         string // the image, or decode's file
	name          string // name on the disk, ls's directory
	source        string // put's and mksd's file
	output        string // reorder's new image
	debug         int
}

func (u ucmd) String() string { return strings.Join(u.args(), " ") }

func (u ucmd) reading() bool {
	switch u.kind {
	case "ls", "dump", "decode", "filetypes":
		return true
	}
	return false
}

func (u ucmd) globals(t *T) *types.Globals {
	g := t.globals()
	if u.debug != 0 {
		g.Debug = max(u.debug, 0) // -1: certainly none
	}
	return g
}

func (u ucmd) args() []string {
	var a []string
	for i := 0; i < u.debug; i++ {
		a = append(a, "-v")
	}
	opt := func(name, value string) {
		if value != "" {
			a = append(a, "--"+name, value)
		}
	}
	flag := func(name string) {
		if u.force {
			a = append(a, name)
		}
	}
	switch u.kind {
	case "put":
		a = append(a, "put")
		opt("order", u.order)
		opt("system", u.system)
		flag("-f")
		a = append(a, "--filetype-name="+u.ftype, fmt.Sprintf("--address=%d", u.addr), "--", u.image, u.name, u.source)
	case "rm":
		a = append(a, "rm")
		opt("order", u.order)
		opt("system", u.system)
		flag("-f")
		a = append(a, "--", u.image, u.name)
	case "hello":
		a = append(a, "nakedos", "mkhello")
		opt("order", u.order)
		a = append(a, fmt.Sprintf("--address=0x%x", u.addr), fmt.Sprintf("--start=%d", u.start), "--", u.image, u.name)
	case "sd":
		a = append(a, "mksd")
		opt("order", u.order)
		a = append(a, fmt.Sprintf("--address=0x%x", u.addr), fmt.Sprintf("--start=%d", u.start), "--", u.image, u.source)
	case "reorder":
		a = append(a, "reorder")
		opt("order", u.order)
		opt("new-order", u.newOrder)
		flag("-f")
		a = append(a, "--", u.image)
		if u.output != "" {
			a = append(a, u.output)
		}
	case "ls":
		a = append(a, "ls")
		opt("order", u.order)
		opt("system", u.system)
		flag("-s")
		a = append(a, "--", u.image)
		if u.name != "" {
			a = append(a, u.name)
		}
	case "dump":
		a = append(a, "dump")
		opt("order", u.order)
		opt("system", u.system)
		a = append(a, "--", u.image, u.name)
	case "decode":
		a = append(a, "applesoft", "decode", fmt.Sprintf("--location=%d", u.addr))
		flag("-r")
		if u.image != "" {
			a = append(a, "--", u.image)
		}
	default:
		a = append(a, "filetypes")
		flag("--all")
	}
	return a
}

func orAuto(s string) types.DiskOrder {
	if s == "" {
		return "auto"
	}
	return types.DiskOrder(s)
}

// in runs the command in process.
func (u ucmd) in(t *T) error {
	t.Step()
	p := func(s string) string {
		if s == "-" || s == "" || strings.HasPrefix(s, "/") {
			return s
		}
		return t.path(s)
	}
	system := u.system
	if system == "" {
		system = "auto"
	}
	open := func(s string) (*os.File, error) {
		if s == "-" {
			return os.Stdin, nil
		}
		return os.Open(p(s))
	}
	switch u.kind {
	case "put":
		c := cmd.PutCmd{Order: orAuto(u.order), System: system, FiletypeName: u.ftype, Overwrite: u.force, Address: uint16(u.addr), DiskImage: p(u.image), TargetFilename: u.name, SourceFilename: p(u.source)}
		return c.Run(u.globals(t))
	case "rm":
		c := cmd.DeleteCmd{Order: orAuto(u.order), System: system, MissingOk: u.force, DiskImage: p(u.image), Filename: u.name}
		return c.Run(u.globals(t))
	case "hello":
		c := cmd.MkHelloCmd{Order: orAuto(u.order), DiskImage: p(u.image), Filename: u.name, Address: uint16(u.addr), Start: uint16(u.start)}
		return c.Run(u.globals(t))
	case "sd":
		f, err := open(u.source)
		if err != nil {
			return err
		}
		defer f.Close()
		c := cmd.SDCmd{Order: orAuto(u.order), DiskImage: p(u.image), Binary: f, Address: uint16(u.addr), Start: uint16(u.start)}
		return c.Run(u.globals(t))
	case "reorder":
		c := cmd.ReorderCmd{Order: orAuto(u.order), NewOrder: orAuto(u.newOrder), Overwrite: u.force, DiskImage: p(u.image), NewDiskImage: p(u.output)}
		return c.Run(u.globals(t))
	case "ls":
		f, err := open(u.image)
		if err != nil {
			return err
		}
		defer f.Close()
		c := cmd.LsCmd{Order: orAuto(u.order), System: system, ShortNames: u.force, Image: f, Directory: u.name}
		return c.Run(u.globals(t))
	case "dump":
		c := cmd.DumpCmd{Order: orAuto(u.order), System: system, DiskImage: p(u.image), Filename: u.name}
		return c.Run(u.globals(t))
	case "decode":
		c := cmd.DecodeCmd{Filename: p(u.image), Location: uint16(u.addr), Raw: u.force}
		return c.Run(u.globals(t))
	}
	c := cmd.FiletypesCmd{All: u.force}
	return c.Run(u.globals(t))
}

// tool runs the command with the built tool in the scratch directory. The
// error is of type *exec.ExitError if the tool exits non-zero.
func (u ucmd) tool(t *T, stdin []byte) ([]byte, error) {
	out, _, err := u.toolAll(t, stdin, u.args())
	return out, err
}

// toolAll runs the tool with the given arguments and also returns what it
// printed on standard error.
func (u ucmd) toolAll(t *T, stdin []byte, args []string) ([]byte, []byte, error) {
	t.Step()
	x := exec.Command(t.c.bin, args...)
	x.Dir = t.c.scratch
	x.Stdin = bytes.NewReader(stdin)
	var out bytes.Buffer
	var msg bytes.Buffer
	x.Stdout, x.Stderr = &out, &msg
	err := x.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		fmt.Fprintln(diag, "cannot run the tool:", err)
		os.Exit(3)
	}
	if err != nil {
		if ee.ExitCode() < 0 || bytes.Contains(msg.Bytes(), []byte("goroutine ")) {
			t.Fail("%v: the tool crashed: %v: %.300s", u, err, msg.Bytes())
		}
		err = fmt.Errorf("%v: %s", err, bytes.TrimSpace(msg.Bytes()))
	}
	return out.Bytes(), msg.Bytes(), err
}

// either runs the command in process or with the built tool.
func (u ucmd) either(t *T, tool bool) ([]byte, error) {
	if tool {
		return u.tool(t, nil)
	}
	return t.withStdout(nil, func() error { return u.in(t) })
}
