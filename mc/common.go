package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

const (
	floppy    = 35 * 16 * 256
	nSectors  = 35 * 16
	trackSize = 16 * 256
)

// The interleave tables of the README, in one direction only (physical sector
// to logical sector); the other direction is computed here.
var oraclePhysToLog = map[types.DiskOrder][16]int{
	"do":  {0x0, 0x7, 0xE, 0x6, 0xD, 0x5, 0xC, 0x4, 0xB, 0x3, 0xA, 0x2, 0x9, 0x1, 0x8, 0xF},
	"po":  {0x0, 0x8, 0x1, 0x9, 0x2, 0xA, 0x3, 0xB, 0x4, 0xC, 0x5, 0xD, 0x6, 0xE, 0x7, 0xF},
	"raw": {0x0, 0x1, 0x2, 0x3, 0x4, 0x5, 0x6, 0x7, 0x8, 0x9, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF},
}

// oracleConvert returns img, which is stored in order from, stored in order to.
func oracleConvert(img []byte, from, to types.DiskOrder) []byte {
	out := make([]byte, len(img))
	f, t := oraclePhysToLog[from], oraclePhysToLog[to]
	for track := 0; track < 35; track++ {
		for phys := 0; phys < 16; phys++ {
			src := track*trackSize + f[phys]*256
			dst := track*trackSize + t[phys]*256
			copy(out[dst:dst+256], img[src:src+256])
		}
	}
	return out
}

// stamped returns a floppy image in which pattern k of byte values makes every
// sector and every byte position recognisable.
func stamped(k int) []byte {
	img := make([]byte, floppy)
	for i := range img {
		s, b := i/256, i%256
		var v int
		switch k & 3 {
		case 0:
			v = s
		case 1:
			v = s/16 + 7*b
		case 2:
			v = b
		default:
			v = s*31 + b*17 + s/256*101
		}
		img[i] = byte(v ^ k)
	}
	return img
}

func factories() []types.OperatorFactory {
	return []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}
}

func (t *T) globals() *types.Globals {
	return &types.Globals{Debug: t.debug(), DiskOperatorFactories: factories()}
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// diffAt describes the first difference of two byte slices.
func diffAt(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("length %d, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d (track %d sector %d offset %02X) is %02X, want %02X", i, i/trackSize, i%trackSize/256, i%256, got[i], want[i])
		}
	}
	return "equal"
}

func (t *T) mustEqual(got, want []byte, format string, args ...any) {
	if !bytes.Equal(got, want) {
		t.Fail("%s: %s", fmt.Sprintf(format, args...), diffAt(got, want))
	}
}

func (t *T) noErr(err error, format string, args ...any) {
	if err != nil {
		t.Fail("%s: unexpected error: %v", fmt.Sprintf(format, args...), err)
	}
}

// path returns a scratch path of this worker.
func (t *T) path(name string) string { return filepath.Join(t.c.scratch, name) }

func (t *T) writeFile(name string, data []byte) string {
	p := t.path(name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(deadlineHit{})
	}
	if err := os.WriteFile(p, data, 0o644); err != nil {
		fmt.Fprintln(diag, "scratch:", err)
		os.Exit(3)
	}
	return p
}

func (t *T) readFile(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fail("cannot read %s back: %v", filepath.Base(path), err)
	}
	return b
}

// cleanScratch removes everything in this worker's scratch directory.
func (t *T) cleanScratch() {
	ents, _ := os.ReadDir(t.c.scratch)
	for _, e := range ents {
		_ = os.RemoveAll(filepath.Join(t.c.scratch, e.Name()))
	}
}

// snapshot reads every file of the scratch directory.
func (t *T) snapshot() map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(t.c.scratch, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(t.c.scratch, p)
		if info.IsDir() {
			m[rel+"/"] = "dir"
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		m[rel] = string(b)
		return nil
	})
	return m
}

// snapDiff names the first difference of two snapshots ("" if none).
func snapDiff(before, after map[string]string) string {
	var names []string
	for k := range before {
		names = append(names, k)
	}
	for k := range after {
		if _, ok := before[k]; !ok {
			names = append(names, k)
		}
	}
	sortStrings(names)
	for _, k := range names {
		b, ok1 := before[k]
		a, ok2 := after[k]
		switch {
		case !ok1:
			return fmt.Sprintf("file %q was created", k)
		case !ok2:
			return fmt.Sprintf("file %q was removed", k)
		case a != b:
			return fmt.Sprintf("file %q was modified: %s", k, diffAt([]byte(a), []byte(b)))
		}
	}
	return ""
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// withStdout runs f with os.Stdout (and optionally os.Stdin) replaced, and
// returns what it printed.
func (t *T) withStdout(stdin []byte, f func() error) ([]byte, error) {
	out, err := os.Create(t.c.work + fmt.Sprintf("/stdout-%d", t.c.shard))
	if err != nil {
		fmt.Fprintln(diag, err)
		os.Exit(3)
	}
	oldOut, oldIn := os.Stdout, os.Stdin
	os.Stdout = out
	if stdin != nil {
		p := t.c.work + fmt.Sprintf("/stdin-%d", t.c.shard)
		_ = os.WriteFile(p, stdin, 0o644)
		in, err := os.Open(p)
		if err == nil {
			os.Stdin = in
			defer in.Close()
		}
	}
	defer func() { os.Stdout, os.Stdin = oldOut, oldIn; _ = out.Close() }()
	rerr := f()
	b, err := os.ReadFile(out.Name())
	if err != nil {
		fmt.Fprintln(diag, err)
		os.Exit(3)
	}
	return b, rerr
}

func upper(s string) string { return strings.ToUpper(s) }

// repoFile reads a file of /repo (sample disks).
func repoFile(name string) []byte {
	b, err := os.ReadFile(filepath.Join("/repo", name))
	if err != nil {
		return nil
	}
	return b
}

// openAt opens a copy of an image with order auto and the debug level given.
func openAt(img []byte, name, system string, debug int) (types.Operator, types.DiskOrder, error) {
	return disk.OpenImage(clone(img), name, types.DiskOrderAuto, system, factories(), debug)
}
