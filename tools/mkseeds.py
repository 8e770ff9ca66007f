#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the tables in tools/seeds_*.py: a patch made
by textual edits of /repo's HEAD, a demonstration, and meta.json."""
import json, os, shutil, subprocess, sys, tempfile, glob, runpy
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''
func bad(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		bad("unexpected error: %v", err)
	}
}
'''
LIB = {
 "naked": ('"github.com/zellyn/diskii/supermon"', '''
// naked is an empty NakedOS disk in physical order; files 3 and 4 hold an
// empty symbol table if st is set.
func naked(st bool) []byte {
	b := make([]byte, 143360)
	m := make([]byte, 560)
	for i := range m {
		m[i] = 0xFF
		if i < 12 {
			m[i] = 0xFE
		}
		if st && i >= 16 && i < 32 {
			m[i] = 3
		}
		if st && i >= 32 && i < 48 {
			m[i] = 4
		}
	}
	copy(b[9*256+0xD0:], m)
	return b
}

func open(b []byte) supermon.Operator {
	op, err := supermon.OperatorFactory{}.Operator(b, 0)
	must(err)
	return op.(supermon.Operator)
}
'''),
 "put": ('"github.com/zellyn/diskii/types"', '''
func put(op types.Operator, name string, data []byte, overwrite bool) (bool, error) {
	return op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: len(data), Type: types.FiletypeBinary}, Data: data}, overwrite)
}
'''),
 "dos": ('"github.com/zellyn/diskii/dos3"', '''
// dos is an empty DOS 3.3 disk whose catalog is sector 15 of track 17.
func dos() []byte {
	b := make([]byte, 143360)
	v, _ := dos3.DefaultVTOC().ToSector()
	copy(b[17*4096:], v)
	return b
}

func sector(b []byte, t, s int) []byte { return b[t*4096+s*256 : t*4096+s*256+256] }

// entry fills catalog entry i of a catalog sector.
func entry(cat []byte, i int, track, sec, typ byte, name string, sectors int) {
	e := cat[0x0B+35*i : 0x0B+35*i+35]
	e[0], e[1], e[2] = track, sec, typ
	for j := 0; j < 30; j++ {
		e[3+j] = ' ' | 0x80
		if j < len(name) {
			e[3+j] = name[j] | 0x80
		}
	}
	e[33], e[34] = byte(sectors), byte(sectors>>8)
}
'''),
 "pro": ('"github.com/zellyn/diskii/prodos"', '''
// pro is a ProDOS floppy with a two-block volume directory (blocks 2 and 3).
func pro() []byte {
	b := make([]byte, 143360)
	v := block(b, 2)
	v[2] = 3
	block(b, 3)[0] = 2
	v[4] = 0xF3
	copy(v[5:], "VOL")
	v[4+0x1F], v[4+0x20], v[4+0x23], v[4+0x25], v[4+0x26] = 0x27, 13, 6, 0x18, 1
	return b
}

func block(b []byte, n int) []byte { return b[n*512 : n*512+512] }

// file fills entry i (0 is the header in a key block) of a directory block.
func file(blk []byte, i int, storage byte, name string, typ byte, key, eof int) {
	e := blk[4+0x27*i : 4+0x27*i+0x27]
	e[0] = storage<<4 | byte(len(name))
	copy(e[1:16], name)
	e[0x10], e[0x11], e[0x12] = typ, byte(key), byte(key>>8)
	e[0x13] = 1
	e[0x15], e[0x16], e[0x17] = byte(eof), byte(eof>>8), byte(eof>>16)
}

// sub fills the key block of a subdirectory.
func sub(blk []byte, name string, parentBlock int, parentEntry byte, next int) {
	blk[2], blk[3] = byte(next), byte(next>>8)
	h := blk[4 : 4+0x27]
	h[0] = 0xE0 | byte(len(name))
	copy(h[1:16], name)
	h[0x10], h[0x1F], h[0x20] = 0x75, 0x27, 13
	h[0x23], h[0x24], h[0x25], h[0x26] = byte(parentBlock), byte(parentBlock>>8), parentEntry, 0x27
}

// list returns the names in a directory.
func list(b []byte, dir string) (string, error) {
	op, err := prodos.OperatorFactory{}.Operator(b, 0)
	must(err)
	ds, err := op.Catalog(dir)
	s := ""
	for _, d := range ds {
		s += fmt.Sprintf("%s(%d) ", d.Name, d.Length)
	}
	return s, err
}
'''),
}
def main_go(imports, libs, body):
    imps = {'"fmt"', '"os"'} | set(imports); code = PRE
    for l in libs:
        imps.add(LIB[l][0]); code += LIB[l][1]
    return "package main\n\nimport (\n" + "".join("\t%s\n" % i for i in sorted(imps)) + ")\n" + code + "\n" + body.strip() + "\n"

SEEDS = []
def seed(id, prop, edits, needs, breaks, body, imports=(), libs=()):
    SEEDS.append((id, prop, edits, needs, breaks, main_go(imports, libs, body)))

for f in sorted(glob.glob(os.path.join(here, "tools", "seeds_*.py"))):
    exec(compile(open(f).read(), f, "exec"))

only = set(sys.argv[1:])
ids = [s[0] for s in SEEDS]
assert len(ids) == len(set(ids)), "duplicate ids"
W = tempfile.mkdtemp(prefix="mkseeds")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W + "/wt"])
try:
    for id, prop, edits, needs, breaks, go in SEEDS:
        if only and id not in only: continue
        wt = W + "/wt"
        for f, old, new in edits:
            s = open(os.path.join(wt, f)).read()
            if s.count(old) != 1: sys.exit(f"{id}: {f}: {s.count(old)} matches of {old!r}")
            open(os.path.join(wt, f), "w").write(s.replace(old, new))
        subprocess.check_call(["gofmt", "-l"] + [os.path.join(wt, f) for f, _, _ in edits])
        diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
        subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
        d = os.path.join(here, "seeded", id); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/main.go", "w").write(go)
        subprocess.check_call(["gofmt", "-w", d + "/main.go"])
        shutil.copy(os.path.join(here, "tools", "seedlib", "demo.sh"), d + "/demo.sh")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", W + "/wt"])
    subprocess.call(["git", "-C", "/repo", "worktree", "prune"])
    shutil.rmtree(W, ignore_errors=True)
print(len(SEEDS), "seeds")
