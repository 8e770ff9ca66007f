package main

import (
	"fmt"

	"github.com/zellyn/diskii/types"
)

func init() {
	props["C04"] = prop{run: func(c *Ctx) { c0405(c, true, false) }, level: "model_checking", assum: []string{
		"symbol-table files 3 and 4 are not put or deleted directly", "empty names and compound names without a symbol part are left out",
		"deleting a symbol whose file does not exist may or may not drop the symbol",
	}}
	props["C05"] = prop{run: func(c *Ctx) { c0405(c, false, true) }, level: "model_checking", assum: []string{
		"symbol-table files 3 and 4 are not put or deleted directly", "bytes of free sectors are not constrained",
	}}
}

var reopenOp = nkOp{kind: 'r'}

func cat(ops ...[]nkOp) []nkOp {
	var out []nkOp
	for _, o := range ops {
		out = append(out, o...)
	}
	return out
}

func c0405(c *Ctx, files, sectors bool) {
	bases := nkBases()
	both, ow := []bool{false, true}, []bool{true}
	wide := cat(puts([]string{"5", "DF07", "AAA", "bbb", "DF05:AAA", "6:CCC1", "2", "FIVE", "DF07:five"}, []int{1, 256, 257, 600}, both),
		puts([]string{"AAA", "7"}, []int{1800, 2300, 0}, ow),
		dels("5", "df07", "AAA", "Bbb", "CCC1", "2", "FIVE", "SEVEN7", "stale", "NOTFILE", "NOSUCH", "5:ABC", "DF05:FIVE", "7:AAA"), []nkOp{reopenOp})
	odd := puts([]string{"AB", "ABCDEFGHIJ", "AA_A", "5:6", "AAA:BBB", "5:AAA:BBB", "stale", "NOTFILE", "DF85", "5:STALE", "GGGGGGGG9", "111111111"}, []int{1, 257}, ow)
	narrow := cat(puts([]string{"5", "AAA", "DF05:bbb", "bbb"}, []int{1, 600}, both), dels("5", "AAA", "bbb"), []nkOp{reopenOp})

	d := Pick(c, 3, 4)
	c.Section("wide histories", fmt.Sprintf("all sequences of %d operations up to length %d on a fragmented disk with six free sectors", len(wide), Pick(c, 2, 3)))
	nkExplore(c, bases["tiny"], wide, Pick(c, 2, 3), files, sectors)
	c.Section("odd names", "all sequences of length 2 over odd names and the narrow alphabet")
	nkExplore(c, bases["tiny"], cat(odd, narrow), 2, files, sectors)
	c.Section("deep histories", fmt.Sprintf("all sequences of %d operations up to length %d", len(narrow), d+1))
	nkExplore(c, bases["tiny"], narrow, d+1, files, sectors)
	c.Section("no symbol table", fmt.Sprintf("all sequences up to length %d on a disk without symbol table", d))
	nkExplore(c, bases["nost"], cat(puts([]string{"5", "6", "AAA", "6:BBB"}, []int{1, 600}, both), dels("5", "7", "6", "AAA"), []nkOp{reopenOp}), d, files, sectors)
	c.Section("full symbol tables", fmt.Sprintf("all sequences up to length %d with 0 or 1 free symbol slots", d))
	nkExplore(c, bases["full"], cat(puts([]string{"AAA", "FIVE", "9:S818X", "9:five"}, []int{1, 600}, ow), dels("FIVE", "S001X", "AAA", "5"), []nkOp{reopenOp}), d, files, sectors)
	nkExplore(c, bases["almost"], cat(puts([]string{"AAA", "bbb", "FIVE", "9:S410X"}, []int{1, 600}, ow), dels("FIVE", "AAA", "9"), []nkOp{reopenOp}), d, files, sectors)
	c.Section("unwritable symbol table", "all sequences up to length 3 on a disk whose table holds a name the tool cannot write")
	nkExplore(c, bases["loose"], cat(puts([]string{"AAA", "SEVEN", "5", "9:CCC"}, []int{1, 600}, ow), dels("ZY", "SEVEN", "5"), []nkOp{reopenOp}), 3, files, sectors)
	c.Section("file numbers", fmt.Sprintf("all sequences up to length %d with three free file numbers", d))
	nkExplore(c, bases["numbers"], cat(puts([]string{"AAA", "BBB", "CCC", "DDD", "2"}, []int{1}, both), dels("AAA", "BBB", "FIVE", "FC"), []nkOp{reopenOp}), d, files, sectors)
	c.Section("one track", fmt.Sprintf("all sequences up to length %d on disks whose files and free sectors all lie in the first track, in the last, or at the ends of tracks, with and without symbol table", d))
	for _, n := range []string{"first", "last", "edge", "first+", "last+", "edge+"} {
		nkExplore(c, bases[n], cat(puts([]string{"5", "7", "9"}, []int{1, 257, 600}, ow), puts([]string{"9:AAA"}, []int{257}, both), dels("5", "7", "9"), []nkOp{reopenOp}), d, files, sectors)
	}
	c.Section("real disks", "all sequences up to length 2 on the repository's NakedOS disks")
	for _, b := range []*nkBase{nkReal("Super-Mon", "data/disks/Super-Mon-2.0.dsk"), nkReal("chacha20", "supermon/testdata/chacha20.dsk")} {
		if b == nil {
			continue
		}
		nkExplore(c, b, cat(puts([]string{"5", "AAA", "bbb", "DF05:AAA", "FHELLO", "DF01:FHELLO"}, []int{1, 257, 140000}, both), dels("5", "AAA", "FHELLO", "1", "5:ABC", "DF01:FHELLO"), []nkOp{reopenOp}), 2, files, sectors)
	}

	one := func(t *T, r *nkRun, op nkOp) {
		defer func() {
			if p := recover(); p != nil {
				if f, ok := p.(failure); ok {
					panic(failure{fmt.Sprintf("%v: %s", op, f.what)})
				}
				panic(p)
			}
		}()
		out := r.step(op, files, sectors)
		t.State(hashBytes(13, r.op.GetBytes()))
		t.c.st.Outcomes[out]++
	}
	guard := func(f func(t *T)) func(t *T) {
		return func(t *T) {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(caseOver); !ok {
						panic(p)
					}
				}
			}()
			f(t)
		}
	}
	c.Section("every file number", "each number 1-FD: put, refused put, overwrite longer and shorter, symbol, delete, reopen, in both notations")
	for n := 1; n <= 0xFD; n++ {
		if n == 3 || n == 4 {
			continue
		}
		c.Case(guard(func(t *T) {
			r := bases["tiny"].run(t)
			name := fmt.Sprintf("%X", n)
			long := fmt.Sprintf("df%02x", n)
			for i, op := range []nkOp{{kind: 'p', name: name, data: nkData(1, 257), overwrite: true}, {kind: 'p', name: long, data: nkData(2, 10)}, {kind: 'p', name: long, data: nkData(3, 700), overwrite: true},
				reopenOp, {kind: 'p', name: long + ":AAA", data: nkData(4, 30), overwrite: true}, reopenOp, {kind: 'p', name: "aaa", data: nkData(5, 300), overwrite: true}, {kind: 'd', name: name}, {kind: 'd', name: long}, {kind: 'p', name: "BBB", data: nkData(6, 5)}, {kind: 'd', name: "BBB"}} {
				_ = i
				one(t, r, op)
			}
		}), "file number %02X", n)
	}
	c.Section("lowest free number", "every number 1-FD as the lowest free one, the numbers above it all free, all used, or alternately: files stored under new symbols with and without overwrite, deleted and stored again")
	for n := 1; n <= 0xFD; n++ {
		if n == 3 || n == 4 {
			continue
		}
		for _, above := range []string{"free", "used", "alternate"} {
			c.Case(guard(func(t *T) {
				files := map[byte][]int{}
				sec := 120
				for f := 1; f <= 0xFD; f++ {
					if f == 3 || f == 4 || f == n || f > n && (above == "free" || above == "alternate" && (f-n)%2 == 0) {
						continue
					}
					files[byte(f)] = []int{sec}
					sec++
				}
				b := nkMake("lowest", []int{15, 17, 19, 501, 502, 559}, 0xfe, files, map[int]nkSym{9: {addr: 0xdf00 | uint16(n), name: "STALE"}}, true)
				r := b.run(t)
				one(t, r, nkOp{kind: 'p', name: "AAA", data: nkData(1, 257), overwrite: n%2 == 0})
				one(t, r, nkOp{kind: 'p', name: "BBB", data: nkData(2, 3), overwrite: n%2 == 1})
				one(t, r, reopenOp)
				one(t, r, nkOp{kind: 'd', name: "AAA"})
				one(t, r, nkOp{kind: 'p', name: "CCC", data: nkData(3, 300)})
				one(t, r, nkOp{kind: 'd', name: "stale"})
			}), "lowest free %02X, above it %s", n, above)
		}
	}
	c.Section("every length", "lengths 1-1030 and around every multiple of 256 up to three sectors past the capacity, fresh and as a replacement")
	var free []int
	for s := 12; s < nSectors; s++ {
		free = append(free, s)
	}
	empty := nkMake("empty disk", free, 0xff, nil, nil, false)
	var lens []int
	for l := 1; l <= 1030; l++ {
		lens = append(lens, l)
	}
	for k := 4; k <= 551; k++ {
		lens = append(lens, k*256-1, k*256, k*256+1)
	}
	for _, l := range lens {
		c.Case(guard(func(t *T) {
			r := empty.run(t)
			one(t, r, nkOp{kind: 'p', name: "9", data: nkData(1, l)})
			one(t, r, nkOp{kind: 'p', name: "A", data: nkData(2, 256)})
			one(t, r, nkOp{kind: 'p', name: "9", data: nkData(3, 256), overwrite: true})
			one(t, r, nkOp{kind: 'p', name: "9", data: nkData(4, l), overwrite: true})
			one(t, r, nkOp{kind: 'd', name: "9"})
		}), "length %d", l)
	}
	c.Section("large files", "on the empty disk each file number 1-FD holding 1, 239-241, 255-257 and as many sectors as fit, with another file beside it; replaced by each of the sizes and deleted")
	for n := 1; n <= 0xFD; n++ {
		if n == 3 || n == 4 {
			continue
		}
		c.Case(guard(func(t *T) {
			other := "9"
			if n == 9 {
				other = "F0"
			}
			r := empty.run(t)
			name := fmt.Sprintf("DF%02X", n)
			one(t, r, nkOp{kind: 'p', name: other, data: nkData(7, 300)})
			for i, k := range []int{1, 239, 240, 241, 255, 256, 257, 512, len(free) - 2, len(free) - 1} {
				one(t, r, nkOp{kind: 'p', name: name, data: nkData(i, k*256-i*(n%2)*28), overwrite: true})
			}
			one(t, r, nkOp{kind: 'd', name: name})
			one(t, r, nkOp{kind: 'p', name: name, data: nkData(3, (len(free)-2)*256)})
		}), "file number %02X", n)
	}
	c.Section("every free sector", "each single sector as the only free one, and each with its successor and with sector 559, put, too-long put, replace, delete")
	for s := 12; s < nSectors; s++ {
		for _, second := range []int{-1, s + 1, 559, 12} {
			if second == s || second >= nSectors || (second >= 0 && second < 12) {
				continue
			}
			c.Case(guard(func(t *T) {
				fr := []int{s}
				if second >= 0 {
					fr = append(fr, second)
				}
				files := map[byte][]int{}
				if s != 40 && second != 40 {
					files[8] = []int{40}
				}
				b := nkMake("one or two free sectors", fr, 0xfe, files, nil, false)
				r := b.run(t)
				one(t, r, nkOp{kind: 'p', name: "9", data: nkData(1, 600)})
				one(t, r, nkOp{kind: 'p', name: "9", data: nkData(2, 256)})
				one(t, r, nkOp{kind: 'p', name: "A", data: nkData(3, 1)})
				one(t, r, nkOp{kind: 'p', name: "9", data: nkData(4, 300), overwrite: true})
				one(t, r, reopenOp)
				one(t, r, nkOp{kind: 'p', name: "8", data: nkData(5, 700), overwrite: true})
				one(t, r, nkOp{kind: 'd', name: "9"})
				one(t, r, nkOp{kind: 'p', name: "8", data: nkData(6, 257), overwrite: true})
			}), "free sectors %d %d", s, second)
		}
	}
	if files {
		c.Section("every symbol address", "symbols at each of the 65535 addresses, 818 to a table, on a disk with nearly every file number in use: listing and reading by symbol and number")
		many := map[byte][]int{}
		for f := 1; f <= 0xFD; f++ {
			if f != 2 && f != 6 && f != 3 && f != 4 {
				many[byte(f)] = []int{190 + f}
			}
		}
		for lo := 1; lo < 65536; lo += 818 {
			c.Case(guard(func(t *T) {
				syms := map[int]nkSym{}
				for i := 0; i < 818 && lo+i < 65536; i++ {
					syms[i+i/409] = nkSym{addr: uint16(lo + i), name: fmt.Sprintf("S%dX", lo+i)}
				}
				b := nkMake("symbols everywhere", []int{500, 501}, 0xfe, many, syms, true)
				r := b.run(t)
				r.check()
				one(t, r, nkOp{kind: 'p', name: "FD", data: nkData(1, 257)})
				one(t, r, nkOp{kind: 'd', name: "FD"})
				t.State(hashInt(16, lo))
				t.Outcome("symbols everywhere")
			}), "symbols at %04X and up", lo)
		}
	}
	c.Section("types and lengths", "every file type other than binary and a length that does not match the data are refused without effect")
	for ft := -1; ft <= 0x103; ft++ {
		if ft == 6 {
			continue
		}
		c.Case(func(t *T) {
			for _, name := range []string{"9", "AAA", "5", "9:AAA"} {
				r := bases["tiny"].run(t)
				before := clone(r.op.GetBytes())
				_, err := r.op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: 3, Type: types.Filetype(ft)}, Data: []byte{1, 2, 3}}, true)
				t.Step()
				t.State(hashString(hashInt(14, ft), name))
				if files && err == nil {
					t.Fail("a file of type %02X was put under %s", ft, name)
				}
				if sectors && err != nil {
					t.mustEqual(r.op.GetBytes(), before, "refused put")
				}
				if files && err != nil {
					r.check()
				}
			}
			t.Outcome("refused type")
		}, "type %02X", ft)
	}
	if sectors {
		c.Section("declared length", "a declared length different from the data either is refused without effect")
		for _, l := range []int{0, 1, 2, 4, 256, 100000, -1} {
			c.Case(func(t *T) {
				r := bases["tiny"].run(t)
				before := clone(r.op.GetBytes())
				_, err := r.op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "9", Length: l, Type: types.FiletypeBinary}, Data: []byte{1, 2, 3}}, true)
				t.Step()
				t.State(hashInt(15, l))
				if err != nil {
					t.mustEqual(r.op.GetBytes(), before, "refused put")
				}
				t.Outcome("declared length")
			}, "declared length %d for 3 bytes", l)
		}
	}
}
