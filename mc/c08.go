package main

import (
	"bytes"
	"fmt"
	"strings"

	derr "github.com/zellyn/diskii/errors"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C08"] = prop{run: c08, level: "model_checking", assum: []string{
		"names longer than four characters are enumerated over the shapes number, symbol, number:symbol and their damaged forms, not over all strings",
		"not specified, hence not checked: the empty name, a compound with an empty second part in the file form, and the address form with a hexadecimal word after the colon",
	}}
}

// resTable holds symbols that look like numbers, point outside the file
// range, or lie at its edges.
var resTable = map[int]nkSym{
	0: {addr: 0xDF05, name: "ABC"}, 1: {addr: 0xDF07, name: "FADE"}, 2: {addr: 0x6000, name: "BEEF"},
	4: {addr: 0xDF00, name: "ZERO"}, 5: {addr: 0xDFFE, name: "RESVD"}, 6: {addr: 0xDFFF, name: "FREE"},
	7: {addr: 0xDF01, name: "FIRST"}, 9: {addr: 0xDFFD, name: "LAST"}, 10: {addr: 0xE005, name: "ABOVE"},
	11: {addr: 0x0005, name: "PAGE0"}, 100: {addr: 0xDE05, name: "BELOW"}, 300: {addr: 0xDF05, name: "AGAIN"},
	818: {addr: 0xDF20, name: "ENDSLOT"}, 400: {addr: 0xDF30, name: "X25519"}, 401: {addr: 0xDF31, name: "DF3"},
	402: {addr: 0xDF32, name: "AAG"}, 403: {addr: 0xDF33, name: "5AA"}, 404: {addr: 0xFFFF, name: "TOP"},
	405: {addr: 1, name: "ONE"}, 406: {addr: 0xDF34, name: "DF00"}, 407: {addr: 0xDF35, name: "DFFE"},
}

type resolver struct {
	st    supermon.SymbolTable
	names map[string]uint16
}

func (r *resolver) file(name string) byte {
	if n := nkNumber(name); n != 0 {
		return n
	}
	if a := r.names[upper(name)]; a > 0xDF00 && a < 0xDFFE {
		return byte(a - 0xDF00)
	}
	return 0
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// bare checks the resolution of a single name.
func (r *resolver) bare(t *T, name string) {
	if name == "" || strings.Contains(name, ":") {
		return
	}
	want := r.file(name)
	got, err := r.st.FileForName(name)
	t.Step()
	if want == 0 {
		if err == nil {
			t.Fail("%q resolves to file %02X; it names no file", name, got)
		}
		if !derr.IsFileNotFound(err) {
			t.Fail("%q is not reported as not found: %v", name, err)
		}
	} else {
		t.noErr(err, "resolving %q", name)
		if got != want {
			t.Fail("%q resolves to file %02X, want %02X", name, got, want)
		}
	}
	if a := r.st.ByName(name); a != r.names[upper(name)] {
		t.Fail("ByName(%q) = %04X, want %04X", name, a, r.names[upper(name)])
	}
}

// compound checks FilesForCompoundName.
func (r *resolver) compound(t *T, name string) {
	parts := strings.Split(name, ":")
	if name == "" || (len(parts) == 2 && parts[1] == "" && nkNumber(parts[0]) != 0) {
		return
	}
	num, named, sym, err := r.st.FilesForCompoundName(name)
	t.Step()
	var wnum, wnamed byte
	wsym := ""
	switch {
	case len(parts) > 2, len(parts) == 2 && (nkNumber(parts[0]) == 0 || nkNumber(parts[1]) != 0):
		if err == nil {
			t.Fail("%q was accepted as (%02X, %02X, %q)", name, num, named, sym)
		}
		return
	case len(parts) == 2:
		wnum, wnamed, wsym = nkNumber(parts[0]), r.file(parts[1]), parts[1]
	case nkNumber(name) != 0:
		wnum = nkNumber(name)
	default:
		wnum = r.file(name)
		wnamed, wsym = wnum, name
	}
	t.noErr(err, "file name %q", name)
	if num != wnum || named != wnamed || upper(sym) != upper(wsym) {
		t.Fail("%q parses as (%02X, %02X, %q), want (%02X, %02X, %q)", name, num, named, sym, wnum, wnamed, wsym)
	}
}

// address checks ParseCompoundSymbol.
func (r *resolver) address(t *T, name string) {
	parts := strings.Split(name, ":")
	if name == "" {
		return
	}
	var waddr, wsymaddr uint16
	wsym, bad := "", false
	switch {
	case len(parts) > 2:
		bad = true
	case len(parts) == 2:
		v, ok := hexValue(parts[0])
		if !ok || parts[1] == "" {
			bad = true
			break
		}
		if _, hex := hexValue(parts[1]); hex {
			return // not specified
		}
		waddr, wsym, wsymaddr = uint16(v), parts[1], r.names[upper(parts[1])]
		bad = !nkStorable(parts[1])
	default:
		v, ok := hexValue(name)
		if a := r.names[upper(name)]; a != 0 {
			wsym, wsymaddr = name, a
		} else if ok {
			waddr = uint16(v)
		} else if nkStorable(name) {
			wsym = name
		} else {
			bad = true
		}
	}
	addr, symaddr, sym, err := r.st.ParseCompoundSymbol(name)
	t.Step()
	if bad {
		if err == nil {
			t.Fail("the address form accepted %q as (%04X, %04X, %q)", name, addr, symaddr, sym)
		}
		return
	}
	t.noErr(err, "address form %q", name)
	if addr != waddr || symaddr != wsymaddr || upper(sym) != upper(wsym) {
		t.Fail("%q parses as (%04X, %04X, %q), want (%04X, %04X, %q)", name, addr, symaddr, sym, waddr, wsymaddr, wsym)
	}
}

func (r *resolver) all(t *T, name string) {
	if !isASCII(name) {
		return
	}
	r.bare(t, name)
	r.compound(t, name)
	r.address(t, name)
	t.State(hashString(uint64(len(r.st)), name))
}

// resDisk has a sector or more for every file number.
func resDisk(withTable bool) []byte {
	files := map[byte][]int{}
	s := 12
	next := func() int { s++; return s - 1 }
	for f := 1; f <= 0xFD; f++ {
		if withTable && (f == 3 || f == 4) {
			continue
		}
		files[byte(f)] = []int{next()}
	}
	var free []int
	for ; s < nSectors; s++ {
		free = append(free, s)
	}
	return nkMake("names", free, 0xff, files, resTable, withTable).img
}

func c08(c *Ctx) {
	names := map[string]uint16{}
	for _, s := range resTable {
		names[s.name] = s.addr
	}
	tables := []struct {
		what string
		mk   func(t *T) *resolver
	}{
		{"a table of awkward symbols read from disk", func(t *T) *resolver {
			img := resDisk(true)
			return &resolver{nkOpen(t, img).ST, names}
		}},
		{"the same in memory", func(t *T) *resolver {
			st := supermon.SymbolTable{}
			for i := 0; i < 819; i++ {
				if s, ok := resTable[i]; ok {
					st = append(st, supermon.Symbol{Name: s.name, Address: s.addr, Link: -1})
				}
			}
			return &resolver{st, names}
		}},
		{"an empty table", func(t *T) *resolver { return &resolver{make(supermon.SymbolTable, 3), map[string]uint16{}} }},
		{"no table", func(t *T) *resolver { return &resolver{nil, map[string]uint16{}} }},
	}
	// per-worker cache
	cache := map[int]*resolver{}
	get := func(t *T, k int) *resolver {
		if cache[k] == nil {
			cache[k] = tables[k].mk(t)
		}
		return cache[k]
	}
	const hexu, hexl = "0123456789ABCDEF", "0123456789abcdef"
	var known []string
	for _, s := range resTable {
		known = append(known, s.name)
	}
	sortStrings(known)
	c.Section("symbol addresses", "a symbol of every 16-bit address, alone, in other cases, behind every kind of number, and the number before and after it")
	for hi := 0; hi < 256; hi++ {
		c.Case(func(t *T) {
			for lo := 0; lo < 256; lo++ {
				v := hi<<8 | lo
				at := map[string]uint16{"ZED": uint16(v), "ZED2": uint16(v) ^ 1, "Z3": 0xDF05}
				st := make(supermon.SymbolTable, 8)
				for i := range st {
					st[i].Link = -1
				}
				for i, n := range []string{"ZED", "ZED2", "Z3"} {
					st[(v+i*3)%8] = supermon.Symbol{Name: n, Address: at[n], Link: -1}
					if at[n] == 0 {
						delete(at, n)
					}
				}
				r := &resolver{st, at}
				for _, n := range []string{"ZED", "zed", "ZED2", "Z3", "5:ZED", "DF06:zEd", fmt.Sprintf("%X:ZED", v), fmt.Sprintf("%X:ZED2", v), fmt.Sprintf("ZED:%X", v), fmt.Sprintf("%x", v)} {
					r.all(t, n)
				}
				t.State(hashInt(71, v))
			}
			t.Outcome("addresses")
		}, "addresses %02X00", hi)
	}
	for k, tb := range tables {
		c.Section("numbers, "+tb.what, "every hexadecimal string of 1-4 digits in upper and lower case, with 1-3 leading zeros, and every 5-digit one with the first digit not 0 in sixteen samples of the rest; every 16-bit number with a new and a known symbol behind a colon")
		for hi := 0; hi < 256; hi++ {
			c.Case(func(t *T) {
				r := get(t, k)
				for lo := 0; lo < 256; lo++ {
					v := hi<<8 | lo
					for _, f := range []string{"%04X", "%04x", "%X", "%x", "%05X", "%06x", "%07X", "%02X", "%03x"} {
						r.bare(t, fmt.Sprintf(f, v))
						r.compound(t, fmt.Sprintf(f, v))
						r.address(t, fmt.Sprintf(f, v))
					}
					for _, p := range []string{"1", "F", "10"} {
						r.bare(t, p+fmt.Sprintf("%04X", v))
						r.address(t, p+fmt.Sprintf("%04X", v))
					}
					for i, w := range []string{"NEWSYM", known[v%len(known)]} {
						n := fmt.Sprintf([]string{"%04X:", "%x:", "%05x:"}[(v+i)%3], v) + w
						r.compound(t, n)
						r.address(t, n)
					}
					t.State(hashInt(hashInt(7, k), v))
				}
				t.Outcome("numbers")
			}, "%02Xxx", hi)
		}
		c.Section("short names, "+tb.what, "every string of 1-4 (thorough 5) characters over A F D G 5 0 : x + - _ blank and a control character")
		const alpha = "AFDG50:x+-_ \x01"
		n := Pick(c, 4, 5)
		if k > 0 {
			n = 4
		}
		for i := 0; i < len(alpha); i++ {
			for j := -1; j < len(alpha); j++ {
				c.Case(func(t *T) {
					r := get(t, k)
					if j < 0 {
						r.all(t, alpha[i:i+1])
						return
					}
					var rec func(s string)
					rec = func(s string) {
						r.all(t, s)
						if len(s) < n {
							for x := 0; x < len(alpha); x++ {
								rec(s + alpha[x:x+1])
							}
						}
					}
					rec(alpha[i:i+1] + alpha[j:j+1])
					t.Outcome("short names")
				}, "strings starting %q %d", alpha[i], j)
			}
		}
		c.Section("single characters, "+tb.what, "every ASCII character inside, before and after names and numbers")
		for ch := 0; ch < 128; ch++ {
			c.Case(func(t *T) {
				r := get(t, k)
				x := string(rune(ch))
				for _, s := range []string{"", "5", "DF", "DF05", "ABC", "FIRST", "first", "A", "AA", "FADE", "BEEF", "ZZZ"} {
					for p := 0; p <= len(s); p++ {
						r.all(t, s[:p]+x+s[p:])
						if p < len(s) {
							r.all(t, s[:p]+x+s[p+1:])
						}
						r.all(t, "5:"+s[:p]+x+s[p:])
						r.all(t, s[:p]+x+s[p:]+":ABC")
						r.all(t, s[:p]+x+s[p:]+":NEWSYM")
					}
				}
				t.Outcome("characters")
			}, "character %02X", ch)
		}
		c.Section("compounds, "+tb.what, "every (number, symbol) pair of every file number and address edge with every symbol and non-symbol word, in three cases; extra colons anywhere")
		words := []string{"NEW", "NEWSYM", "no", "TOOLONGNAME", "A1B2C3D4E", "A1B2C3D4", "BAD-CHAR", "dot.dot", "", "5", "DF05", "G5", "10005"}
		for _, s := range resTable {
			words = append(words, s.name)
		}
		sortStrings(words)
		var nums []string
		for v := 0; v < 256; v++ {
			nums = append(nums, fmt.Sprintf("%X", v), fmt.Sprintf("df%02x", v))
		}
		for _, v := range []int{0x100, 0xDE05, 0xDEFF, 0xE000, 0xE005, 0x6000, 0xFFFF, 0xDF0} {
			nums = append(nums, fmt.Sprintf("%04X", v))
		}
		nums = append(nums, "10005", "0005", "G", "ABC", "FIRST", "", "+5", "0x5", " 5", "5 ", "$5")
		for _, w := range words {
			c.Case(func(t *T) {
				r := get(t, k)
				for _, u := range []string{w, strings.ToLower(w), strings.Title(strings.ToLower(w))} {
					r.all(t, u)
					for _, nn := range nums {
						r.all(t, nn+":"+u)
						r.all(t, u+":"+nn)
						r.all(t, nn+":"+u+":")
						r.all(t, ":"+nn+":"+u)
						r.all(t, nn+"::"+u)
						r.all(t, nn+":"+u+":"+u)
					}
				}
				t.Outcome("compounds")
			}, "word %q", w)
		}
	}
	c.Section("operators", "get, delete and the listing's names of every number form and symbol on disks where every file exists, with and without symbol table")
	for _, with := range []bool{true, false} {
		img := resDisk(with)
		own := nkMap(img)
		nm := names
		if !with {
			nm = map[string]uint16{}
		}
		r := &resolver{nil, nm}
		var list []string
		for v := 0; v < 256; v++ {
			list = append(list, fmt.Sprintf("%x", v), fmt.Sprintf("DF%02X", v), fmt.Sprintf("%04x", v))
		}
		for _, s := range resTable {
			list = append(list, s.name, strings.ToLower(s.name))
		}
		sortStrings(list)
		list = append(list, "E005", "DE05", "105", "1DF05", "NOSUCH", "5:ABC", "FIRST:ABC")
		for _, name := range list {
			c.Case(func(t *T) {
				want := r.file(name)
				op := nkOpen(t, clone(img))
				fi, err := op.GetFile(name)
				t.Step()
				if want == 0 {
					if err == nil {
						t.Fail("get %q returned %d bytes; it names no file", name, len(fi.Data))
					}
				} else {
					t.noErr(err, "get %q", name)
					if !bytes.Equal(fi.Data, nkFile(img, &own, want)) {
						t.Fail("get %q did not return file %02X", name, want)
					}
				}
				existed, err := op.Delete(name)
				t.Step()
				now := nkMap(op.GetBytes())
				if want == 0 {
					if err == nil && existed {
						t.Fail("delete %q reported deleting a file", name)
					}
					if now != own {
						t.Fail("delete %q changed the sector map", name)
					}
					t.Outcome("no file")
					return
				}
				t.noErr(err, "delete %q", name)
				if with && (want == 3 || want == 4) {
					t.Outcome("symbol table file")
					return
				}
				for s := range own {
					w := own[s]
					if w == want {
						w = 0xff
					}
					table := func(f byte) bool { return with && (f == 3 || f == 4 || f == 0xff) }
					if table(w) && table(now[s]) {
						continue // dropping the symbol rewrites the table, wherever it fits
					}
					if now[s] != w {
						t.Fail("delete %q (file %02X) left sector %d with %02X, want %02X", name, want, s, now[s], w)
					}
				}
				t.State(hashString(hashInt(9, len(nm)), name))
				t.Outcome("file")
			}, "name %q, symbol table %v", name, with)
			// put
			c.Case(func(t *T) {
				if !with && nkNumber(name) == 0 {
					return
				}
				want := r.file(name)
				if want == 0 || (with && (want == 3 || want == 4)) || strings.Contains(name, ":") {
					return
				}
				op := nkOpen(t, clone(img))
				data := bytes.Repeat([]byte{0xA5}, 256)
				existed, err := op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: 256, Type: types.FiletypeBinary}, Data: data}, true)
				t.Step()
				t.noErr(err, "put %q", name)
				if !existed {
					t.Fail("put %q: file %02X reported as new", name, want)
				}
				now := nkMap(op.GetBytes())
				for f := 1; f <= 0xFD; f++ {
					w := nkFile(img, &own, byte(f))
					if byte(f) == want {
						w = data
					} else if with && (f == 3 || f == 4) {
						continue
					}
					if !bytes.Equal(nkFile(op.GetBytes(), &now, byte(f)), w) {
						t.Fail("put %q (file %02X): file %02X differs from what was expected", name, want, f)
					}
				}
				t.Outcome("put")
			}, "put %q, symbol table %v", name, with)
		}
		c.Case(func(t *T) {
			op := nkOpen(t, clone(img))
			descs, err := op.Catalog("")
			t.noErr(err, "listing")
			for _, d := range descs {
				f := nkNumber(strings.Split(d.Fullname, ":")[0])
				if f == 0 {
					t.Fail("listed full name %q has no file number", d.Fullname)
				}
				if r.file(d.Name) != f {
					t.Fail("the listing shows %q (%q), which does not resolve to file %02X", d.Name, d.Fullname, f)
				}
			}
			t.Outcome("listing")
		}, "listed names resolve, symbol table %v", with)
	}
	c.Section("start-up program", "mkhello of every file number, bare and with each symbol behind a colon, and of every symbol: the program loads the file the name resolves to")
	img := resDisk(true)
	rh := &resolver{nil, names}
	var syms []string
	for _, s := range resTable {
		syms = append(syms, s.name)
	}
	sortStrings(syms)
	for n := 0; n < 256; n++ {
		c.Case(func(t *T) {
			list := []string{fmt.Sprintf("%X", n), fmt.Sprintf("DF%02x", n)}
			for i, s := range append(append([]string{}, syms...), "NEWSYM") {
				list = append(list, fmt.Sprintf([]string{"%x:%s", "DF%02X:%s", "%04X:%s"}[i%3], n, s))
			}
			if n < len(syms) {
				list = append(list, syms[n], strings.ToLower(syms[n]))
			}
			for _, name := range list {
				want := rh.file(name)
				if i := strings.IndexByte(name, ':'); i >= 0 {
					want = nkNumber(name[:i])
					if nkNumber(name[i+1:]) != 0 {
						continue
					}
				}
				t.cleanScratch()
				path := t.writeFile("x.do", oracleConvert(img, "raw", "do"))
				err := cliOp{kind: "hello", name: name, addr: 0x6000, start: 0xFFFF, order: "auto"}.run(t, path)
				t.Step()
				if want == 0 {
					if err == nil {
						t.Fail("mkhello %q succeeded; it names no file", name)
					}
					t.Outcome("refused")
					continue
				}
				t.noErr(err, "mkhello %q", name)
				fi, err := nkOpen(t, oracleConvert(t.readFile(path), "do", "raw")).GetFile("1")
				t.noErr(err, "get 1")
				helloCheck(t, fi.Data, want, 0x6000, 0x6000)
				t.Outcome("loads the file")
				t.State(hashString(31, name))
			}
		}, "file number %02X", n)
	}
}
