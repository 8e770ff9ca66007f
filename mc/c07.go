package main

import (
	"bytes"
	"fmt"

	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C07"] = prop{run: c07, level: "model_checking", assum: []string{
		"names of 6 to 9 characters are enumerated over alphabets that hold both ends of every encoding class, not over all 36 characters",
		"names that read as file numbers and names with a colon are the subject of C08",
	}}
}

const alnum = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// nameBatch writes and reads tables of names, 819 at a time, expecting each to
// be stored exactly.
type nameBatch struct {
	t     *T
	names []string
}

func (b *nameBatch) add(n string) {
	b.names = append(b.names, n)
	if len(b.names) == 819 {
		b.flush()
	}
}

func (b *nameBatch) flush() {
	if len(b.names) == 0 {
		return
	}
	t := b.t
	img := clone(symDisk())
	sm, err := supermon.LoadSectorMap(img)
	t.noErr(err, "sector map")
	st := make(supermon.SymbolTable, 819)
	for i := range st {
		st[i].Link = -1
	}
	for i, n := range b.names {
		st[i] = supermon.Symbol{Name: n, Address: uint16(i + 1), Link: -1}
	}
	if err := sm.WriteSymbolTable(img, st); err != nil {
		t.Fail("writing a table of storable names (%s ... %s): %v", b.names[0], b.names[len(b.names)-1], err)
	}
	sm, _ = supermon.LoadSectorMap(img)
	back, err := sm.ReadSymbolTable(img)
	t.Steps(len(b.names))
	t.noErr(err, "reading back names %s ... %s", b.names[0], b.names[len(b.names)-1])
	for i, n := range b.names {
		if back[i].Name != upper(n) {
			t.Fail("the name %q reads back as %q", n, back[i].Name)
		}
	}
	t.State(hashString(hashString(1, b.names[0]), b.names[len(b.names)-1]))
	b.names = b.names[:0]
}

// refusedName checks that a table with this name cannot be written.
func refusedName(t *T, img []byte, sm supermon.SectorMap, n string) {
	st := supermon.SymbolTable{{Name: "GOOD", Address: 1, Link: -1}, {Name: n, Address: 0xDF05, Link: -1}}
	keep := clone(img)
	err := sm.WriteSymbolTable(img, st)
	t.Step()
	if err == nil {
		back, _ := sm.ReadSymbolTable(img)
		got := "nothing"
		if len(back) > 1 {
			got = back[1].Name
		}
		t.Fail("the name %q was written and reads back as %q", n, got)
	}
	if !bytes.Equal(img, keep) {
		t.Fail("the name %q was refused, but the disk changed", n)
	}
}

func c07(c *Ctx) {
	c.Section("all short names", "every name of 3 and 4 (thorough: 5) letters and digits")
	for a := range alnum {
		for b := range alnum {
			c.Case(func(t *T) {
				nb := &nameBatch{t: t}
				for x := range alnum {
					n3 := string([]byte{alnum[a], alnum[b], alnum[x]})
					nb.add(n3)
					for y := range alnum {
						nb.add(n3 + string(alnum[y]))
						if c.Thorough() {
							for z := range alnum {
								nb.add(n3 + string(alnum[y]) + string(alnum[z]))
							}
						}
					}
				}
				nb.flush()
				t.Outcome("stored exactly")
			}, "names starting %c%c", alnum[a], alnum[b])
		}
	}
	c.Section("long names", "every name of 5-9 characters over small alphabets with both ends of every class; those over 48 bits are refused")
	for n := 5; n <= 9; n++ {
		alpha := map[int]string{5: "AZ0459aP", 6: "AZ0459", 7: "AZ059", 8: "AZ09", 9: "AZ09"}[n]
		if c.Thorough() {
			alpha = map[int]string{5: "AZ0459aPQ1", 6: "AOPZ04593", 7: "APZ0459", 8: "AZ0459", 9: "AZ049"}[n]
		}
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		const chunk = 4096
		for lo := 0; lo < total; lo += chunk {
			c.Case(func(t *T) {
				nb := &nameBatch{t: t}
				img := clone(symDisk())
				sm, err := supermon.LoadSectorMap(img)
				t.noErr(err, "sector map")
				good, bad := 0, 0
				for k := lo; k < lo+chunk && k < total; k++ {
					buf := make([]byte, n)
					for i, v := 0, k; i < n; i++ {
						buf[i] = alpha[v%len(alpha)]
						v /= len(alpha)
					}
					if nkStorable(string(buf)) {
						nb.add(string(buf))
						good++
					} else {
						st := supermon.SymbolTable{{Name: string(buf), Address: 0xDF05, Link: -1}}
						if sm.WriteSymbolTable(img, st) == nil {
							t.Fail("the name %q of more than 48 bits was written", buf)
						}
						t.Step()
						bad++
					}
				}
				nb.flush()
				t.State(hashInt(hashInt(2, n), lo))
				if !bytes.Equal(img, symDisk()) {
					t.Fail("refused names changed the disk")
				}
				t.Outcome("length %d", n)
			}, "length %d from %d", n, lo)
		}
	}
	for p := 0; p < 9; p++ {
		for n := 3; n <= 9; n++ {
			if p >= n {
				continue
			}
			c.Case(func(t *T) {
				nb := &nameBatch{t: t}
				for _, fill := range []byte{'A', 'Z', 'M', '5', '4', 'q'} {
					for _, ch := range []byte(alnum + "abcdefghijklmnopqrstuvwxyz") {
						b := bytes.Repeat([]byte{fill}, n)
						b[p] = ch
						if nkStorable(string(b)) {
							nb.add(string(b))
						}
					}
				}
				nb.flush()
				t.Outcome("each character at each position")
			}, "length %d position %d", n, p)
		}
	}
	c.Section("refused names", "lengths 1, 2, 10-20 and every byte that is no letter or digit at every position of names of 3-9 bytes; pairs of such bytes")
	for n := 1; n <= 20; n++ {
		c.Case(func(t *T) {
			img := clone(symDisk())
			sm, err := supermon.LoadSectorMap(img)
			t.noErr(err, "sector map")
			for _, fill := range []byte{'A', 'Z', '0', '9', 'a', 'G'} {
				name := bytes.Repeat([]byte{fill}, n)
				if n < 3 || n > 9 {
					refusedName(t, img, sm, string(name))
				}
				for p := 0; p < n; p++ {
					for ch := 0; ch < 256; ch++ {
						b := clone(name)
						b[p] = byte(ch)
						if nkStorable(string(b)) {
							continue
						}
						refusedName(t, img, sm, string(b))
						t.State(hashBytes(3, b))
					}
				}
			}
			t.Outcome("refused")
		}, "length %d", n)
	}
	c.Section("put", "names at the level of the put operation: every byte at every position, every length 1-12")
	base := nkMake("put names", []int{15, 16, 17, 18, 400}, 0xfe, map[byte][]int{5: {13}}, map[int]nkSym{1: {addr: 0xdf05, name: "FIVE"}}, true)
	putName := func(t *T, n string) {
		if nkNumber(n) != 0 || bytes.IndexByte([]byte(n), ':') >= 0 {
			return
		}
		for _, name := range []string{n, "9:" + n, "DF05:" + n} {
			img := clone(base.img)
			o, err := supermon.OperatorFactory{}.Operator(img, t.debug())
			t.noErr(err, "open")
			before := clone(o.GetBytes())
			_, err = o.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: 3, Type: types.FiletypeBinary}, Data: []byte{1, 2, 3}}, true)
			t.Step()
			t.State(hashString(4, name))
			if !nkStorable(n) {
				if err == nil {
					t.Fail("a file was put under %q", name)
				}
				if !bytes.Equal(o.GetBytes(), before) {
					t.Fail("putting %q was refused, but the disk changed", name)
				}
				continue
			}
			t.noErr(err, "put %q", name)
			o2, err := supermon.OperatorFactory{}.Operator(clone(o.GetBytes()), t.debug())
			t.noErr(err, "reopen")
			list, err := o2.Catalog("")
			t.noErr(err, "list")
			found := 0
			for _, d := range list {
				if d.Name == upper(n) {
					found++
				}
			}
			// DF05 has the older name FIVE as well and may show that one.
			if found != 1 && name[:2] != "DF" {
				t.Fail("a file put under %q is listed as %v", name, list)
			}
			fi, err := o2.GetFile(n)
			t.noErr(err, "get %q after reopening", n)
			if len(fi.Data) != 256 || fi.Data[0] != 1 || fi.Data[2] != 3 || fi.Data[3] != 0 {
				t.Fail("get %q returns other contents", n)
			}
			if f, err := o2.GetFile("FIVE"); err != nil || len(f.Data) != 256 {
				t.Fail("the symbol FIVE was lost by putting %q", name)
			}
		}
	}
	for n := 1; n <= 12; n++ {
		for p := 0; p < n; p++ {
			c.Case(func(t *T) {
				for _, fill := range []byte{'A', '9'} {
					for ch := 0; ch < 256; ch++ {
						if fill == '9' && !c.Thorough() && ch%3 != 0 && ch != '/' && ch != '@' && ch != '[' && ch != '`' && ch != '{' {
							continue
						}
						b := bytes.Repeat([]byte{fill}, n)
						b[p] = byte(ch)
						putName(t, string(b))
					}
				}
				t.Outcome("put")
			}, "put length %d position %d", n, p)
		}
	}
	for _, s := range []string{"A B", "AAA ", " AAA", "AAA\n", "É12", "naïve", "FILE.TXT", "A-B-C", "HELLO!", "A/B/C", "\x00\x00\x00", "A\x00B", "ABCDEFGHI", "ABCDEFGHIJ", "A23456789", "ABC456789", "AB3456789", "12345678", "123456789", "Z99999999"} {
		c.Case(func(t *T) { putName(t, s); t.Outcome("put") }, "put %q", s)
	}
	_ = fmt.Sprint
}
