package main

import (
	"fmt"
	"strings"

	"github.com/zellyn/diskii/supermon"
)

func init() {
	props["C06"] = prop{run: c06, level: "model_checking", assum: []string{
		"small tables of 3 to 5 slots stand for tables of 819 slots in the fixpoint search; full-size tables are covered by linear histories and by every slot and link value",
		"starting tables have one chain per hash (as the tool and NakedOS build them)",
	}}
}

func symLive(s supermon.Symbol) bool { return s.Address != 0 }

// symMap is what a table means: upper-cased name to address.
func symMap(st supermon.SymbolTable) map[string]uint16 {
	m := map[string]uint16{}
	for _, s := range st {
		if symLive(s) {
			m[upper(s.Name)] = s.Address
		}
	}
	return m
}

// chainsOf checks the chain structure and returns, per hash, whether its live
// symbols form one chain. It returns an error text for a broken link.
func chainsOf(st supermon.SymbolTable) (single map[int]bool, broken string) {
	single = map[int]bool{}
	members := map[int][]int{}
	for i, s := range st {
		if !symLive(s) {
			continue
		}
		members[nkHash(s.Address)] = append(members[nkHash(s.Address)], i)
		if s.Link == -1 {
			continue
		}
		if s.Link < 0 || s.Link >= len(st) {
			return nil, fmt.Sprintf("slot %d links to %d, outside the table", i, s.Link)
		}
		if !symLive(st[s.Link]) {
			return nil, fmt.Sprintf("slot %d links to slot %d, which is empty", i, s.Link)
		}
		if nkHash(st[s.Link].Address) != nkHash(s.Address) {
			return nil, fmt.Sprintf("slot %d (%04X) links to slot %d (%04X) of another hash", i, s.Address, s.Link, st[s.Link].Address)
		}
		// no cycle
		n := 0
		for j := i; j != -1; j = st[j].Link {
			if n++; n > len(st) {
				return nil, fmt.Sprintf("the chain from slot %d is a cycle", i)
			}
			if !symLive(st[j]) || st[j].Link >= len(st) || st[j].Link < -1 {
				break // reported at its own slot
			}
		}
	}
	for h, ms := range members {
		indeg := map[int]int{}
		tails := 0
		for _, i := range ms {
			if st[i].Link == -1 {
				tails++
			} else {
				indeg[st[i].Link]++
			}
		}
		ok := tails == 1
		for _, d := range indeg {
			ok = ok && d == 1
		}
		single[h] = ok
	}
	return single, ""
}

func symKey(st supermon.SymbolTable) string {
	var b strings.Builder
	for _, s := range st {
		fmt.Fprintf(&b, "%s,%x,%d;", s.Name, s.Address, s.Link)
	}
	return b.String()
}

func cloneST(st supermon.SymbolTable) supermon.SymbolTable {
	return append(supermon.SymbolTable(nil), st...)
}

type symOp struct {
	kind byte // 'a','d','r'
	name string
	addr uint16
}

func (o symOp) String() string {
	switch o.kind {
	case 'a':
		return fmt.Sprintf("add %s=%04X", o.name, o.addr)
	case 'd':
		return "delete " + o.name
	}
	return "reload"
}

// reloadST writes a table to a disk and reads it back.
func reloadST(t *T, st supermon.SymbolTable) supermon.SymbolTable {
	n := len(st)
	img := clone(symDisk())
	sm, err := supermon.LoadSectorMap(img)
	t.noErr(err, "sector map")
	full := append(cloneST(st), make(supermon.SymbolTable, 819-n)...)
	arg := cloneST(full)
	t.noErr(sm.WriteSymbolTable(img, arg), "writing the table")
	t.Step()
	if symKey(arg) != symKey(full) {
		t.Fail("writing the table changed it in memory: %v, was %v", arg[:n], full[:n])
	}
	// read with a freshly loaded map
	sm2, err := supermon.LoadSectorMap(img)
	t.noErr(err, "sector map")
	back, err := sm2.ReadSymbolTable(img)
	t.Step()
	t.noErr(err, "reading back the table %v", st)
	if len(back) != 819 {
		t.Fail("the table read back has %d slots", len(back))
	}
	for i := n; i < 819; i++ {
		if symLive(back[i]) {
			t.Fail("slot %d, never used, reads back as %v", i, back[i])
		}
	}
	for i := 0; i < n; i++ {
		a, b := st[i], back[i]
		if symLive(a) != symLive(b) {
			t.Fail("slot %d was %v and reads back as %v", i, a, b)
		}
		if symLive(a) && (upper(a.Name) != b.Name || a.Address != b.Address || a.Link != b.Link) {
			t.Fail("slot %d was %v and reads back as %v", i, a, b)
		}
	}
	return cloneST(back[:n])
}

var symDiskImg []byte

func symDisk() []byte {
	if symDiskImg == nil {
		symDiskImg = nkMake("symbols", nil, 0xfe, nil, nil, true).img
	}
	return symDiskImg
}

// symStep applies op to a copy of st and checks the outcome.
func symStep(t *T, st supermon.SymbolTable, op symOp) supermon.SymbolTable {
	before := symMap(st)
	singleBefore, broken := chainsOf(st)
	if broken != "" {
		t.Fail("internal: bad starting table: %s", broken)
	}
	next := cloneST(st)
	want := map[string]uint16{}
	for k, v := range before {
		want[k] = v
	}
	switch op.kind {
	case 'a':
		err := next.AddSymbol(op.name, op.addr)
		t.Step()
		_, known := before[upper(op.name)]
		if op.addr == 0 || (!known && len(before) == len(st)) {
			if err == nil {
				t.Fail("%v accepted on %v", op, st)
			}
			if symKey(next) != symKey(st) {
				t.Fail("%v was refused but changed the table from %v to %v", op, st, next)
			}
			return next
		}
		t.noErr(err, "%v on %v", op, st)
		want[upper(op.name)] = op.addr
	case 'd':
		found := next.DeleteSymbol(op.name)
		t.Step()
		_, known := before[upper(op.name)]
		if found != known {
			t.Fail("%v on %v reported %v", op, st, found)
		}
		delete(want, upper(op.name))
	case 'r':
		next = reloadST(t, st)
	}
	if len(next) != len(st) {
		t.Fail("%v changed the table's size", op)
	}
	got := symMap(next)
	livecount := 0
	for _, s := range next {
		if symLive(s) {
			livecount++
		} else if s.Name != "" {
			t.Fail("%v left an empty slot with the name %q in %v", op, s.Name, next)
		}
	}
	if livecount != len(want) || len(got) != len(want) {
		t.Fail("%v on %v gives %v: want the symbols %v", op, st, next, want)
	}
	for k, v := range want {
		if got[k] != v {
			t.Fail("%v on %v gives %v: want the symbols %v", op, st, next, want)
		}
		if a := next.ByName(k); a != v {
			t.Fail("%v on %v: ByName(%s) = %04X, want %04X", op, st, k, a, v)
		}
		if a := next.ByName(strings.ToLower(k)); a != v {
			t.Fail("%v on %v: ByName(%s) = %04X, want %04X", op, st, strings.ToLower(k), a, v)
		}
	}
	singleAfter, broken := chainsOf(next)
	if broken != "" {
		t.Fail("%v on %v gives %v: %s", op, st, next, broken)
	}
	for h, ok := range singleAfter {
		was, had := singleBefore[h]
		if (!had || was) && !ok {
			t.Fail("%v on %v gives %v: the symbols of hash %02X no longer form one chain", op, st, next, h)
		}
	}
	return next
}

// symBFS explores every reachable table.
func symBFS(t *T, start supermon.SymbolTable, ops []symOp) int {
	seen := map[string]bool{symKey(start): true}
	queue := []supermon.SymbolTable{start}
	for len(queue) > 0 {
		st := queue[0]
		queue = queue[1:]
		t.State(hashString(1, symKey(st)))
		for _, op := range ops {
			next := symStep(t, st, op)
			k := symKey(next)
			if !seen[k] {
				seen[k] = true
				queue = append(queue, next)
			}
		}
		if t.Over() {
			t.Stop()
		}
	}
	return len(seen)
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func c06(c *Ctx) {
	// Addresses: two with equal nonzero hash, two with hash zero, one apart.
	type cfg struct {
		slots int
		names []string
		addrs []uint16
	}
	cfgs := []cfg{
		{3, []string{"AAA", "BBB", "CCC", "DDD"}, []uint16{0xDF01, 0xDF81, 0xDFDF, 0x6000}},
		{4, []string{"AAA", "bbb", "CCC"}, []uint16{0xDF01, 0xDF81}},
		{3, []string{"AAA", "aaa", "BBB", "Bbb", "CCC"}, []uint16{0xDFDF, 0xDF5F, 0xDF02}},
		{1, []string{"AAA", "BBB"}, []uint16{0xDF01, 0xDF81, 0xDFDF}},
		{2, []string{"AAA", "BBB", "ccc"}, []uint16{0xDF01, 0xDF81, 0xDFDF, 0xDF5F}},
	}
	if c.Thorough() {
		cfgs = append(cfgs,
			cfg{4, []string{"AAA", "BBB", "CCC", "DDD"}, []uint16{0xDF01, 0xDF81}},
			cfg{4, []string{"AAA", "BBB", "CCC", "DDD", "EEE"}, []uint16{0xDF01, 0xDF5F}},
			cfg{4, []string{"AAA", "bbb", "CCC", "DDD"}, []uint16{0xDF01, 0xDF81, 0xDF5F}},
			cfg{5, []string{"AAA", "BBB", "CCC", "DDD"}, []uint16{0xDF01, 0xDF81}})
	}
	mkops := func(g cfg) []symOp {
		var ops []symOp
		for _, n := range g.names {
			for _, a := range g.addrs {
				ops = append(ops, symOp{'a', n, a})
			}
			ops = append(ops, symOp{'d', n, 0})
		}
		ops = append(ops, symOp{'a', g.names[0], 0}, symOp{'d', "NOSUCH", 0}, symOp{'r', "", 0})
		return ops
	}
	c.Section("fixpoint from the empty table", "all reachable tables of 1-4 (thorough 5) slots under add, re-point, delete and reload")
	for gi, g := range cfgs {
		ops := mkops(g)
		c.Case(func(t *T) {
			n := symBFS(t, make(supermon.SymbolTable, g.slots), ops)
			t.Outcome("config %d: %d tables", gi, n)
		}, "config %d %v", gi, g)
		c.Case(func(t *T) { // starting from a table read from disk, and from deleted slots with stale links
			st := make(supermon.SymbolTable, g.slots)
			for i := range st {
				st[i].Link = (i + 1) % g.slots
			}
			n := symBFS(t, st, ops)
			t.Outcome("config %d stale: %d tables", gi, n)
		}, "config %d with stale links %v", gi, g)
	}
	c.Section("linked starting tables", "every order of one chain through 2-4 slots of a 4-slot table (every head slot), and two interleaved chains; all histories of length 3")
	for k := 2; k <= 4; k++ {
		for _, p := range permutations(4) {
			c.Case(func(t *T) {
				for _, addrs := range [][]uint16{{0xDF01, 0xDF81, 0xDE00, 0x603E}, {0xDFDF, 0xDF5F, 0x4040, 0x2121}} {
					st := make(supermon.SymbolTable, 4)
					for i := 0; i < k; i++ {
						link := -1
						if i+1 < k {
							link = p[i+1]
						}
						st[p[i]] = supermon.Symbol{Name: []string{"AAA", "BBB", "CCC", "DDD"}[i], Address: addrs[i], Link: link}
					}
					var ops []symOp
					for _, n := range []string{"AAA", "BBB", "CCC", "DDD", "EEE"} {
						ops = append(ops, symOp{'d', n, 0}, symOp{'a', n, addrs[0]}, symOp{'a', n, 0x6000})
					}
					ops = append(ops, symOp{'r', "", 0})
					var walk func(st supermon.SymbolTable, d int)
					walk = func(st supermon.SymbolTable, d int) {
						t.State(hashString(2, symKey(st)))
						if d == 0 {
							return
						}
						for _, op := range ops {
							walk(symStep(t, st, op), d-1)
						}
					}
					walk(st, Pick(c, 2, 3))
				}
				t.Outcome("chain of %d", k)
			}, "chain of %d through %v", k, p)
		}
	}
	c.Section("two chains", "every interleaving of two chains of two over four slots")
	for _, p := range permutations(4) {
		c.Case(func(t *T) {
			st := make(supermon.SymbolTable, 4)
			st[p[0]] = supermon.Symbol{Name: "AAA", Address: 0xDF01, Link: p[1]}
			st[p[1]] = supermon.Symbol{Name: "BBB", Address: 0xDF81, Link: -1}
			st[p[2]] = supermon.Symbol{Name: "CCC", Address: 0xDFDF, Link: p[3]}
			st[p[3]] = supermon.Symbol{Name: "DDD", Address: 0xDF5F, Link: -1}
			var ops []symOp
			for _, n := range []string{"AAA", "BBB", "CCC", "DDD"} {
				ops = append(ops, symOp{'d', n, 0}, symOp{'a', n, 0xDF01}, symOp{'a', n, 0xDFDF}, symOp{'a', n, 0x6000})
			}
			ops = append(ops, symOp{'r', "", 0})
			var walk func(st supermon.SymbolTable, d int)
			walk = func(st supermon.SymbolTable, d int) {
				t.State(hashString(3, symKey(st)))
				if d == 0 {
					return
				}
				for _, op := range ops {
					walk(symStep(t, st, op), d-1)
				}
			}
			walk(st, 3)
			t.Outcome("two chains")
		}, "slots %v", p)
	}
	c.Section("links", "a two-symbol chain from each slot to others (quick: 8 targets, thorough: all 819) survives writing and reading")
	for i := 0; i < 819; i++ {
		c.Case(func(t *T) {
			targets := []int{0, 1, i - 1, i + 1, 51, 52, 409, 818}
			if c.Thorough() {
				targets = nil
				for j := 0; j < 819; j++ {
					targets = append(targets, j)
				}
			}
			for _, j := range targets {
				if j == i || j < 0 || j > 818 {
					continue
				}
				st := make(supermon.SymbolTable, 819)
				st[i] = supermon.Symbol{Name: "AAA", Address: 0xDF01, Link: j}
				st[j] = supermon.Symbol{Name: "BBB", Address: 0xDF81, Link: -1}
				reloadST(t, st)
				t.State(hashInt(hashInt(4, i), j))
			}
			t.Outcome("links kept")
		}, "slot %d", i)
	}
	c.Section("addresses", "every address 1-FFFF survives writing and reading, 819 per table, and being set, re-pointed (also from addresses of the same hash) and deleted, alone and among chains of its own hash and those one bit away")
	for base := 1; base < 65536; base += 819 {
		c.Case(func(t *T) {
			st := make(supermon.SymbolTable, 819)
			for i := range st {
				a := base + i
				if a > 65535 {
					break
				}
				st[i] = supermon.Symbol{Name: fmt.Sprintf("S%dX", a), Address: uint16(a), Link: -1}
				t.State(hashInt(5, a))
			}
			back := reloadST(t, st)
			for i, s := range back {
				if st[i].Address != 0 && back.ByName(st[i].Name) != s.Address {
					t.Fail("ByName %s", st[i].Name)
				}
			}
			t.Outcome("addresses kept")
		}, "addresses from %04X", base)
	}
	for lo := 1; lo < 65536; lo += 512 {
		c.Case(func(t *T) {
			for a := lo; a < lo+512 && a < 65536; a++ {
				st := supermon.SymbolTable{{Name: "BBB", Address: 0xDF01, Link: -1}, {}, {}}
				st = symStep(t, st, symOp{'a', "AAA", uint16(a)})
				st = symStep(t, st, symOp{'a', "BBB", uint16(a)})
				for _, same := range []int{0x0101, 0x8080, 0x0080, 0x8000} { // from an address with the same hash
					if a^same == 0 {
						continue
					}
					st = symStep(t, st, symOp{'a', "BBB", uint16(a ^ same)})
					st = symStep(t, st, symOp{'a', "BBB", uint16(a)})
				}
				st = symStep(t, st, symOp{'d', "aaa", 0})
				// among chains of its own hash and of those one bit away
				h := (a ^ a>>8) & 0x7f
				st = supermon.SymbolTable{{}, {}}
				for k := 0; k <= 8; k++ {
					g := h ^ 1<<k>>1
					if k == 8 {
						g = h ^ 0x7f
					}
					st = append(st, supermon.Symbol{Name: fmt.Sprintf("H%dX", k), Address: uint16(g<<8 | (a>>k&1)*0x8000), Link: -1})
					if s := &st[len(st)-1]; s.Address == 0 {
						s.Address = 0x8000 | 0x80
					}
				}
				st = symStep(t, st, symOp{'a', "AAA", uint16(a)})
				st = symStep(t, st, symOp{'a', "BBB", uint16(a)})
				st = symStep(t, st, symOp{'d', "h0x", 0})
				if a%5 == 0 || a > 0xff00 {
					symStep(t, st, symOp{'r', "", 0})
				}
			}
			t.Outcome("set, re-pointed, deleted")
		}, "histories with addresses from %04X", lo)
	}
	c.Section("full table", "819 additions over 1, 2, 128 hashes, the refusal of the 820th, every single deletion and re-addition, reload")
	for _, nh := range []int{1, 2, 3, 128} {
		for part := 0; part < 8; part++ {
			c.Case(func(t *T) {
				st := make(supermon.SymbolTable, 819)
				addr := func(i int) uint16 { // hash i%nh, address nonzero
					h := i % nh
					hi := i / nh % 128
					return uint16(hi<<8|(hi^h)) | 0x8000
				}
				for i := range st {
					if err := st.AddSymbol(fmt.Sprintf("S%dX", 100+i), addr(i)); err != nil {
						t.Fail("adding symbol %d of 819: %v", i, err)
					}
					t.Step()
				}
				check := func(what string) {
					if len(symMap(st)) != 819 {
						t.Fail("%s: the table holds %d symbols", what, len(symMap(st)))
					}
					single, broken := chainsOf(st)
					if broken != "" {
						t.Fail("%s: %s", what, broken)
					}
					for h, ok := range single {
						if !ok {
							t.Fail("%s: hash %02X is split", what, h)
						}
					}
				}
				check("after filling")
				key := symKey(st)
				if st.AddSymbol("NEW", 0xDF01) == nil {
					t.Fail("adding to a full table succeeded")
				}
				if symKey(st) != key {
					t.Fail("a refused addition changed the table")
				}
				st = reloadST(t, st)
				for i := part; i < 819; i += 8 * Pick(c, 4, 1) {
					st2 := symStep(t, st, symOp{'d', fmt.Sprintf("S%dX", 100+i), 0})
					st2 = symStep(t, st2, symOp{'a', "NEW", 0xDF01})
					st2 = symStep(t, st2, symOp{'a', fmt.Sprintf("s%dx", 100+(i+7)%819), 0xDF01})
					t.State(hashString(6, symKey(st2)))
				}
				t.Outcome("full with %d hashes", nh)
			}, "%d hashes part %d", nh, part)
		}
	}
}
