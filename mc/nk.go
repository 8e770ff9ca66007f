package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	derr "github.com/zellyn/diskii/errors"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

// ---- the reference model of a NakedOS disk

// nkModel is the store: files by number, names by upper-cased symbol.
type nkModel struct {
	owner [nSectors]byte
	files map[byte][]byte // whole sectors
	names map[string]uint16
	hasST bool
	live  int  // live slots of the symbol table
	loose bool // the table holds names that cannot be written back
}

func (m *nkModel) clone() *nkModel {
	n := *m
	n.files = map[byte][]byte{}
	for k, v := range m.files {
		n.files[k] = v
	}
	n.names = map[string]uint16{}
	for k, v := range m.names {
		n.names[k] = v
	}
	return &n
}

// resolve returns the file number a bare name stands for (0: none).
func (m *nkModel) resolve(name string) byte {
	if n := nkNumber(name); n != 0 {
		return n
	}
	if a := m.names[upper(name)]; a > 0xDF00 && a < 0xDFFE {
		return byte(a - 0xDF00)
	}
	return 0
}

func (m *nkModel) free() int {
	n := 0
	for _, o := range m.owner {
		if o == 0xff {
			n++
		}
	}
	return n
}

// ---- operations

type nkOp struct {
	kind      byte // 'p' put, 'd' delete, 'r' reopen
	name      string
	data      []byte
	overwrite bool
}

func (o nkOp) String() string {
	switch o.kind {
	case 'p':
		f := ""
		if o.overwrite {
			f = " -f"
		}
		return fmt.Sprintf("put%s %s(%d)", f, o.name, len(o.data))
	case 'd':
		return "rm " + o.name
	}
	return "reopen"
}

// nkData makes recognisable contents; nonzero at the end unless z.
func nkData(id, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(id*37 + i*7 + i/256*13 + 1)
	}
	if n > 0 && b[n-1] == 0 {
		b[n-1] = 0x55
	}
	return b
}

type nkVerdict struct {
	refused  string // "", "exists", "space", "either", "other", "may" (refusal allowed, success allowed)
	existed  bool
	num      byte // target file
	symbol   string
	symbolTo uint16 // new address of symbol, 0 if the symbol does not change
	drop     string // symbol that goes away
	maybe    string // symbol that may or may not go away (stale symbol)
}

// expectPut decides what a put must do.
func (m *nkModel) expectPut(op nkOp) nkVerdict {
	v := nkVerdict{}
	parts := strings.Split(op.name, ":")
	named := byte(0)
	switch len(parts) {
	case 1:
		v.num = nkNumber(op.name)
		if v.num == 0 {
			v.symbol = op.name
			v.num = m.resolve(op.name)
			named = v.num
		}
	case 2:
		v.num = nkNumber(parts[0])
		if v.num == 0 || nkNumber(parts[1]) != 0 {
			v.refused = "other"
			return v
		}
		v.symbol = parts[1]
		named = m.resolve(parts[1])
	default:
		v.refused = "other"
		return v
	}
	if v.symbol != "" && (!m.hasST || !nkStorable(v.symbol)) {
		v.refused = "other"
		return v
	}
	if len(op.data) == 0 {
		v.refused = "other"
		return v
	}
	if v.num == 0 {
		for n := 1; n <= 0xFD; n++ {
			if _, ok := m.files[byte(n)]; !ok {
				v.num = byte(n)
				break
			}
		}
		if v.num == 0 {
			v.refused = "other"
			return v
		}
	}
	old, exists := m.files[v.num]
	v.existed = exists
	need := (len(op.data) + 255) / 256
	space := m.free()+len(old)/256 < need
	clash := exists && !op.overwrite
	switch {
	case space && clash:
		v.refused = "either"
	case space:
		v.refused = "space"
	case clash:
		v.refused = "exists"
	}
	if v.refused != "" {
		return v
	}
	if v.symbol != "" && named != v.num {
		v.symbolTo = 0xDF00 + uint16(v.num)
		if _, known := m.names[upper(v.symbol)]; !known && m.live >= 819 {
			v.refused = "other"
			return v
		}
		if m.loose {
			v.refused = "may"
		}
	}
	return v
}

func (m *nkModel) expectDelete(op nkOp) nkVerdict {
	v := nkVerdict{num: m.resolve(op.name)}
	if v.num == 0 {
		return v
	}
	_, v.existed = m.files[v.num]
	if nkNumber(op.name) == 0 {
		if v.existed {
			v.drop = upper(op.name)
		} else {
			v.maybe = upper(op.name)
		}
		if m.loose {
			v.refused = "may"
		}
	}
	return v
}

// ---- running one operation against both

type nkRun struct {
	t  *T
	op supermon.Operator
	m  *nkModel
}

func nkOpen(t *T, img []byte) supermon.Operator {
	o, err := supermon.OperatorFactory{}.Operator(img, 0)
	t.Step()
	t.noErr(err, "opening the NakedOS disk")
	return nkValue(o)
}

// nkValue is the NakedOS operator behind the interface.
func nkValue(o any) supermon.Operator {
	switch op := o.(type) {
	case supermon.Operator:
		return op
	case *supermon.Operator:
		return *op
	}
	panic(fmt.Sprintf("OperatorFactory returned a %T", o))
}

// nkModelOf builds the model of a fresh image by independent decoding.
func nkModelOf(img []byte, names map[string]uint16, hasST bool, live int, loose bool) *nkModel {
	m := &nkModel{owner: nkMap(img), files: map[byte][]byte{}, names: map[string]uint16{}, hasST: hasST, live: live, loose: loose}
	for n := 1; n <= 0xFD; n++ {
		if d := nkFile(img, &m.owner, byte(n)); d != nil {
			m.files[byte(n)] = d
		}
	}
	for k, v := range names {
		m.names[upper(k)] = v
	}
	return m
}

// apply runs op without judging it, updating the model (used on replays and by
// step).
func (r *nkRun) call(op nkOp) (existed bool, err error) {
	r.t.Step()
	switch op.kind {
	case 'p':
		mine := clone(op.data)
		defer func() {
			for i := range mine { // the caller may go on using its bytes
				mine[i] ^= 0xA5
			}
		}()
		info := types.FileInfo{Descriptor: types.Descriptor{Name: op.name, Length: len(op.data), Type: types.FiletypeBinary}, Data: mine, StartAddress: 0x6000}
		if (len(op.data)+len(op.name))%2 == 1 { // what the caller knows besides has no place on the disk
			info.Descriptor.Fullname, info.Descriptor.Blocks, info.Descriptor.Locked = "DF09:OTHER", 1, true
			info.StartAddress = 0xFF00
		}
		return r.op.PutFile(info, op.overwrite)
	case 'd':
		return r.op.Delete(op.name)
	}
	r.op = nkOpen(r.t, clone(r.op.GetBytes()))
	return false, nil
}

// step executes op, updates the model, and judges it: files decides the C04
// checks, sectors the C05 checks. It reports whether anything changed.
func (r *nkRun) step(op nkOp, files, sectors bool) string {
	t, m := r.t, r.m
	if op.kind == 'r' {
		before := clone(r.op.GetBytes())
		r.call(op)
		if sectors {
			t.mustEqual(r.op.GetBytes(), before, "opening a NakedOS disk modified it")
		}
		if files {
			r.check()
		}
		return "reopened"
	}
	var v nkVerdict
	if op.kind == 'p' {
		v = m.expectPut(op)
	} else {
		v = m.expectDelete(op)
	}
	before := clone(r.op.GetBytes())
	smBefore := append([]byte(nil), r.op.SM...)
	existed, err := r.call(op)
	after := r.op.GetBytes()
	if err != nil {
		if sectors {
			t.mustEqual(after, before, "%s failed (%v), but the image changed", op, err)
			t.mustEqual(r.op.SM, smBefore, "%s failed (%v), but the sector map in memory changed", op, err)
		}
		if files {
			switch v.refused {
			case "":
				t.Fail("%s failed: %v", op, err)
			case "exists":
				if !derr.IsFileExists(err) {
					t.Fail("%s: want a file-exists error, got %v", op, err)
				}
				if !existed {
					t.Fail("%s was refused because the file exists, but reported that it did not", op)
				}
			case "space":
				if !derr.IsOutOfSpace(err) {
					t.Fail("%s: want an out-of-space error, got %v", op, err)
				}
				if existed != v.existed {
					t.Fail("%s did not fit and reported existed=%v, want %v", op, existed, v.existed)
				}
			case "either":
				if !derr.IsOutOfSpace(err) && !derr.IsFileExists(err) {
					t.Fail("%s: want an out-of-space or file-exists error, got %v", op, err)
				}
			}
			r.check()
		}
		return "refused " + v.refused
	}
	if v.refused != "" && v.refused != "may" {
		if files {
			t.Fail("%s succeeded, but must be refused (%s)", op, v.refused)
		}
		t.Stop2("a must-refuse operation succeeded")
	}
	if files && existed != v.existed {
		t.Fail("%s reported existed=%v, want %v", op, existed, v.existed)
	}
	// Update the model.
	symChanged := v.symbolTo != 0
	if op.kind == 'p' {
		padded := make([]byte, (len(op.data)+255)/256*256)
		copy(padded, op.data)
		m.files[v.num] = padded
		if v.symbolTo != 0 {
			if _, ok := m.names[upper(v.symbol)]; !ok {
				m.live++
			}
			m.names[upper(v.symbol)] = v.symbolTo
		}
	} else if v.num != 0 {
		delete(m.files, v.num)
		gone := v.drop
		if v.maybe != "" && r.op.ST.ByName(v.maybe) == 0 {
			gone = v.maybe
		}
		if gone != "" {
			delete(m.names, gone)
			m.live--
			symChanged = true
		}
	}
	owner := nkMap(after)
	if sectors {
		r.checkSectors(op, v, before, after, &m.owner, &owner, symChanged)
	}
	m.owner = owner
	for _, f := range []byte{3, 4} {
		if _, ok := m.files[f]; ok {
			m.files[f] = nkFile(after, &owner, f)
		}
	}
	if files {
		r.check()
	}
	if op.kind == 'd' && v.num == 0 {
		return "nothing to delete"
	}
	return fmt.Sprintf("done existed=%v symbol=%v", v.existed, symChanged)
}

// Stop2 ends a case whose model no longer applies, without judging it (the
// other property of the pair reports it).
func (t *T) Stop2(why string) { panic(caseOver{why}) }

type caseOver struct{ why string }

func (r *nkRun) checkSectors(op nkOp, v nkVerdict, before, after []byte, was, is *[nSectors]byte, symChanged bool) {
	t := r.t
	if !bytes.Equal(r.op.SM, is[:]) {
		for s := range is {
			if r.op.SM[s] != is[s] {
				t.Fail("%s: sector %d is owned by %02X on disk but %02X in memory", op, s, is[s], r.op.SM[s])
			}
		}
	}
	inF := func(o byte) bool {
		return (v.num != 0 && o == v.num) || (symChanged && (o == 3 || o == 4))
	}
	counts := map[byte]int{}
	for s := 0; s < nSectors; s++ {
		o, n := was[s], is[s]
		counts[n]++
		if o != 0xff && !inF(o) {
			if n != o {
				t.Fail("%s: sector %d changed owner from %02X to %02X", op, s, o, n)
			}
			lo, hi := s*256, s*256+256
			switch s { // the sector map's own bytes
			case 9:
				hi = s*256 + 0xd0
			case 10, 11:
				hi = lo
			}
			if !bytes.Equal(before[lo:hi], after[lo:hi]) {
				t.Fail("%s: sector %d of file %02X was overwritten", op, s, o)
			}
			continue
		}
		if n != 0xff && !inF(n) {
			t.Fail("%s: sector %d, owned by %02X before, now belongs to %02X", op, s, o, n)
		}
	}
	if v.num != 0 {
		want := len(r.m.files[v.num]) / 256
		if counts[v.num] != want {
			t.Fail("%s: file %02X owns %d sectors, want %d", op, v.num, counts[v.num], want)
		}
	}
	if symChanged && (counts[3] != 16 || counts[4] != 16) {
		t.Fail("%s: the symbol table files own %d and %d sectors, want 16 each", op, counts[3], counts[4])
	}
}

// check compares everything observable with the model, on the live operator
// and on a freshly opened copy of its image.
func (r *nkRun) check() {
	r.observe(r.op, "live")
	img := clone(r.op.GetBytes())
	r.observe(nkOpen(r.t, img), "reopened")
}

func (r *nkRun) observe(op supermon.Operator, which string) {
	t, m := r.t, r.m
	byFile := map[byte][]string{}
	var syms []string
	for n, a := range m.names {
		syms = append(syms, n)
		if a > 0xDF00 && a < 0xDFFE {
			f := byte(a - 0xDF00)
			byFile[f] = append(byFile[f], n)
		}
	}
	sort.Strings(syms)
	// listing
	list, err := op.Catalog("")
	t.Step()
	t.noErr(err, "%s: listing", which)
	seen := map[byte]bool{}
	last := byte(0)
	for _, d := range list {
		num := byte(0)
		if len(d.Fullname) >= 4 && strings.HasPrefix(d.Fullname, "DF") {
			num = nkNumber(d.Fullname[:4])
		}
		if num == 0 || seen[num] {
			t.Fail("%s: listing shows %q (full name %q), which is no file number or repeats one", which, d.Name, d.Fullname)
		}
		if num < last {
			t.Fail("%s: listing shows DF%02X after DF%02X; it goes by file number", which, num, last)
		}
		last = num
		seen[num] = true
		data, ok := m.files[num]
		if !ok {
			t.Fail("%s: listing shows file DF%02X, which is not stored", which, num)
		}
		if d.Length != len(data) || d.Sectors != len(data)/256 || d.Type != types.FiletypeBinary || d.Locked {
			t.Fail("%s: listing shows DF%02X with length %d, %d sectors, type %v; it has %d bytes", which, num, d.Length, d.Sectors, d.Type, len(data))
		}
		want := byFile[num]
		okName := len(want) == 0 && upper(d.Name) == fmt.Sprintf("DF%02X", num) && len(d.Fullname) == 4
		for _, w := range want {
			okName = okName || (strings.EqualFold(d.Name, w) && strings.EqualFold(d.Fullname, fmt.Sprintf("DF%02X:%s", num, w)))
		}
		if !okName {
			t.Fail("%s: listing shows DF%02X as %q (%q); its names are %v", which, num, d.Name, d.Fullname, want)
		}
	}
	for num := range m.files {
		if !seen[num] {
			t.Fail("%s: listing lacks file DF%02X", which, num)
		}
	}
	// contents by number
	get := func(name string, num byte) {
		fi, err := op.GetFile(name)
		t.Step()
		want, ok := m.files[num]
		if !ok || num == 0 {
			if err == nil {
				t.Fail("%s: get %q returned %d bytes, but there is no such file", which, name, len(fi.Data))
			}
			return
		}
		t.noErr(err, "%s: get %q", which, name)
		if !bytes.Equal(fi.Data, want) {
			t.Fail("%s: get %q: %s", which, name, diffAt(fi.Data, want))
		}
		for i := range fi.Data { // what was returned is the caller's own
			fi.Data[i] ^= 0x5A
		}
		if fi.Descriptor.Length != len(want) {
			t.Fail("%s: get %q reports length %d, want %d", which, name, fi.Descriptor.Length, len(want))
		}
	}
	for num := byte(1); num <= 0xFD; num++ {
		if num == 3 || num == 4 {
			continue
		}
		_, ok := m.files[num]
		if !ok && num > 12 && num < 0xF8 {
			continue
		}
		get(fmt.Sprintf("DF%02X", num), num)
		if num < 12 {
			get(fmt.Sprintf("%x", num), num)
		}
	}
	// contents by symbol
	for i, s := range syms {
		if len(syms) > 40 && i%53 != 0 && i < len(syms)-8 {
			continue
		}
		num := m.resolve(s)
		if num == 3 || num == 4 {
			continue
		}
		get(s, num)
		get(strings.ToLower(s), num)
	}
	for _, s := range []string{"AAA", "BBB", "CCC1", "NOSUCH"} {
		if _, ok := m.names[s]; !ok {
			get(s, 0)
		}
	}
}

// ---- bases

type nkBase struct {
	what  string
	img   []byte
	names map[string]uint16
	hasST bool
	live  int
	loose bool
}

func (b *nkBase) run(t *T) *nkRun {
	return &nkRun{t: t, op: nkOpen(t, clone(b.img)), m: nkModelOf(b.img, b.names, b.hasST, b.live, b.loose)}
}

// nkMake builds a base. free lists the free sectors; fill: what owns the rest
// of the disk; files: sectors of each file.
func nkMake(what string, free []int, fill byte, files map[byte][]int, syms map[int]nkSym, st bool) *nkBase {
	var owner [nSectors]byte
	for i := range owner {
		owner[i] = fill
		if i < 12 {
			owner[i] = 0xfe
		}
	}
	for _, s := range free {
		owner[s] = 0xff
	}
	contents := map[byte][]byte{}
	for f, secs := range files {
		for _, s := range secs {
			owner[s] = f
		}
		contents[f] = nkData(int(f)+100, len(secs)*256)
	}
	b := &nkBase{what: what, names: map[string]uint16{}, hasST: st}
	if st {
		// The symbol table files lie scattered: every fifth sector from 20 up.
		s := 20
		for k := 0; k < 32; k++ {
			for owner[s] != fill && !(fill == 0xff && owner[s] == 0xff) {
				s++
			}
			if k%2 == 0 || k >= 30 {
				owner[s] = 3
			} else {
				owner[s] = 4
			}
			s += 5
		}
		n3, n4 := 0, 0
		for _, o := range owner {
			if o == 3 {
				n3++
			}
			if o == 4 {
				n4++
			}
		}
		for s := range owner { // even them out to 16 each
			if n3 > 16 && owner[s] == 3 {
				owner[s] = 4
				n3--
				n4++
			}
		}
		syms = nkChain(syms)
		f3, f4 := nkTables(syms)
		contents[3], contents[4] = f3, f4
		for _, s := range syms {
			b.names[upper(s.name)] = s.addr
			b.live++
		}
	}
	b.img = nkImage(owner, contents)
	return b
}

func nkBases() map[string]*nkBase {
	free := []int{15, 16, 200, 201, 330, 559}
	files := map[byte][]int{5: {13}, 7: {14, 300}}
	syms := map[int]nkSym{0: {addr: 0xdf05, name: "FIVE"}, 3: {addr: 0x6000, name: "NOTFILE"}, 4: {addr: 0xdf85, name: "STALE"}, 818: {addr: 0xdf07, name: "SEVEN7"}}
	m := map[string]*nkBase{}
	m["tiny"] = nkMake("six free sectors, two files", free, 0xfe, files, syms, true)
	m["nost"] = nkMake("no symbol table", free, 0xfe, files, nil, false)
	full := map[int]nkSym{}
	for i := 0; i < 819; i++ {
		full[i] = nkSym{addr: uint16(0x1000 + i*3), name: fmt.Sprintf("S%03dX", i)}
	}
	full[7] = nkSym{addr: 0xdf05, name: "FIVE"}
	m["full"] = nkMake("full symbol table", free, 0xfe, files, full, true)
	delete(full, 411)
	m["almost"] = nkMake("one free symbol slot", free, 0xfe, files, full, true)
	m["loose"] = nkMake("a two-letter name in the table", free, 0xfe, files, map[int]nkSym{2: {addr: 0xdf05, name: "ZY"}, 5: {addr: 0xdf07, name: "SEVEN"}}, true)
	m["loose"].loose = true
	// all there is lies in one track
	for _, e := range []struct {
		name, what        string
		free, five, seven []int
	}{
		{"first", "all in the first track", []int{14, 15}, []int{13}, []int{12}},
		{"last", "all in the last track", []int{545, 546, 559}, []int{547, 558}, []int{544}},
		{"edge", "on both sides of a track's end", []int{15, 31, 32, 543, 544}, []int{16, 47}, []int{48, 527}},
	} {
		m[e.name] = nkMake(e.what, e.free, 0xfe, map[byte][]int{5: e.five, 7: e.seven}, nil, false)
		m[e.name+"+"] = nkMake(e.what+", and a symbol table", e.free, 0xfe, map[byte][]int{5: e.five, 7: e.seven}, map[int]nkSym{0: {addr: 0xdf05, name: "FIVE"}}, true)
	}
	// every number but 2, 6 and FD used
	many := map[byte][]int{}
	s := 190
	for f := 1; f <= 0xFC; f++ {
		if f == 2 || f == 6 || f == 3 || f == 4 {
			continue
		}
		many[byte(f)] = []int{s}
		s++
	}
	m["numbers"] = nkMake("three free file numbers", []int{15, 16, 17, 18, 500, 501}, 0xfe, many, map[int]nkSym{0: {addr: 0xdf05, name: "FIVE"}}, true)
	return m
}

func nkReal(what, file string) *nkBase {
	b := repoFile(file)
	if len(b) != floppy {
		return nil
	}
	img := oracleConvert(b, "do", "raw")
	owner := nkMap(img)
	f3, f4 := nkFile(img, &owner, 3), nkFile(img, &owner, 4)
	base := &nkBase{what: what, img: img, names: map[string]uint16{}, hasST: len(f3) == 0x1000 && len(f4) == 0x1000}
	for i := 0; base.hasST && i < 819; i++ {
		addr := uint16(f3[i*5]) | uint16(f3[i*5+1])<<8
		if addr == 0 {
			continue
		}
		base.live++
		name := nkDecode(f4[i*5:i*5+5], f3[i*5+4])
		if !nkStorable(name) {
			base.loose = true
		}
		base.names[name] = addr
	}
	return base
}

// nkDecode decodes a stored symbol name.
func nkDecode(five []byte, extra byte) string {
	var v uint64
	for i := 4; i >= 0; i-- {
		v = v<<8 | uint64(five[i])
	}
	v |= uint64(extra) << 40
	out := ""
	for v&0x1f != 0 {
		x := v & 0x1f
		if x <= 26 {
			out += string(rune('A' + x - 1))
			v >>= 5
			continue
		}
		d := x - 27
		if v&0x20 != 0 {
			d += 5
		}
		out += string(rune('0' + d))
		v >>= 6
	}
	return out
}

// ---- exploration

// nkExplore walks every sequence of ops up to depth from the base, replaying
// each prefix on a fresh operator, and judging every step.
func nkExplore(c *Ctx, b *nkBase, ops []nkOp, depth int, files, sectors bool) {
	// Shard by the first two operations.
	for i := range ops {
		for j := -1; j < len(ops); j++ {
			if depth < 2 && j >= 0 {
				break
			}
			c.Case(func(t *T) {
				seen := map[uint64]int{}
				var path []nkOp
				// replay runs path on a fresh operator, judging the last step.
				replay := func() (*nkRun, string) {
					r := b.run(t)
					out := ""
					for k, op := range path {
						last := k == len(path)-1
						out = r.step(op, files && last, sectors && last)
					}
					return r, out
				}
				var walk func(left int)
				visit := func(op nkOp, left int) {
					path = append(path, op)
					defer func() { path = path[:len(path)-1] }()
					defer func() {
						if p := recover(); p != nil {
							if f, ok := p.(failure); ok {
								panic(failure{fmt.Sprintf("after %v: %s", path, f.what)})
							}
							if _, ok := p.(caseOver); ok {
								return
							}
							panic(p)
						}
					}()
					r, out := replay()
					if t.Over() {
						t.Stop()
					}
					h := hashBytes(hashString(11, b.what), r.op.GetBytes())
					h = hashString(hashBytes(h, r.op.SM), fmt.Sprint(r.op.ST))
					t.State(h)
					t.c.st.Outcomes[out]++
					if left <= 0 || strings.HasPrefix(out, "refused") || out == "nothing to delete" {
						return // the state is that of the parent
					}
					if l, ok := seen[h]; ok && l >= left {
						return
					}
					seen[h] = left
					walk(left)
				}
				walk = func(left int) {
					for _, op := range ops {
						visit(op, left-1)
					}
				}
				if j < 0 {
					visit(ops[i], 0)
					return
				}
				path = append(path, ops[i])
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(caseOver); ok {
							return
						}
						panic(p)
					}
				}()
				_, out := replay()
				if strings.HasPrefix(out, "refused") || out == "nothing to delete" {
					return
				}
				visit(ops[j], depth-2)
			}, "%s: %v then %d", b.what, ops[i], j)
		}
	}
}

func puts(names []string, lens []int, ows []bool) []nkOp {
	var out []nkOp
	id := 0
	for _, n := range names {
		for _, l := range lens {
			for _, o := range ows {
				id++
				out = append(out, nkOp{kind: 'p', name: n, data: nkData(id, l), overwrite: o})
			}
		}
	}
	return out
}

func dels(names ...string) []nkOp {
	var out []nkOp
	for _, n := range names {
		out = append(out, nkOp{kind: 'd', name: n})
	}
	return out
}
