package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/basic/integer"
	"github.com/zellyn/diskii/cmd"
)

func init() {
	props["C18"] = prop{run: c18, level: "model_checking", assum: []string{
		"the Applesoft keyword table of the oracle is transcribed from the Applesoft ROM's list ($80-$EA)",
		"blanks next to a keyword or inside it (PR #, SCRN () may differ; all other characters must match exactly",
	}}
	props["C19"] = prop{run: c19, level: "model_checking", assum: []string{
		"the Integer BASIC token table of the oracle is transcribed from the published list; token 79 (DSP or NODSP, sources differ) may be either, and 01 is the line end",
		"blanks next to a keyword may differ; all other characters must match exactly",
		"well-formed: names start with a letter, constants follow a keyword or start the line, remarks and string literals hold characters only",
	}}
}

// The keywords in token order.
var asWords = strings.Fields(`END FOR NEXT DATA INPUT DEL DIM READ GR TEXT PR# IN# CALL PLOT HLIN VLIN HGR2 HGR HCOLOR= HPLOT
 DRAW XDRAW HTAB HOME ROT= SCALE= SHLOAD TRACE NOTRACE NORMAL INVERSE FLASH COLOR= POP VTAB HIMEM: LOMEM: ONERR RESUME RECALL
 STORE SPEED= LET GOTO RUN IF RESTORE & GOSUB RETURN REM STOP ON WAIT LOAD SAVE DEF POKE PRINT CONT LIST CLEAR GET NEW TAB(
 TO FN SPC( THEN AT NOT STEP + - * / ^ AND OR > = < SGN INT ABS USR FRE SCRN( PDL POS SQR RND LOG EXP COS SIN TAN ATN PEEK
 LEN STR$ VAL ASC CHR$ LEFT$ RIGHT$ MID$`)

var intWords = strings.Fields(`HIMEM: EOL _ : LOAD SAVE CON RUN RUN DEL , NEW CLR AUTO , MAN
 HIMEM: LOMEM: + - * / = # >= > <= <> < AND OR MOD
 ^ + ( , THEN THEN , , " " ( ! ! ( PEEK RND
 SGN ABS PDL RNDX ( + - NOT ( = # LEN( ASC( SCRN( , (
 $ $ ( , , ; ; ; , , , TEXT GR CALL DIM DIM
 TAB END INPUT INPUT INPUT FOR = TO STEP NEXT , RETURN GOSUB REM LET GOTO
 IF PRINT PRINT PRINT POKE , COLOR= PLOT , HLIN , AT VLIN , AT VTAB
 = = ) ) LIST , LIST POP NODSP DSP NOTRACE DSP DSP TRACE PR# IN#`)

// matcher compares a listing with what it must show. Blanks are exact between
// two literal characters and free (but at least the literal ones) at keywords.
type matcher struct {
	min   int
	exact bool
	out   []spot
}

type spot struct {
	min   int
	exact bool
	ch    byte
	alt   byte // tolerated instead of ch; 0: none
}

func (m *matcher) emit(ch byte) {
	m.out = append(m.out, spot{min: m.min, exact: m.exact, ch: ch})
	m.min, m.exact = 0, true
}

func (m *matcher) lit(ch byte) {
	if ch == ' ' {
		m.min++
		return
	}
	m.emit(ch)
}

func (m *matcher) word(w string) {
	m.exact = false
	for i := 0; i < len(w); i++ {
		m.emit(w[i])
		m.exact = false
	}
}

func (m *matcher) number(n int) {
	m.exact = false
	for _, d := range []byte(strconv.Itoa(n)) {
		m.emit(d)
	}
	m.min, m.exact = 1, false
}

func (m *matcher) end(lineEmpty bool) {
	if lineEmpty {
		m.min = 0
	}
	m.emit('\n')
	m.min, m.exact = 0, false
}

func (m *matcher) match(s string) string {
	i := 0
	for k, p := range m.out {
		b := 0
		if p.ch != ' ' {
			for i < len(s) && s[i] == ' ' {
				b++
				i++
			}
		}
		if b < p.min || p.exact && b != p.min {
			return fmt.Sprintf("%d blanks before %q (character %d shown), want %d", b, p.ch, k, p.min)
		}
		if i >= len(s) {
			return fmt.Sprintf("ends before %q (character %d)", p.ch, k)
		}
		if s[i] != p.ch {
			return fmt.Sprintf("shows %q, want %q at offset %d (character %d)", s[i], p.ch, i, k)
		}
		i++
	}
	if rest := strings.TrimLeft(s[i:], " "); rest != "" {
		return fmt.Sprintf("goes on with %.40q", rest)
	}
	return ""
}

func asExpect(nums []int, lines [][]byte) *matcher {
	m := &matcher{}
	for i, l := range lines {
		m.number(nums[i])
		for _, b := range l {
			if b < 0x80 {
				m.lit(b)
			} else {
				m.word(asWords[b-0x80])
			}
		}
		m.end(len(l) == 0)
	}
	return m
}

// asCheck decodes raw and compares everything with the program.
func asCheck(t *T, raw []byte, loc int, nums []int, lines [][]byte) {
	in := clone(raw)
	p, err := applesoft.Decode(raw, uint16(loc))
	t.Step()
	t.noErr(err, "decoding a well-formed program at %04X", loc)
	t.mustEqual(raw, in, "Decode changed its input")
	if len(p) != len(lines) {
		t.Fail("%d lines decoded, want %d", len(p), len(lines))
	}
	for i := range lines {
		if p[i].Num != nums[i] {
			t.Fail("line %d has number %d, want %d", i, p[i].Num, nums[i])
		}
		if !bytes.Equal(p[i].Bytes, lines[i]) {
			t.Fail("line %d holds % X, want % X", i, p[i].Bytes, lines[i])
		}
	}
	s := p.String()
	t.Step()
	if d := asExpect(nums, lines).match(s); d != "" {
		t.Fail("the listing %.200q of % X %s", s, lines[:min(len(lines), 3)], d)
	}
}

func looksPrefixed(raw []byte) bool {
	if len(raw) < 2 {
		return false
	}
	n := int(raw[0]) + 256*int(raw[1])
	return n == len(raw)-2 || n == len(raw)-3
}

// forms returns the ways a program may be stored.
func forms(p []byte, stray byte) [][]byte {
	out := [][]byte{prefixed(p, 0), append(prefixed(p, 0), stray), append(prefixed(p, 1), stray)}
	if !looksPrefixed(p) {
		out = append(out, p)
	}
	if q := append(clone(p), stray); !looksPrefixed(q) {
		out = append(out, q)
	}
	for i, f := range out {
		n := int(f[0]) + 256*int(f[1])
		if len(p) > 65000 && n != len(f)-2 && n != len(f)-3 {
			out[i] = p
		}
	}
	return out
}

func c18(c *Ctx) {
	var all []byte
	for b := 1; b <= 0xEA; b++ {
		all = append(all, byte(b))
	}
	c.Section("single bytes and pairs", "every character and token alone and every ordered pair, as a line between two others, in five storage forms")
	for _, a := range all {
		c.Case(func(t *T) {
			nums := []int{10, 20, 30}
			lines := [][]byte{{'X', 0xD0, '1'}, {a}, {0x80}}
			for _, f := range forms(asProg(0x801, nums, lines), 0xD5) {
				asCheck(t, f, 0x801, nums, lines)
			}
			for _, b := range all {
				lines[1] = []byte{a, b}
				asCheck(t, asProg(0x801, nums, lines), 0x801, nums, lines)
				t.State(hashInt(1, int(a)*256+int(b)))
			}
		}, "byte %02X", a)
	}
	alpha := []byte{' ', '"', 'A', '0', ':', 4, 0x0a, 0x7f, 0x80, 0xB2, 0x83, 0xC8, 0xBA, 0xEA, 0xC0, 0xD0}
	depth := Pick(c, 5, 6)
	c.Section("short lines", fmt.Sprintf("every line of 3-%d bytes over blank, quote, letters, digits, controls and eight tokens", depth))
	for n := 3; n <= depth; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		for g := 0; g < total; g += 1024 {
			c.Case(func(t *T) {
				for h := g; h < g+1024; h++ {
					l := make([]byte, n)
					x := h
					for i := range l {
						l[i] = alpha[x%len(alpha)]
						x /= len(alpha)
					}
					asCheck(t, asProg(0x801, []int{100}, [][]byte{l}), 0x801, []int{100}, [][]byte{l})
					t.State(hashInt(2, n*10000000+h))
				}
			}, "length %d, lines %d to %d", n, g, g+1023)
		}
	}
	c.Section("bytes that are no token", "EB-FF at the start, middle and end of the first, middle and last line is an error")
	for b := 0xEB; b <= 0xFF; b++ {
		c.Case(func(t *T) {
			for ln := 0; ln < 3; ln++ {
				for n := 1; n <= 12; n++ {
					for pos := 0; pos < n; pos++ {
						for _, fill := range []byte{'A', ' ', '"', 0xBA, 0xB2, 0x83} {
							lines := [][]byte{{0xBA}, {0xB2}, {0x80}}
							lines[ln] = bytes.Repeat([]byte{fill}, n)
							lines[ln][pos] = byte(b)
							for _, f := range forms(asProg(0x801, []int{1, 2, 3}, lines), 0) {
								p, err := applesoft.Decode(f, 0x801)
								t.Step()
								if err == nil {
									t.Fail("line %d % X decoded as %q", ln, lines[ln], p)
								}
							}
						}
						t.State(hashInt(3, ((b*3+ln)*20+n)*20+pos))
					}
				}
			}
		}, "byte %02X", b)
	}
	c.Section("line numbers", "every line number 0-65535, as first, middle and last line, with equal, falling and rising neighbours")
	for hi := 0; hi < 256; hi++ {
		c.Case(func(t *T) {
			for lo := 0; lo < 256; lo++ {
				n := hi*256 + lo
				nums := []int{n, 65535 - n, n, n ^ 0xff00}
				lines := [][]byte{{0xBA}, {'5'}, {' '}, {}}
				asCheck(t, asProg(0x801, nums, lines), 0x801, nums, lines)
				for _, nums := range [][]int{{n, n, n, n}, {n, (n - 1) & 0xffff, (n - 1) & 0xffff, n}, {(n + 1) & 0xffff, n, 0, 0}} { // equal and falling neighbours
					asCheck(t, asProg(0x801, nums, lines), 0x801, nums, lines)
				}
				t.State(hashInt(4, n))
			}
		}, "numbers %02X00-%02XFF", hi, hi)
	}
	c.Section("addresses", "every load address at which a three-line program fits, five storage forms")
	for hi := 0; hi < 256; hi++ {
		c.Case(func(t *T) {
			nums := []int{10, 20, 63999}
			lines := [][]byte{{0xBA, '"', 'H', 'I', '"'}, {0xAB, '1', '0'}, {0xB2, ' ', 'X'}}
			for lo := 0; lo < 256; lo++ {
				loc := hi*256 + lo
				p := asProg(loc, nums, lines)
				if loc+len(p) > 0x10000 {
					continue
				}
				for _, f := range forms(p, byte(lo)) {
					asCheck(t, f, loc, nums, lines)
				}
				t.State(hashInt(5, loc))
			}
		}, "addresses %02X00-%02XFF", hi, hi)
	}
	c.Section("shapes", "0-300 lines; one line of every length 0-600; line lengths of every residue up to 40 KB; every stray byte")
	for n := 0; n <= 300; n++ {
		c.Case(func(t *T) {
			var nums []int
			var lines [][]byte
			for i := 0; i < n; i++ {
				nums = append(nums, i*7)
				lines = append(lines, asText(i, i%13))
			}
			for _, f := range forms(asProg(0x801, nums, lines), byte(n)) {
				asCheck(t, f, 0x801, nums, lines)
			}
			for _, k := range []int{n, n + 300, n * 130} {
				lines := [][]byte{asText(k, k), asText(1, 3)}
				for _, f := range forms(asProg(0x801, []int{1, 2}, lines), byte(n)) {
					asCheck(t, f, 0x801, []int{1, 2}, lines)
				}
				t.State(hashInt(6, k))
			}
			for _, f := range forms(asProg(0x801, []int{5}, [][]byte{{'A', byte(1 + n%127)}}), byte(n)) {
				asCheck(t, f, 0x801, []int{5}, [][]byte{{'A', byte(1 + n%127)}})
			}
		}, "shape %d", n)
	}
	c.Section("prefix lengths", "programs of every total length 2-2000 in all forms; those whose first two bytes read as their length are only required prefixed")
	for n := 0; n < 2000; n += 10 {
		c.Case(func(t *T) {
			for k := n; k < n+10; k++ {
				for _, loc := range []int{0x801, 0x3001, 1, k} {
					var nums []int
					var lines [][]byte
					if k >= 6 {
						nums, lines = []int{k}, [][]byte{asText(k, k-5)}
					}
					for _, f := range forms(asProg(loc, nums, lines), 0x80) {
						asCheck(t, f, loc, nums, lines)
					}
				}
				t.State(hashInt(7, k))
			}
		}, "lengths %d to %d", n, n+9)
	}
	c.Section("long programs", "programs whose length has every high byte and the low bytes 0, 1, 2, 3, 254 and 255, in each form")
	for hi := 8; hi < 256; hi++ {
		c.Case(func(t *T) {
			for _, lo := range []int{0, 1, 2, 3, 254, 255} {
				var nums []int
				var lines [][]byte
				for left := hi<<8 | lo; left > 2; {
					n := 400
					if left < 406+14 {
						n = left - 7
						if n > 410 {
							n = 200
						}
					}
					nums = append(nums, len(nums)*9)
					lines = append(lines, asText(len(nums), n))
					left -= n + 5
				}
				p := asProg(1, nums, lines)
				if len(p) != hi<<8|lo || len(p) > 0xfff0 {
					t.Outcome("%v", len(p) > 0xfff0)
					continue
				}
				for _, f := range forms(p, byte(hi)) {
					asCheck(t, f, 1, nums, lines)
				}
				t.State(hashInt(9, hi<<8|lo))
				t.Outcome("long")
			}
		}, "length %02Xxx", hi)
	}
	c.Section("every decode address", "the decode command at every address at which a program fits, the program being there")
	for hi := 0; hi < 256; hi++ {
		c.Case(func(t *T) {
			for at := hi << 8; at < hi<<8+256 && at < 0xffc0; at++ {
				if at == 0 {
					continue
				}
				nums, lines := []int{at, 20}, [][]byte{{0xBA, '"', byte(at%95 + 32), '"'}, {0xB2, 'Z'}}
				p := asProg(at, nums, lines)
				if n := int(p[0]) | int(p[1])<<8; n == len(p)-2 || n == len(p)-3 {
					continue // reads as its own length
				}
				d := cmd.DecodeCmd{Filename: t.writeFile("prog", p), Location: uint16(at)}
				out, err := t.withStdout(nil, func() error { return d.Run(t.globals()) })
				t.Step()
				t.noErr(err, "decode at %04X", at)
				want, err := applesoft.Decode(asProg(0x801, nums, lines), 0x801)
				t.noErr(err, "Decode")
				if string(out) != basic.ChevronControlCodes(want.String()) {
					t.Fail("at %04X the command printed %q, want %q", at, out, want)
				}
				t.State(hashInt(10, at))
			}
			t.Outcome("decoded")
		}, "addresses %02X00", hi)
	}
	chevronCheck(c, "escaping", basic.ChevronControlCodes)
	chevronCheck(c, "escaping (integer package)", integer.ChevronControlCodes)
	c.Section("decode command", "programs through the decode command, from a file and from standard input, escaped and raw, at several addresses")
	for loc := 0; loc < 6; loc++ {
		for raw := 0; raw < 2; raw++ {
			for ctl := 0; ctl < 128; ctl++ {
				for how := 0; how < 2; how++ {
					c.Case(func(t *T) {
						at := []int{0x801, 0x3001, 1, 0x4001, 0x800, 0xE000}[loc]
						nums := []int{10, 20}
						lines := [][]byte{{0xBA, '"', byte(ctl%127 + 1), '"'}, {0xB2, byte(ctl%127 + 1), byte(ctl%127 + 1), ' ', 'Z'}}
						p := asProg(at, nums, lines)
						d := cmd.DecodeCmd{Filename: t.writeFile("prog", p), Location: uint16(at), Raw: raw == 1}
						var in []byte
						if how == 1 {
							d.Filename, in = "-", p
						}
						out, err := t.withStdout(in, func() error { return d.Run(t.globals()) })
						t.Step()
						t.noErr(err, "decode")
						want, err := applesoft.Decode(p, uint16(at))
						t.noErr(err, "Decode")
						exp := want.String()
						if raw == 0 {
							exp = basic.ChevronControlCodes(exp)
						}
						if string(out) != exp {
							t.Fail("the command printed %q, want %q", out, exp)
						}
						t.State(hashInt(8, ((loc*2+raw)*128+ctl)*2+how))
					}, "address %d raw %d control %02X stdin %d", loc, raw, ctl, how)
				}
			}
		}
	}
}

func asText(seed, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + (seed*31+i*7+i*i)%0xEA)
	}
	return b
}

// chevronCheck checks the escaping of control characters.
func chevronCheck(c *Ctx, name string, f func(string) string) {
	c.Section(name, "every byte, every pair and every control character in three-character strings through the escaper; strings of other scripts and broken UTF-8")
	want := func(b byte) string {
		switch {
		case b == '\n' || b == '\t' || b >= 0x20:
			return string([]byte{b})
		case b >= 1 && b <= 26:
			return "«ctrl-" + string(rune('A'-1+b)) + "»"
		case b == 0:
			return "«NUL»"
		case b == 0x1b:
			return "" // any visible code
		}
		return "«" + []string{"FS", "GS", "RS", "US"}[b-0x1c] + "»"
	}
	check := func(t *T, s string) {
		got := f(s)
		t.Step()
		rest := got
		for i := 0; i < len(s); i++ {
			w := want(s[i])
			if w == "" {
				j := strings.Index(rest, "»")
				if !strings.HasPrefix(rest, "«") || j < 3 || strings.ContainsAny(rest[:j], " \n\t") || hasControl(rest[:j]) {
					t.Fail("%q is shown as %q", s, got)
				}
				rest = rest[j+len("»"):]
				continue
			}
			if !strings.HasPrefix(rest, w) {
				t.Fail("%q is shown as %q, not as %q", s, got, w)
			}
			rest = rest[len(w):]
		}
		if rest != "" {
			t.Fail("%q is shown as %q", s, got)
		}
	}
	for a := 0; a < 256; a++ {
		c.Case(func(t *T) {
			check(t, string([]byte{byte(a)}))
			for b := 0; b < 256; b++ {
				check(t, string([]byte{byte(a), byte(b)}))
				check(t, "10 PRINT \""+string([]byte{byte(a), byte(b)})+"\"\n20 END\n")
				t.State(hashInt(20, a*256+b))
				if a < 32 && b < 33 {
					for d := 0; d < 34; d++ {
						check(t, string([]byte{byte(a), byte(b), byte(d)}))
					}
				}
			}
		}, "byte %02X", a)
	}
	c.Case(func(t *T) {
		check(t, "")
		for _, s := range []string{"«ctrl-A»", "日本語\x01é", "\xff\xfe\x04\xc3", "a\u0085b\u2028c", strings.Repeat("\x04", 5000), strings.Repeat("x", 70000) + "\x07"} {
			check(t, s)
		}
	}, "scripts")
}

func hasControl(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 32 {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- Integer BASIC

// ie is one element of an Integer BASIC line.
type ie struct {
	kind byte // 't' token, 'n' name, 'c' constant, 's' string literal with quotes, 'r' remark
	tok  byte
	text string
	num  int
	lead byte // first byte of a constant
}

func (e ie) bytes() []byte {
	high := func(s string) []byte {
		var b []byte
		for i := 0; i < len(s); i++ {
			b = append(b, s[i]|0x80)
		}
		return b
	}
	switch e.kind {
	case 't':
		return []byte{e.tok}
	case 'n':
		return high(e.text)
	case 'c':
		return []byte{e.lead, byte(e.num), byte(e.num >> 8)}
	case 's':
		return append(append([]byte{0x28}, high(e.text)...), 0x29)
	}
	return append([]byte{0x5D}, high(e.text)...)
}

func (e ie) show(m *matcher) {
	switch e.kind {
	case 't':
		m.word(intWords[e.tok])
	case 'n':
		for i := 0; i < len(e.text); i++ {
			m.lit(e.text[i])
		}
	case 'c':
		for _, d := range []byte(strconv.Itoa(e.num)) {
			m.lit(d)
		}
	case 's':
		// The quotes are keywords of their own, but what lies between them
		// is the string.
		m.exact = false
		m.emit('"')
		for i := 0; i < len(e.text); i++ {
			m.lit(e.text[i])
		}
		m.emit('"')
		m.exact = false
	case 'r':
		m.word("REM")
		for i := 0; i < len(e.text); i++ {
			m.lit(e.text[i])
		}
	}
}

// intCheck builds, decodes and compares a program.
func intCheck(t *T, nums []int, lines [][]ie, stray int) {
	m := &matcher{}
	var raw [][]byte
	for i, l := range lines {
		m.number(nums[i])
		var b []byte
		for _, e := range l {
			b = append(b, e.bytes()...)
			e.show(m)
		}
		raw = append(raw, b)
		m.end(len(b) == 0)
	}
	p := intProg(nums, raw)
	fs := [][]byte{p}
	if looksPrefixed(p) {
		fs = nil
	}
	if stray >= 0 {
		fs = append(fs, prefixed(p, 0), append(prefixed(p, 0), byte(stray)))
	}
	for _, f := range fs {
		in := clone(f)
		l, err := integer.Decode(f)
		t.Step()
		t.noErr(err, "decoding a well-formed program % X", f[:min(len(f), 60)])
		t.mustEqual(f, in, "Decode changed its input")
		if len(l) != len(lines) {
			t.Fail("%d lines decoded, want %d", len(l), len(lines))
		}
		for i := range lines {
			if l[i].Num != nums[i] || !bytes.Equal(l[i].Bytes, raw[i]) {
				t.Fail("line %d is %d % X, want %d % X", i, l[i].Num, l[i].Bytes, nums[i], raw[i])
			}
		}
		s := l.String()
		t.Step()
		if d := m.match(s); d != "" {
			if strings.Contains(string(bytes.Join(raw, nil)), "\x79") {
				if dspOther(lines, nums, s) {
					continue
				}
			}
			t.Fail("the listing %.200q of % X %s", s, raw[:min(len(raw), 3)], d)
		}
	}
}

// dspOther accepts NODSP for token 79.
func dspOther(lines [][]ie, nums []int, s string) bool {
	old := intWords[0x79]
	intWords[0x79] = "NODSP"
	defer func() { intWords[0x79] = old }()
	m := &matcher{}
	for i, l := range lines {
		m.number(nums[i])
		n := 0
		for _, e := range l {
			n += len(e.bytes())
			e.show(m)
		}
		m.end(n == 0)
	}
	return m.match(s) == ""
}

func c19(c *Ctx) {
	tok := func(b byte) ie { return ie{kind: 't', tok: b} }
	name := func(s string) ie { return ie{kind: 'n', text: s} }
	con := func(n int) ie { return ie{kind: 'c', num: n, lead: byte(0xB0 + strconv.Itoa(n)[0] - '0')} }
	str := func(s string) ie { return ie{kind: 's', text: s} }
	rem := func(s string) ie { return ie{kind: 'r', text: s} }
	var toks []byte
	for b := 0; b < 0x80; b++ {
		if b != 1 && b != 0x28 && b != 0x29 && b != 0x5D {
			toks = append(toks, byte(b))
		}
	}
	atoms := func() []ie {
		out := []ie{name("A"), name("Z9"), name("I$"[:1]), name("X1Y22"), con(0), con(7), con(65535), con(256), str(""), str("HI"), str(" 1 2 "), str("A1 9")}
		for _, b := range toks {
			out = append(out, tok(b))
		}
		return out
	}()
	okAfter := func(a, b ie) bool { // a name or constant is followed by a keyword
		lit := func(e ie) bool { return e.kind == 'n' || e.kind == 'c' }
		return !(lit(a) && lit(b))
	}
	c.Section("single elements and pairs", "every token, names, constants and string literals alone and in every ordered pair, with a remark behind, as a line between two others")
	for ai, a := range atoms {
		c.Case(func(t *T) {
			nums := []int{1, 20, 300}
			l := [][]ie{{tok(0x61)}, {a}, {tok(0x51)}}
			intCheck(t, nums, l, 0)
			for bi, b := range atoms {
				if !okAfter(a, b) {
					continue
				}
				l[1] = []ie{a, b}
				intCheck(t, nums, l, 0)
				if b.kind == 't' || b.kind == 's' {
					l[1] = []ie{a, b, rem(" 12 \"X\"")}
					intCheck(t, nums, l, -1)
				}
				t.State(hashInt(1, ai*1000+bi))
			}
		}, "%v", a)
	}
	few := []ie{name("A"), name("B2"), con(5), con(0x2928), con(0x5D5D), con(0xB1C1), str("A 1"), str("9"), str(""), tok(0x03), tok(0x61), tok(0x5F), tok(0x16), tok(0x24), tok(0x12), tok(0x3B), tok(0x40)}
	depth := Pick(c, 5, 6)
	c.Section("short lines", fmt.Sprintf("every well-formed line of 3-%d elements out of %d", depth, len(few)))
	var rec func(t *T, l []ie, n int)
	rec = func(t *T, l []ie, n int) {
		if n == 0 {
			intCheck(t, []int{10}, [][]ie{l}, -1)
			return
		}
		for _, e := range few {
			if len(l) == 0 || okAfter(l[len(l)-1], e) {
				rec(t, append(l[:len(l):len(l)], e), n-1)
			}
		}
	}
	for n := 3; n <= depth; n++ {
		for i, a := range few {
			for j, b := range few {
				if !okAfter(a, b) {
					continue
				}
				c.Case(func(t *T) {
					rec(t, []ie{a, b}, n-2)
					t.State(hashInt(2, (n*100+i)*100+j))
				}, "length %d starting %v %v", n, a, b)
			}
		}
	}
	c.Section("constants", "every constant 0-65535 with each leading digit byte, after a keyword, first on the line, before a name and after a string")
	for hi := 0; hi < 256; hi++ {
		c.Case(func(t *T) {
			for lo := 0; lo < 256; lo++ {
				v := hi*256 + lo
				k := con(v)
				intCheck(t, []int{v}, [][]ie{{tok(0x5F), k}, {k, tok(0x03), name("A1"), tok(0x71), k}, {tok(0x61), str("9"), tok(0x45), k, tok(0x1D), name("B")}}[:1], -1)
				intCheck(t, []int{v, 2, 65535 - v}, [][]ie{{k, tok(0x03), name("A1"), tok(0x71), k}, {tok(0x61), str("9"), tok(0x45), k, tok(0x1D), name("B")}, {}}, -1)
				for d := 0; d < 10; d++ {
					k.lead = byte(0xB0 + d)
					intCheck(t, []int{v}, [][]ie{{tok(0x60), k, tok(0x24), k}}, -1)
				}
				t.State(hashInt(3, v))
			}
		}, "constants %02X00-%02XFF", hi, hi)
	}
	c.Section("strings and remarks", "every character at every place of strings and remarks of up to three characters, alone and next to digits and letters")
	for a := 0; a < 128; a++ {
		c.Case(func(t *T) {
			for b := -1; b < 128; b++ {
				s := string([]byte{byte(a)})
				if b >= 0 {
					s += string([]byte{byte(b)})
				}
				for _, x := range []string{s, "1" + s, s + "1", "A" + s + "9", " " + s + " "} {
					intCheck(t, []int{10, 20}, [][]ie{{tok(0x61), str(x), tok(0x46), name("Q")}, {rem(x)}}, -1)
					intCheck(t, []int{10, 20}, [][]ie{{name("A"), tok(0x40), tok(0x70), str(x), tok(0x03), rem(x)}, {con(5)}}, 3)
				}
				t.State(hashInt(4, a*200+b))
			}
		}, "character %02X", a)
	}
	c.Section("names", "every name of 1-3 letters of either case and digits starting with a letter; 4-character ones over a few")
	cs := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	for i := 0; i < 52; i++ {
		c.Case(func(t *T) {
			one := func(s string) {
				intCheck(t, []int{10}, [][]ie{{name(s), tok(0x71), con(12), tok(0x03), tok(0x61), name(s)}}, -1)
			}
			one(cs[i : i+1])
			for j := range cs {
				one(cs[i:i+1] + cs[j:j+1])
				for k := range cs {
					one(cs[i:i+1] + cs[j:j+1] + cs[k:k+1])
				}
				for _, k := range []string{"AA", "0A", "A0", "99", "Z99Z0"} {
					one(cs[i:i+1] + cs[j:j+1] + k)
				}
				t.State(hashInt(5, i*100+j))
			}
		}, "names starting %c", cs[i])
	}
	c.Section("shapes", "0-300 lines of mixed length; every line length 4-255; all strays; totals around 256 and 512 in each form")
	for n := 0; n <= 300; n++ {
		c.Case(func(t *T) {
			var nums []int
			var lines [][]ie
			for i := 0; i < n; i++ {
				nums = append(nums, (i*257)&0xffff)
				lines = append(lines, []ie{tok(toks[i%len(toks)]), str(strings.Repeat("*", i%17))})
			}
			intCheck(t, nums, lines, n&0xff)
			if n <= 250 {
				intCheck(t, []int{n, 5, n * 200}, [][]ie{{rem(strings.Repeat("7", n))}, {tok(0x51)}, {rem(strings.Repeat(" ", n))}}, n)
				intCheck(t, []int{n}, [][]ie{{rem(strings.Repeat("Q", n))}}, n)
			}
			t.State(hashInt(6, n))
		}, "shape %d", n)
	}
	c.Section("long programs", "programs whose length has every high byte and the low bytes 0, 1, 2, 3, 254 and 255, in each form")
	for hi := 1; hi < 256; hi++ {
		c.Case(func(t *T) {
			for _, lo := range []int{0, 1, 2, 3, 254, 255} {
				var nums []int
				var lines [][]ie
				for left := hi<<8 | lo; left > 0; {
					n := 200 // a line of a remark has 5 bytes besides it
					if left < 206+10 {
						n = left - 5
						if n > 205 {
							n = 100
						}
					}
					nums = append(nums, len(nums)*7)
					lines = append(lines, []ie{rem(strings.Repeat(string(rune('A'+len(nums)%26)), n))})
					left -= n + 5
				}
				intCheck(t, nums, lines, lo)
				t.State(hashInt(8, hi<<8|lo))
			}
		}, "length %02Xxx", hi)
	}
}
