package main

import (
	"fmt"
	"strings"

	"github.com/zellyn/diskii/cmd"
	"github.com/zellyn/diskii/types"
)

func init() {
	props["C23"] = prop{run: c23, level: "model_checking", assum: []string{
		"the oracle's table is transcribed from the documented list of ProDOS and SOS types",
		"names that differ from a known name only in case may be refused or resolve to that type",
	}}
}

type ftRow struct {
	code  int
	name  string
	three string
	one   string // only if usable
	desc  string
}

var ftDoc = []ftRow{
	{0x00, "Typeless", "", "", "Typeless file"}, {0x01, "BadBlocks", "", "", "Bad blocks file"},
	{0x02, "SOSPascalCode", "", "", "PASCAL code file"}, {0x03, "SOSPascalText", "", "", "PASCAL text file"},
	{0x04, "ASCIIText", "TXT", "T", "ASCII text file"}, {0x05, "SOSPascalText2", "", "", "PASCAL text file"},
	{0x06, "Binary", "BIN", "B", "Binary file"}, {0x07, "Font", "", "", "Font file"},
	{0x08, "GraphicsScreen", "", "", "Graphics screen file"}, {0x09, "BusinessBASIC", "", "", "Business BASIC program file"},
	{0x0A, "BusinessBASICData", "", "", "Business BASIC data file"}, {0x0B, "SOSWordProcessor", "", "", "Word processor file"},
	{0x0C, "SOSSystem", "", "", "SOS system file"}, {0x0F, "Directory", "DIR", "D", "Directory file"},
	{0x10, "RPSData", "", "", "RPS data file"}, {0x11, "RPSIndex", "", "", "RPS index file"},
	{0x19, "AppleWorksDatabase", "ADB", "", "AppleWorks data base file"}, {0x1A, "AppleWorksWordProcessor", "AWP", "", "AppleWorks word processing file"},
	{0x1B, "AppleWorksSpreadsheet", "ASP", "", "AppleWorks spreadsheet file"}, {0xEF, "Pascal", "PAS", "", "ProDOS PASCAL file"},
	{0xF0, "Command", "CMD", "", "Added command file"},
	{0xF1, "UserDefinedF1", "", "", "ProDOS user defined file type F1"}, {0xF2, "UserDefinedF2", "", "", "ProDOS user defined file type F2"},
	{0xF3, "UserDefinedF3", "", "", "ProDOS user defined file type F3"}, {0xF4, "UserDefinedF4", "", "", "ProDOS user defined file type F4"},
	{0xF5, "UserDefinedF5", "", "", "ProDOS user defined file type F5"}, {0xF6, "UserDefinedF6", "", "", "ProDOS user defined file type F6"},
	{0xF7, "UserDefinedF7", "", "", "ProDOS user defined file type F7"}, {0xF8, "UserDefinedF8", "", "", "ProDOS user defined file type F8"},
	{0xFA, "IntegerBASIC", "INT", "I", "Integer BASIC program file"}, {0xFB, "IntegerBASICVariables", "IVR", "", "Integer BASIC variables file"},
	{0xFC, "ApplesoftBASIC", "BAS", "A", "Applesoft BASIC program file"}, {0xFD, "ApplesoftBASICVariables", "VAR", "", "Applesoft BASIC variables file"},
	{0xFE, "Relocatable", "REL", "R", "EDASM relocatable object module file"}, {0xFF, "System", "SYS", "", "System file"},
	{0x100, "S", "", "", `DOS 3.3 Type "S"`}, {0x101, "NewA", "", "", `DOS 3.3 Type "new A"`}, {0x102, "NewB", "", "", `DOS 3.3 Type "new B"`},
}

func c23(c *Ctx) {
	rows := append([]ftRow(nil), ftDoc...)
	for code := 0; code < 0xEF; code++ {
		switch {
		case code == 0x0D || code == 0x0E || code >= 0x12 && code <= 0x18 || code >= 0x1C && code <= 0xBF:
			rows = append(rows, ftRow{code: code, name: fmt.Sprintf("SOSReserved%02X", code), desc: fmt.Sprintf("SOS reserved for future use %02X", code)})
		case code >= 0xC0:
			rows = append(rows, ftRow{code: code, name: fmt.Sprintf("ProDOSReserved%02X", code), desc: fmt.Sprintf("ProDOS reserved for future use %02X", code)})
		}
	}
	known := map[string]int{}
	fold := map[string]int{}
	for _, r := range rows {
		for _, n := range []string{r.name, r.three, r.one} {
			if n != "" {
				known[n] = r.code
				fold[upper(n)] = r.code
			}
		}
	}
	c.Section("documented types", "every documented and reserved code: listed once, described, and found by its name and abbreviations")
	for _, r := range rows {
		c.Case(func(t *T) {
			var infos []types.FiletypeInfo
			for _, i := range types.FiletypeInfos(true) {
				if int(i.Type) == r.code {
					infos = append(infos, i)
				}
			}
			t.Step()
			if len(infos) != 1 {
				t.Fail("type %02X is listed %d times", r.code, len(infos))
			}
			i := infos[0]
			if i.Name != r.name || i.ThreeLetter != r.three || i.Desc != r.desc {
				t.Fail("type %02X is listed as %q %q %q, want %q %q %q", r.code, i.Name, i.ThreeLetter, i.Desc, r.name, r.three, r.desc)
			}
			want := map[string]bool{r.name: true, r.three: r.three != "", r.one: r.one != ""}
			for _, n := range strings.Split(i.NamesString, "|") {
				if !want[n] {
					t.Fail("type %02X is said to be usable as %q", r.code, n)
				}
				want[n] = false
			}
			for n, missing := range want {
				if missing {
					t.Fail("type %02X is not said to be usable as %q (%q)", r.code, n, i.NamesString)
				}
			}
			for _, n := range []string{r.name, r.three, r.one} {
				if n == "" {
					continue
				}
				f, err := types.FiletypeForName(n)
				t.Step()
				if err != nil || int(f) != r.code {
					t.Fail("%q is type %02X, %v; want %02X", n, int(f), err, r.code)
				}
			}
			s := types.Filetype(r.code).String()
			t.Step()
			if !strings.Contains(s, r.desc) || !strings.Contains(s, r.name) {
				t.Fail("type %02X is described as %q", r.code, s)
			}
			t.State(hashInt(1, r.code))
		}, "type %02X %s", r.code, r.name)
	}
	c.Section("lists", "the lists are stable, the short one is the full one without extras, every listed name resolves, names do not repeat")
	c.Case(func(t *T) {
		full := types.FiletypeInfos(true)
		short := types.FiletypeInfos(false)
		t.Steps(2)
		if len(full) != len(rows) {
			t.Fail("%d types listed, want %d", len(full), len(rows))
		}
		k := 0
		used := map[string]types.Filetype{}
		for _, i := range full {
			for _, n := range strings.Split(i.NamesString, "|") {
				if o, ok := used[n]; ok {
					t.Fail("%q is a name of %02X and %02X", n, int(o), int(i.Type))
				}
				used[n] = i.Type
				if f, err := types.FiletypeForName(n); err != nil || f != i.Type {
					t.Fail("%q gives %02X %v", n, int(f), err)
				}
				t.Step()
			}
			if i.Extra {
				continue
			}
			if k >= len(short) || short[k] != i {
				t.Fail("the short list lacks %v at %d", i, k)
			}
			k++
		}
		if k != len(short) {
			t.Fail("the short list has %d types, want %d", len(short), k)
		}
		extra := 0
		for _, i := range full {
			n := i.Name
			must := strings.HasPrefix(n, "SOS") || strings.HasPrefix(n, "ProDOSRes") || strings.HasPrefix(n, "UserDef") || n == "Font" || n == "GraphicsScreen" || strings.HasPrefix(n, "Business") || strings.HasPrefix(n, "RPS")
			if i.Extra != must {
				t.Fail("type %s: extra is %v", n, i.Extra)
			}
			if i.Extra {
				extra++
			}
		}
		again := types.FiletypeInfos(true)
		for i := range full {
			if again[i] != full[i] {
				t.Fail("the list changed")
			}
		}
		t.State(hashInt(2, extra))
	}, "lists")
	for _, all := range []bool{false, true} {
		c.Case(func(t *T) {
			f := cmd.FiletypesCmd{All: all}
			out, err := t.withStdout(nil, func() error { return f.Run(t.globals()) })
			t.Step()
			t.noErr(err, "filetypes")
			lines := strings.Split(strings.TrimRight(string(out), "\n"), "\n")
			infos := types.FiletypeInfos(all)
			if len(lines) < len(infos) {
				t.Fail("%d lines printed for %d types", len(lines), len(infos))
			}
			head := len(lines) - len(infos)
			if head > 3 {
				t.Fail("%d lines printed for %d types", len(lines), len(infos))
			}
			for i, info := range infos {
				got := strings.Join(strings.Fields(lines[head+i]), " ")
				want := strings.Join(strings.Fields(info.Desc+" "+info.Name+" "+info.ThreeLetter+" "+info.OneLetter), " ")
				if got != want {
					t.Fail("printed %q for %q", got, want)
				}
			}
		}, "filetypes command, all %v", all)
	}
	c.Section("unknown codes", "codes -300 to 70000 that are no type say so; none shares another's description")
	c.Case(func(t *T) {
		is := map[int]bool{}
		seen := map[string]int{}
		for _, r := range rows {
			is[r.code] = true
		}
		for k := -300; k < 70000; k++ {
			s := types.Filetype(k).String()
			t.Step()
			if s == "" {
				t.Fail("type %d has an empty description", k)
			}
			if !is[k] {
				for _, r := range rows {
					if r.code < 0x12 && strings.HasPrefix(s, r.desc+" (") {
						t.Fail("code %d is described as %q", k, s)
					}
				}
			}
			if o, ok := seen[s]; ok && (is[k] || is[o]) {
				t.Fail("codes %d and %d are both %q", o, k, s)
			}
			seen[s] = k
		}
		t.State(3)
	}, "codes")
	n := Pick(c, 3, 4)
	c.Section("unknown names", fmt.Sprintf("every string of 1-%d printable characters (of 4: over a reduced set) and every single-character change of every name is refused unless it is a name", n))
	var ab []byte
	for b := byte(32); b < 127; b++ {
		ab = append(ab, b)
	}
	probe := func(t *T, s string) {
		f, err := types.FiletypeForName(s)
		t.Step()
		if code, ok := known[s]; ok {
			if err != nil || int(f) != code {
				t.Fail("%q gives %02X %v", s, int(f), err)
			}
			return
		}
		if code, ok := fold[upper(s)]; ok {
			if err == nil && int(f) != code {
				t.Fail("%q gives %02X", s, int(f))
			}
			return
		}
		if err == nil {
			t.Fail("unknown name %q gives %02X", s, int(f))
		}
	}
	for _, a := range ab {
		c.Case(func(t *T) {
			probe(t, "")
			probe(t, string([]byte{a}))
			for _, b := range ab {
				probe(t, string([]byte{a, b}))
				for _, d := range ab {
					probe(t, string([]byte{a, b, d}))
				}
			}
			if n == 4 && (a >= 'A' && a <= 'Z' || a == '|' || a == ' ') {
				for _, b := range []byte("ABCDIOPRSTWYX |") {
					for _, d := range ab {
						for _, e := range ab {
							probe(t, string([]byte{a, b, d, e}))
						}
					}
				}
			}
			t.State(hashInt(4, int(a)))
		}, "strings starting %q", a)
	}
	for _, r := range rows {
		c.Case(func(t *T) {
			for _, nm := range []string{r.name, r.three, r.one} {
				if nm == "" {
					continue
				}
				for i := 0; i <= len(nm); i++ {
					for _, b := range ab {
						probe(t, nm[:i]+string([]byte{b})+nm[i:])
						if i < len(nm) {
							probe(t, nm[:i]+string([]byte{b})+nm[i+1:])
						}
					}
					probe(t, nm[:i])
					probe(t, nm[i:])
				}
				probe(t, "Filetype"+nm)
				probe(t, nm+"\x00")
				probe(t, r.desc)
				probe(t, fmt.Sprintf("%02X", r.code))
			}
			t.State(hashInt(5, r.code))
		}, "changes of %s", r.name)
	}
}
