seed("C01-ext-case", "C01", [("disk/open.go", '''	ext := strings.ToLower(path.Ext(filename))
	switch ext {
	case ".dsk", ".do":''', '''	ext := path.Ext(filename)
	switch ext {
	case ".dsk", ".do":''')],
 "a reorder whose order has to be guessed from an upper-case extension (GAME.DSK or GAME.PO)",
 "the order implied by the file name is not recognised, so reorder refuses instead of converting",
 '''
func main() {
	in := make([]byte, 143360)
	for i := range in {
		in[i] = byte(i / 256)
	}
	must(os.WriteFile("GAME.DSK", in, 0o644))
	if out, err := exec.Command(os.Args[1], "reorder", "GAME.DSK", "GAME.PO").CombinedOutput(); err != nil {
		bad("reorder GAME.DSK GAME.PO: %v %s", err, out)
	}
	out, err := os.ReadFile("GAME.PO")
	must(err)
	if out[256] != 14 {
		bad("wrong order: sector 1 is %d", out[256])
	}
}''', ['"os/exec"'])

seed("C02-hdv-limit", "C02", [("disk/open.go", "if size/512 > 65536 {", "if size/512 >= 65536 {")],
 "an .hdv image of exactly 32 MiB, the largest supported size",
 "the largest supported device is refused",
 '''
func main() {
	_, order, err := disk.OpenImage(make([]byte, 65536*512), "big.hdv", "auto", "auto", []types.OperatorFactory{prodos.OperatorFactory{}}, 0)
	if err != nil || order != "po" {
		bad("32 MiB .hdv: %v %v", order, err)
	}
}''', ['"github.com/zellyn/diskii/disk"', '"github.com/zellyn/diskii/prodos"', '"github.com/zellyn/diskii/types"'])

seed("C02-writeback-shortcut", "C02", [("disk/open.go", '''	// Go from logical sectors for the operator back to physical sectors.
''', '''	// Nothing to do if the file is already in floppy order.
	if op.DiskOrder() != types.DiskOrderRaw && diskFileOrder == types.DiskOrderDO {
		return helpers.WriteOutput(filename, logicalBytes, overwrite)
	}

	// Go from logical sectors for the operator back to physical sectors.
''')],
 "writing a ProDOS-system disk back to a file in DOS order (two conditions that each look fine alone)",
 "the image is written in the system's own order instead of the file's order",
 '''
func main() {
	in := make([]byte, 143360)
	for i := range in {
		in[i] = byte(i / 256)
	}
	op, order, err := disk.OpenImage(append([]byte(nil), in...), "x.do", "auto", "prodos", []types.OperatorFactory{prodos.OperatorFactory{}}, 0)
	must(err)
	must(disk.WriteBack("y.do", op, order, true))
	out, err := os.ReadFile("y.do")
	must(err)
	if !bytes.Equal(in, out) {
		bad("writing the unmodified disk back changed the file")
	}
}''', ['"bytes"', '"github.com/zellyn/diskii/disk"', '"github.com/zellyn/diskii/prodos"', '"github.com/zellyn/diskii/types"'])

seed("C03-reserved-0b", "C03", [("supermon/supermon.go", "for sector := byte(0); sector <= 0xB; sector++ {", "for sector := byte(0); sector < 0xB; sector++ {")],
 "a disk whose sector map has all reserved entries except the last (sector 0B)",
 "an image without the reserved entries is reported as NakedOS",
 '''
func main() {
	b := naked(false)
	b[9*256+0xD0+11] = 5
	if (supermon.OperatorFactory{}).SeemsToMatch(b, 0) {
		bad("reported as NakedOS although sector 0B is not reserved")
	}
	must((func() error { open(naked(false)); return nil })())
}''', libs=["naked"])

seed("C03-free-map-tail", "C03", [("dos3/dos3.go", "	for i, tf := range v.FreeSectors {\n		if !tf", "	for i, tf := range v.FreeSectors[:v.NumTracks] {\n		if !tf")],
 "an image whose volume table is damaged only behind the map of the last track",
 "an image with an invalid DOS volume table is reported as DOS 3.3",
 '''
func main() {
	b := dos()
	if !(dos3.OperatorFactory{}).SeemsToMatch(b, 0) {
		bad("a valid disk is not recognised")
	}
	b[17*4096+0x38+4*40+2] = 7
	if (dos3.OperatorFactory{}).SeemsToMatch(b, 0) {
		bad("recognised in spite of its invalid volume table")
	}
}''', libs=["dos"])

seed("C04-last-file-number", "C04", [("supermon/supermon.go", "for file := byte(0x01); file < 0xfe; file++ {", "for file := byte(0x01); file < 0xfd; file++ {")],
 "a put under a fresh name when every file number but FD is in use",
 "the put is refused although a file number and space are free",
 '''
func main() {
	op := open(naked(true))
	for f := 1; f < 0xFD; f++ {
		if f == 3 || f == 4 {
			continue
		}
		_, err := put(op, fmt.Sprintf("DF%02X", f), []byte{byte(f)}, false)
		must(err)
	}
	if _, err := put(op, "LAST", []byte{1}, false); err != nil {
		bad("file number FD is free, but: %v", err)
	}
	fi, err := op.GetFile("DFFD")
	must(err)
	if fi.Data[0] != 1 {
		bad("wrong contents")
	}
}''', libs=["naked", "put"])

seed("C04-exists-vs-space", "C04", [("supermon/supermon.go", '''	free := sm.FreeSectors() + existing
''', '''	free := sm.FreeSectors()
	if overwrite {
		free += existing
	}
''')],
 "a put without overwrite to an existing file on an almost full disk, of a size that only fits if the old file goes",
 "the put is refused as out-of-space instead of file-exists",
 '''
func main() {
	op := open(naked(false))
	_, err := put(op, "5", make([]byte, 256*540), false)
	must(err)
	if _, err := put(op, "5", make([]byte, 256*100), false); !errors.IsFileExists(err) {
		bad("want file exists, got %v", err)
	}
}''', ['"github.com/zellyn/diskii/errors"'], libs=["naked", "put"])

seed("C05-map-sector", "C05", [("supermon/supermon.go", '''	sector09, err := disk.ReadSector(diskbytes, 0, 9)
	if err != nil {
		return err
	}
	copy(sector09[0xd0:], sm[0:0x30])
''', '''	sector09 := make([]byte, 256)
	copy(sector09[0xd0:], sm[0:0x30])
''')],
 "a disk that keeps code in front of the sector map in its reserved sector 9 (as real NakedOS disks do)",
 "any put or delete zeroes 208 bytes of a reserved sector",
 '''
func main() {
	b := naked(true)
	for i := 0; i < 0xD0; i++ {
		b[9*256+i] = byte(i) + 1
	}
	op := open(b)
	_, err := put(op, "5", []byte{1, 2, 3}, false)
	must(err)
	for i := 0; i < 0xD0; i++ {
		if op.GetBytes()[9*256+i] != byte(i)+1 {
			bad("byte %02X of reserved sector 9 changed", i)
		}
	}
}''', libs=["naked", "put"])

seed("C06-middle-of-chain", "C06", [("supermon/supermon.go", "st[j].Link = sym.Link\n", "st[j].Link = -1\n")],
 "three symbols with equal hash, deleting the middle one",
 "the rest of the chain is cut off",
 '''
func main() {
	st := make(supermon.SymbolTable, 819)
	must(st.AddSymbol("AAA", 0x1001))
	must(st.AddSymbol("BBB", 0x1001))
	must(st.AddSymbol("CCC", 0x1001))
	st.DeleteSymbol("BBB")
	if st[0].Link != 2 || st[2].Link != -1 {
		bad("links after deleting BBB: %v", st[:3])
	}
}''', ['"github.com/zellyn/diskii/supermon"'])

seed("C06-link-to-slot-0", "C06", [("supermon/supermon.go", "		if linkAddr != 0 {\n", "		if linkAddr > 0xD000 {\n")],
 "a chain whose next symbol is in slot 0 (the slot was freed and reused), then writing and reading the table",
 "the link to slot 0 is lost when the table is read",
 '''
func main() {
	op := open(naked(true))
	must(op.ST.AddSymbol("OLD", 0x2000))
	must(op.ST.AddSymbol("AAA", 0x1001))
	op.ST.DeleteSymbol("OLD")
	must(op.ST.AddSymbol("BBB", 0x1101))
	must(op.ST.AddSymbol("BBB", 0x1001))
	if op.ST[1].Link != 0 {
		bad("unexpected table %v", op.ST[:3])
	}
	must(op.SM.WriteSymbolTable(op.GetBytes(), op.ST))
	st, err := op.SM.ReadSymbolTable(op.GetBytes())
	must(err)
	if st[1].Link != 0 {
		bad("link of AAA became %d", st[1].Link)
	}
}''', libs=["naked"])

seed("C07-top-bit", "C07", [("supermon/supermon.go", "		extra := symtbl1[i+4]\n", "		extra := symtbl1[i+4] & 0x7F\n")],
 "a name that uses all 48 bits and ends in a digit from 5 to 9 (such as ABCDEF129)",
 "the last digit reads back as a different one",
 '''
func main() {
	op := open(naked(true))
	_, err := put(op, "ABCDEF129", []byte{1}, false)
	must(err)
	if open(op.GetBytes()).ST.ByName("ABCDEF129") == 0 {
		bad("after reopening the symbol is gone: %v", open(op.GetBytes()).ST[0])
	}
}''', libs=["naked", "put"])

seed("C08-dffe", "C08", [("supermon/supermon.go", "if addr > 0xDF00 && addr < 0xDFFE {\n			return byte(addr - 0xDF00)", "if addr > 0xDF00 && addr <= 0xDFFE {\n			return byte(addr - 0xDF00)")],
 "the file name DFFE, one past the last file number",
 "the name of no file resolves to the reserved sectors, which can then be read and deleted",
 '''
func main() {
	op := open(naked(true))
	if fi, err := op.GetFile("DFFE"); err == nil {
		bad("DFFE has %d bytes", len(fi.Data))
	}
}''', libs=["naked"])

seed("C08-hex-symbol", "C08", [("supermon/supermon.go", '''		// If there's a symbol by that name, use it.
		if addr := st.ByName(name); addr != 0 {
			return 0, addr, name, nil
		}
		// If we can parse it as an address, do so.
		if addr, err := strconv.ParseUint(name, 16, 16); err == nil {
			return uint16(addr), 0, "", nil
		}
''', '''		// If we can parse it as an address, do so.
		if addr, err := strconv.ParseUint(name, 16, 16); err == nil {
			return uint16(addr), 0, "", nil
		}
		// If there's a symbol by that name, use it.
		if addr := st.ByName(name); addr != 0 {
			return 0, addr, name, nil
		}
''')],
 "a known symbol whose name also reads as a hexadecimal number (FACE, ADD, C0DE)",
 "the symbol is taken for an address",
 '''
func main() {
	st := make(supermon.SymbolTable, 819)
	must(st.AddSymbol("FACE", 0x1234))
	addr, sym, name, err := st.ParseCompoundSymbol("FACE")
	must(err)
	if addr != 0 || sym != 0x1234 || name != "FACE" {
		bad("FACE: %04X %04X %q", addr, sym, name)
	}
}''', ['"github.com/zellyn/diskii/supermon"'])

seed("C09-size-low-byte", "C09", [("dos3/dos3.go", "Sectors: int(fd.SectorCount),", "Sectors: int(fd.SectorCount & 0xFF), // as CATALOG shows it")],
 "a catalog entry of 256 or more sectors",
 "the listing shows the low byte of the size only",
 '''
func main() {
	b := dos()
	entry(sector(b, 17, 15), 0, 18, 0, 4, "BIG", 300)
	op, err := dos3.OperatorFactory{}.Operator(b, 0)
	must(err)
	d, err := op.Catalog("")
	must(err)
	if len(d) != 1 || d[0].Sectors != 300 {
		bad("listing: %+v", d)
	}
}''', libs=["dos"])

seed("C09-long-catalog", "C09", [("dos3/dos3.go", "		css = append(css, cs)\n", "		css = append(css, cs)\n		if len(css) == 15 { // the whole catalog track\n			break\n		}\n")],
 "a catalog chain longer than one track (more than 15 sectors)",
 "files in the later catalog sectors are not listed",
 '''
func main() {
	b := dos()
	for i := 0; i < 20; i++ {
		t, s := 17, 15-i
		if i >= 15 {
			t, s = 18, i-15
		}
		c := sector(b, t, s)
		entry(c, 0, 20, byte(i%16), 4, fmt.Sprintf("F%d", i), 2)
		nt, ns := 17, 14-i
		if i >= 14 {
			nt, ns = 18, i-14
		}
		if i == 19 {
			nt, ns = 0, 0
		}
		c[1], c[2] = byte(nt), byte(ns)
	}
	op, err := dos3.OperatorFactory{}.Operator(b, 0)
	must(err)
	d, err := op.Catalog("")
	must(err)
	if len(d) != 20 {
		bad("%d files listed, want 20", len(d))
	}
}''', libs=["dos"])

seed("C10-text-zeros", "C10", [("dos3/dos3.go", '''		for len(data) > 0 && data[len(data)-1] == 0 {
			data = data[:len(data)-1]
		}
''', '''		for i, ch := range data {
			if ch == 0 {
				data = data[:i]
				break
			}
		}
''')],
 "a text file with zero bytes inside (a random-access file)",
 "the text after the first zero byte is lost",
 '''
func main() {
	b := dos()
	entry(sector(b, 17, 15), 0, 18, 0, 0, "RANDOM", 2)
	sector(b, 18, 0)[12], sector(b, 18, 0)[13] = 18, 1
	sector(b, 18, 1)[0], sector(b, 18, 1)[100] = 'A', 'B'
	op, err := dos3.OperatorFactory{}.Operator(b, 0)
	must(err)
	fi, err := op.GetFile("RANDOM")
	must(err)
	if len(fi.Data) != 101 || fi.Data[100] != 'B' {
		bad("got %d bytes", len(fi.Data))
	}
}''', libs=["dos"])

seed("C10-length-wrap", "C10", [("dos3/dos3.go", "		data = data[2 : length+2]\n", "		end := uint16(length) + 2\n		data = data[2:end]\n")],
 "a file whose stored length is 65534 or 65535",
 "the 16-bit end of the data wraps around and getting the file crashes",
 '''
func main() {
	b := dos()
	entry(sector(b, 17, 15), 0, 20, 0, 2, "HUGE", 260)
	n := 0
	for l := 0; l < 3; l++ {
		tsl := sector(b, 20, l)
		if l < 2 {
			tsl[1], tsl[2] = 20, byte(l+1)
		}
		for j := 0; j < 122 && n < 257; j++ {
			tsl[12+2*j], tsl[13+2*j] = byte(1+n/16), byte(n%16)
			if n/16+1 >= 17 {
				tsl[12+2*j] = byte(n/16 + 10)
			}
			n++
		}
	}
	sector(b, 1, 0)[0], sector(b, 1, 0)[1] = 0xFE, 0xFF
	op, err := dos3.OperatorFactory{}.Operator(b, 0)
	must(err)
	defer func() {
		if r := recover(); r != nil {
			bad("panic: %v", r)
		}
	}()
	fi, err := op.GetFile("HUGE")
	must(err)
	if len(fi.Data) != 65534 {
		bad("got %d bytes", len(fi.Data))
	}
}''', libs=["dos"])
