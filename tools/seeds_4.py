seed("C28-last-extension", "C28", [("disk/open.go", '''	ext := strings.ToLower(path.Ext(filename))
	size := len(filebytes)''', '''	ext := strings.ToLower(path.Ext(filename))
	if ext == "" {
		ext = lastExt // standard input, most likely: keep to what was used before
	}
	lastExt = ext
	size := len(filebytes)'''), ("disk/open.go", '''func openHDV(''', '''// lastExt is the extension of the image opened last.
var lastExt string

func openHDV(''')],
 "an image without extension opened after one with extension .po in the same process",
 "the second image is read in the order of the first, so the answer depends on what was asked before",
 '''
func main() {
	f := []types.OperatorFactory{supermon.OperatorFactory{}}
	raw := naked(false)
	raw[100*256] = 7
	img, err := disk.Swizzle(raw, disk.PhysicalToLogicalByName["do"])
	must(err)
	_, first, err := disk.OpenImage(img, "game", "auto", "nakedos", f, 0)
	must(err)
	po, err := disk.Swizzle(raw, disk.PhysicalToLogicalByName["po"])
	must(err)
	_, _, err = disk.OpenImage(po, "other.po", "auto", "nakedos", f, 0)
	must(err)
	_, second, err := disk.OpenImage(img, "game", "auto", "nakedos", f, 0)
	if err != nil || first != second {
		bad("first %v, then %v %v", first, second, err)
	}
}''', ['"github.com/zellyn/diskii/disk"', '"github.com/zellyn/diskii/types"'], ["naked"])

seed("C28-random-alias", "C28", [("supermon/supermon.go", '''	symbols := st.SymbolsForAddress(0xDF00 + uint16(file))
	if len(symbols) > 0 {
		return symbols[0].Name
	}''', '''	names := map[string]Symbol{}
	for _, symbol := range st.SymbolsForAddress(0xDF00 + uint16(file)) {
		names[symbol.Name] = symbol
	}
	for name := range names {
		return name
	}''')],
 "a file with two symbols, listed more than once",
 "the short name a file is listed under changes from call to call",
 '''
func main() {
	op := open(naked(true))
	must(op.ST.AddSymbol("AAA", 0xDF05))
	must(op.ST.AddSymbol("BBB", 0xDF05))
	_, err := put(op, "5", []byte{1}, false)
	must(err)
	for i := 0; i < 300; i++ {
		l, err := op.Catalog("")
		must(err)
		for _, d := range l {
			if d.Fullname[:4] == "DF05" && d.Fullname != "DF05:"+d.Name {
				bad("listing %d shows %s as %s", i, d.Fullname, d.Name)
			}
		}
	}
}''', [], ["naked", "put"])

seed("C28-shared-table", "C28", [("supermon/supermon.go", '''	table := make(SymbolTable, 0, 819)
''', '''	table := tableBuf[:0]
'''), ("supermon/supermon.go", '''// WriteSymbolTable writes''', '''// tableBuf saves allocating a table for every disk.
var tableBuf = make(SymbolTable, 0, 819)

// WriteSymbolTable writes''')],
 "two NakedOS disks with symbol tables open at the same time",
 "both share one symbol table, so opening the second changes the names on the first",
 '''
func main() {
	a, b := naked(true), naked(true)
	op := open(a)
	_, err := put(op, "5:AAA", []byte{1}, false)
	must(err)
	op = open(a)
	open(b)
	if _, err := op.GetFile("AAA"); err != nil {
		bad("opening another disk changed this one: %v", err)
	}
}''', [], ["naked", "put"])

seed("C29-dos-delete-missing", "C29", [("dos3/dos3.go", '''	return false, fmt.Errorf("%s does not implement Delete yet", operatorName)''', '''	if _, err := o.fileForFilename(filename); err != nil {
		return false, nil // nothing to delete
	}
	return false, fmt.Errorf("%s does not implement Delete yet", operatorName)''')],
 "rm -f of a missing file on a DOS 3.3 disk",
 "the unsupported command reports success",
 '''
func main() {
	must(os.WriteFile("x.do", dos(), 0o644))
	for _, f := range [][]string{{"rm", "x.do", "NOSUCH"}, {"rm", "-f", "x.do", "NOSUCH"}} {
		if err := exec.Command(os.Args[1], f...).Run(); err == nil {
			bad("%v succeeded on a DOS 3.3 disk", f)
		}
	}
}''', ['"os/exec"'], ["dos"])

seed("C29-relocatable", "C29", [("dos3/dos3.go", '''	case FiletypeRelocatable: // RELOCATABLE object module file
		errType = "REL"''', '''	case FiletypeRelocatable: // RELOCATABLE object module file
		if !desc.Locked {
			errType = "REL"
			break
		}
		fi.Descriptor.Length = len(data)
		return fi, nil''')],
 "dump of a locked relocatable file on a DOS 3.3 disk",
 "contents of a file type that cannot be read are returned instead of an error",
 '''
func main() {
	b := dos()
	entry(sector(b, 17, 15), 0, 18, 15, 0x90, "MODULE", 2)
	l := sector(b, 18, 15)
	l[12], l[13] = 18, 14
	op, err := dos3.OperatorFactory{}.Operator(b, 0)
	must(err)
	if fi, err := op.GetFile("MODULE"); err == nil {
		bad("read %d bytes of a relocatable module", len(fi.Data))
	}
}''', [], ["dos"])

seed("C29-ls-short-dir", "C29", [("cmd/catalog.go", '''	if l.Directory != "" {
		if !op.HasSubdirs() {''', '''	if l.Directory != "" {
		if !op.HasSubdirs() && op.Name() == "dos3" {''')],
 "ls of a directory on a NakedOS disk",
 "the whole disk is listed as if it were the directory, instead of an error",
 '''
func main() {
	raw := naked(false)
	img, err := disk.Swizzle(raw, disk.PhysicalToLogicalByName["do"])
	must(err)
	_ = supermon.FileFree
	must(os.WriteFile("x.dsk", img, 0o644))
	must(exec.Command(os.Args[1], "ls", "x.dsk").Run())
	if err := exec.Command(os.Args[1], "ls", "x.dsk", "GAMES").Run(); err == nil {
		bad("listed a directory of a NakedOS disk")
	}
}''', ['"os/exec"', '"github.com/zellyn/diskii/disk"'], ["naked"])
