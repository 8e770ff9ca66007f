seed("C01-order-sum", "C01", [("disk/open.go", '''	seen := make(map[int]bool)
	for i, mapping''', '''	sum := 0
	for i, mapping'''), ("disk/open.go", '''		if seen[mapping] {
			return fmt.Errorf("mapping %d:%d is a repeat: %v", i, mapping, order)
		}
		seen[mapping] = true
	}
''', '''		sum += mapping
	}
	if sum != FloppySectors*(FloppySectors-1)/2 {
		return fmt.Errorf("mapping has repeats: %v", order)
	}
''')],
 "an ordering with two repeats that cancel out in the sum, such as 1,1 in place of 0,2",
 "an ordering that is no permutation is accepted and sectors are lost",
 '''
func main() {
	if _, err := disk.Swizzle(make([]byte, 143360), []int{1, 1, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}); err != nil {
		if _, err := disk.Swizzle(make([]byte, 143360), []int{3, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 10, 14, 15}); err == nil {
			bad("a mapping with repeats was accepted")
		}
		return
	}
	bad("a mapping with repeats was accepted")
}''', ['"github.com/zellyn/diskii/disk"'])

seed("C02-ext-dir", "C02", [("disk/open.go", '''	ext := strings.ToLower(path.Ext(filename))
	size := len(filebytes)''', '''	ext := strings.ToLower(filename)
	if i := strings.LastIndex(ext, "."); i > 0 {
		ext = ext[i:]
	} else {
		ext = ""
	}
	size := len(filebytes)''')],
 "an image without extension inside a directory whose name has a dot",
 "the image is refused: the rest of the path is taken for an extension",
 '''
func main() {
	must(os.MkdirAll("disks.d", 0o755))
	in := make([]byte, 143360)
	must(os.WriteFile("disks.d/game", in, 0o644))
	_, order, err := disk.OpenFilename("disks.d/game", "auto", "prodos", []types.OperatorFactory{prodos.OperatorFactory{}}, 0)
	_, order2, err2 := disk.OpenImage(in, "game", "auto", "prodos", []types.OperatorFactory{prodos.OperatorFactory{}}, 0)
	if (err == nil) != (err2 == nil) || order != order2 {
		bad("disks.d/game: %v %v", order, err)
	}
	v, _ := dos3.DefaultVTOC().ToSector()
	copy(in[17*4096:], v)
	must(os.WriteFile("disks.d/game", in, 0o644))
	_, order, err = disk.OpenFilename("disks.d/game", "auto", "dos3", []types.OperatorFactory{dos3.OperatorFactory{}}, 0)
	if err != nil || order != "do" {
		bad("disks.d/game: %v %v", order, err)
	}
}''', ['"github.com/zellyn/diskii/disk"', '"github.com/zellyn/diskii/dos3"', '"github.com/zellyn/diskii/prodos"', '"github.com/zellyn/diskii/types"'])

seed("C04-repoint", "C04", [("supermon/supermon.go", 'if namedFile != numFile && symbol != "" {', 'if namedFile == 0 && symbol != "" {')],
 "a put as NUMBER:NAME where the name already belongs to another file",
 "the symbol keeps pointing at the old file, so getting by name returns other bytes than were put",
 '''
func main() {
	op := open(naked(true))
	if _, err := put(op, "DF07:FILE", []byte{1}, false); err != nil {
		bad("%v", err)
	}
	if _, err := put(op, "DF08:FILE", []byte{2}, false); err != nil {
		bad("%v", err)
	}
	fi, err := op.GetFile("FILE")
	must(err)
	if fi.Data[0] != 2 {
		bad("FILE holds %d", fi.Data[0])
	}
}''', libs=["naked", "put"])

seed("C05-append", "C05", [("supermon/supermon.go", '''		sm.Delete(file)
	}

	i := 0''', '''		if sectorsNeeded <= sm.FreeSectors() {
			defer sm.trim(diskbytes, file, sm.SectorsForFile(file))
		} else {
			sm.Delete(file)
		}
	}

	i := 0'''), ("supermon/supermon.go", '''// WriteFile writes the contents of a file.''', '''// trim releases the sectors a file had before it was written anew.
func (sm SectorMap) trim(diskbytes []byte, file byte, old []disk.TrackSector) {
	for _, ts := range old {
		sm[int(ts.Track)*16+int(ts.Sector)] = FileFree
	}
}

// WriteFile writes the contents of a file.''')],
 "overwriting a file while the new contents fit beside the old ones, then looking at the image on disk",
 "the old sectors are released in memory only: the sector map on disk still gives them to the file",
 '''
func main() {
	op := open(naked(false))
	if _, err := put(op, "DF06", make([]byte, 600), false); err != nil {
		bad("%v", err)
	}
	if _, err := put(op, "DF06", make([]byte, 700), true); err != nil {
		bad("%v", err)
	}
	if n := len(op.SM.SectorsForFile(6)); n != 3 {
		bad("file 6 owns %d sectors", n)
	}
	if n := len(open(op.GetBytes()).SM.SectorsForFile(6)); n != 3 {
		bad("on disk, file 6 owns %d sectors", n)
	}
}''', libs=["naked", "put"])

seed("C06-stale-link", "C06", [("supermon/supermon.go", '''	st[pos].Name = name
	st[pos].Address = address
	st[pos].Link = -1
''', '''	st[pos].Name = name
	st[pos].Address = address
''')],
 "adding a symbol into the slot of one that was deleted from the middle of a chain",
 "the new symbol inherits the old one's link into a chain of another hash, and the table cannot be read back",
 '''
func main() {
	st := make(supermon.SymbolTable, 819)
	for i := range st {
		st[i].Link = -1
	}
	must(st.AddSymbol("AAA", 0xDF05))
	must(st.AddSymbol("BBB", 0xDE04))
	st.DeleteSymbol("AAA")
	must(st.AddSymbol("CCC", 0xDF09))
	for _, s := range st {
		if s.Name == "CCC" && s.Link != -1 {
			bad("CCC links to %d", s.Link)
		}
	}
}''', ['"github.com/zellyn/diskii/supermon"'])

seed("C09-deleted-name", "C09", [("dos3/dos3.go", "	case 0xff:\n		return FileDescStatusDeleted", "	case 0xff, 0xfe:\n		return FileDescStatusDeleted"), ("dos3/dos3.go", "	if fd.Status() == FileDescStatusDeleted {\n", "	if fd.Status() == FileDescStatusDeleted && fd.TrackSectorListTrack == 0xff {\n")],
 "a catalog entry whose list track is FE",
 "the live entry is not listed",
 '''
func main() {
	b := dos()
	entry(sector(b, 17, 15), 2, 0xFE, 1, 4, "ODD", 2)
	files, deleted, err := dos3.ReadCatalog(b, 0)
	must(err)
	if len(files) != 1 || len(deleted) != 0 {
		bad("%d files and %d deleted", len(files), len(deleted))
	}
}''', libs=["dos"])

seed("C10-hole-reuse", "C10", [("dos3/dos3.go", '''			if ts.Track == 0 && ts.Sector == 0 {
				for k := 0; k < 256; k++ {
					data = append(data, 0)
				}''', '''			if ts.Track == 0 && ts.Sector == 0 {
				// The buffer comes zeroed.
				data = data[:len(data)+256]'''), ("dos3/dos3.go", "	data := make([]byte, 0, 256*122*len(tsls))\n", "	data := append([]byte(nil), diskbytes...)[:0]\n")],
 "a file with a hole in its track/sector list; the two changes look harmless alone",
 "holes read as other parts of the disk instead of zeros",
 '''
func main() {
	b := dos()
	entry(sector(b, 17, 15), 0, 18, 15, 0, "T", 4)
	l := sector(b, 18, 15)
	l[0x0C], l[0x0D] = 18, 14
	l[0x10], l[0x11] = 18, 13
	for i := range sector(b, 18, 14) {
		sector(b, 18, 14)[i], sector(b, 18, 13)[i] = 1, 2
	}
	b[256] = 7
	op, err := dos3.OperatorFactory{}.Operator(b, 0)
	must(err)
	fi, err := op.GetFile("T")
	must(err)
	for i, x := range fi.Data {
		if want := []byte{1, 0, 2}[i/256]; x != want {
			bad("byte %d is %d, want %d", i, x, want)
		}
	}
}''', libs=["dos"])

seed("C12-parent-entry", "C12", [("prodos/prodos.go", "	buf[0x25] = sh.ParentEntry\n	buf[0x26] = sh.ParentEntryLength\n", "	buf[0x25] = sh.ParentEntryLength\n	buf[0x26] = sh.ParentEntry\n"),
  ("prodos/prodos.go", "	sh.ParentEntry = buf[0x25]\n	sh.ParentEntryLength = buf[0x26]\n", "	sh.ParentEntry = buf[0x26]\n	sh.ParentEntryLength = buf[0x25]\n")],
 "a subdirectory header decoded by itself; the two changes cancel out in a round trip",
 "the entry number and the entry length of the parent are read from each other's place",
 '''
func main() {
	var b disk.Block
	b[4+0x25], b[4+0x26] = 7, 0x27
	skb := prodos.SubdirectoryKeyBlock{}
	must(skb.FromBlock(b))
	if skb.Header.ParentEntry != 7 || skb.Header.ParentEntryLength != 0x27 {
		bad("entry %d length %d", skb.Header.ParentEntry, skb.Header.ParentEntryLength)
	}
}''', ['"github.com/zellyn/diskii/disk"', '"github.com/zellyn/diskii/prodos"'])

seed("C26-direction", "C26", [("dos3/dos3.go", "	if v.TrackDirection != 1 && v.TrackDirection != -1 {", "	if v.TrackDirection*v.TrackDirection != 1 {")],
 "a track direction of 7F or 81, whose square is 1 in eight bits",
 "a volume table with an invalid direction is called valid",
 '''
func main() {
	v := dos3.DefaultVTOC()
	v.TrackDirection = 127
	if v.Validate() == nil {
		bad("direction 127 is valid")
	}
}''', ['"github.com/zellyn/diskii/dos3"'])

seed("C26-undated", "C26", [("prodos/prodos.go", '''	errors = append(errors, fd.LastMod.Validate(fmt''', '''	if fd.LastMod.YMD == [2]byte{} && fd.Creation.YMD != [2]byte{} {
		return errors // never modified
	}
	errors = append(errors, fd.LastMod.Validate(fmt''')],
 "a file entry with a creation date, no modification date and an invalid modification time",
 "the invalid time is not reported",
 '''
func main() {
	vdb := prodos.VolumeDirectoryBlock{}
	vdb.Descriptors[12].Creation.YMD[1] = 1
	vdb.Descriptors[12].LastMod.HM = [2]byte{99, 99}
	if len(vdb.Validate()) == 0 {
		bad("an hour of 99 is valid")
	}
}''', ['"github.com/zellyn/diskii/prodos"'])

seed("C26-last-byte", "C26", [("prodos/prodos.go", '''	for _, desc := range skb.Descriptors {
		errors = append(errors, desc.Validate()...)
	}
	if skb.Extra != 0 {''', '''	for _, desc := range skb.Descriptors {
		errors = append(errors, desc.Validate()...)
	}
	if skb.Extra != 0 && len(errors) == 0 && skb.Next == 0 {''')],
 "a subdirectory key block with more blocks after it and a last byte that is not zero",
 "the fault is not reported",
 '''
func main() {
	skb := prodos.SubdirectoryKeyBlock{Next: 9, Extra: 1}
	skb.Header.SeventyFive = 0x75
	if len(skb.Validate()) == 0 {
		bad("a last byte of 1 is valid")
	}
}''', ['"github.com/zellyn/diskii/prodos"'])

seed("C27-negative", "C27", [("main.go", "	n, err := strconv.ParseUint(sv, 0, 16)\n	if err != nil {", "	n, err := strconv.ParseInt(sv, 0, 32)\n	if err != nil || n > 0xFFFF {"), ("main.go", "	target.SetUint(n)", "	target.SetUint(uint64(n))")],
 "a negative number given to an address flag",
 "-1 is taken as FFFF instead of being refused",
 '''
func main() {
	must(os.WriteFile("prog", make([]byte, 300), 0o644))
	if err := exec.Command(os.Args[1], "mksd", "--address=-0x6000", "new.dsk", "prog").Run(); err == nil {
		bad("--address=-0x6000 was accepted")
	}
}''', ['"os/exec"'])

seed("C27-decimal-start", "C27", [("cmd/sd.go", '''	Start   uint16 `kong:"type='anybaseuint16',default='0xFFFF',''', '''	Start   uint16 `kong:"default='65535',''')],
 "mksd with a --start that is not written in decimal",
 "the start address is no longer understood in hexadecimal",
 '''
func main() {
	must(os.WriteFile("prog", make([]byte, 300), 0o644))
	if out, err := exec.Command(os.Args[1], "mksd", "--address", "0x2000", "--start", "0x2100", "new.dsk", "prog").CombinedOutput(); err != nil {
		bad("--start 0x2100: %v %s", err, out)
	}
}''', ['"os/exec"'])

seed("C27-rm-alias", "C27", [("main.go", '''`cmd:"" aliases:"delete" help:"Delete a file."`''', '''`cmd:"" aliases:"del,erase" help:"Delete a file."`''')],
 "the documented alias delete of rm",
 "the alias is no longer understood",
 '''
func main() {
	out, err := exec.Command(os.Args[1], "delete", "--help").CombinedOutput()
	if err != nil {
		bad("delete: %v %s", err, out)
	}
}''', ['"os/exec"'])
