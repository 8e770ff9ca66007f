seed("C30-block-map-stdout", "C30", [("prodos/prodos.go", '''			if debug > 1 {
				fmt.Fprintf(os.Stderr, "  firstSubdirBlocks[%d] → %d\\n", block.block, sdd.KeyPointer)''', '''			if debug > 1 {
				fmt.Printf("  firstSubdirBlocks[%d] → %d\\n", block.block, sdd.KeyPointer)''')],
 "ls -v -v of a ProDOS disk with a subdirectory of more than one block",
 "a diagnostic line is mixed into the listing on standard output",
 '''
func main() {
	b := pro()
	file(block(b, 2), 1, 1, "ALPHA", 4, 20, 3)
	file(block(b, 2), 2, 13, "SUB", 15, 10, 1024)
	sub(block(b, 10), "SUB", 2, 3, 11)
	file(block(b, 11), 0, 1, "INNER", 4, 21, 3)
	_, err := list(b, "SUB")
	must(err)
	must(os.WriteFile("x.po", b, 0o644))
	want, err := exec.Command(os.Args[1], "ls", "x.po").Output()
	must(err)
	got, err := exec.Command(os.Args[1], "-vv", "ls", "x.po").Output()
	must(err)
	if string(got) != string(want) {
		bad("with -vv ls prints %q, without %q", got, want)
	}
}''', ['"os/exec"'], ["pro"])

seed("C30-strict-debug", "C30", [("dos3/dos3.go", '''		if nextTrack >= v.NumTracks {
			return nil, fmt.Errorf("catalog sectors can't be in track''', '''		if nextTrack >= v.NumTracks || (debug > 0 && nextTrack != v.CatalogTrack) {
			return nil, fmt.Errorf("catalog sectors can't be in track''')],
 "ls -v of a DOS 3.3 disk whose catalog goes on to another track",
 "a disk that lists without -v is refused with it",
 '''
func main() {
	b := dos()
	c := sector(b, 17, 15)
	c[1], c[2] = 20, 3
	entry(c, 0, 18, 15, 0x04, "FIRST", 2)
	entry(sector(b, 20, 3), 0, 19, 15, 0x04, "SECOND", 2)
	must(os.WriteFile("x.do", b, 0o644))
	want, err := exec.Command(os.Args[1], "ls", "x.do").Output()
	must(err)
	got, err := exec.Command(os.Args[1], "-v", "ls", "x.do").Output()
	must(err)
	if string(got) != string(want) {
		bad("with -v ls prints %q, without %q", got, want)
	}
}''', ['"os/exec"'], ["dos"])

seed("C30-error-stdout", "C30", [("main.go", '''		fmt.Fprintf(os.Stderr, "Error: %v\\n", err)''', '''		fmt.Printf("Error: %v\\n", err)''')],
 "a failing command whose standard output is kept, as with dump",
 "the error message ends up in the saved output and standard error says nothing",
 '''
func main() {
	must(os.WriteFile("x.do", dos(), 0o644))
	out, err := exec.Command(os.Args[1], "dump", "x.do", "NOSUCH").Output()
	if err == nil || len(out) != 0 {
		bad("a failing dump printed %q (%v)", out, err)
	}
}''', ['"os/exec"'], ["dos"])

seed("C31-hello-order", "C31", [("cmd/nakedos.go", '''	return disk.WriteBack(m.DiskImage, op, order, true)''', '''	return disk.WriteBack(m.DiskImage, op, disk.OrderFromFilename(m.DiskImage, order), true)''')],
 "mkhello on a .dsk image stored in ProDOS order",
 "the image is rewritten in the other order, so it no longer is the disk a DOS-order image becomes",
 '''
func main() {
	raw := naked(true)
	_, err := put(open(raw), "DF05:FIVE", []byte{1, 2, 3}, true)
	must(err)
	img, err := disk.Swizzle(raw, disk.PhysicalToLogicalByName["po"])
	must(err)
	must(os.WriteFile("x.dsk", img, 0o644))
	must(exec.Command(os.Args[1], "nakedos", "mkhello", "--order", "po", "x.dsk", "FIVE").Run())
	out, err := exec.Command(os.Args[1], "ls", "--order", "po", "--system", "nakedos", "x.dsk").Output()
	if err != nil || !strings.Contains(string(out), "FHELLO") {
		bad("ls of the image in its own order: %q %v", out, err)
	}
}''', ['"os/exec"', '"strings"', '"github.com/zellyn/diskii/disk"'], ["naked", "put"])

seed("C31-dump-order", "C31", [("cmd/dump.go", '''	op, _, err := disk.OpenFilename(d.DiskImage, d.Order, d.System,''', '''	op, _, err := disk.OpenFilename(d.DiskImage, disk.OrderFromFilename(d.DiskImage, d.Order), d.System,''')],
 "dump from a .dsk image stored in ProDOS order, with the order given",
 "the flag is overruled by the extension: the file is not found or has the wrong bytes",
 '''
func main() {
	b := dos()
	entry(sector(b, 17, 15), 0, 18, 15, 0x00, "NOTE", 2)
	l := sector(b, 18, 15)
	l[12], l[13] = 18, 14
	for i, c := range "HELLO THERE" {
		sector(b, 18, 14)[i] = byte(c) | 0x80
	}
	phys, err := disk.Swizzle(b, disk.LogicalToPhysicalByName["do"])
	must(err)
	img, err := disk.Swizzle(phys, disk.PhysicalToLogicalByName["po"])
	must(err)
	must(os.WriteFile("x.dsk", img, 0o644))
	must(os.WriteFile("x.do", b, 0o644))
	want, err := exec.Command(os.Args[1], "dump", "x.do", "NOTE").Output()
	must(err)
	got, err := exec.Command(os.Args[1], "dump", "--order", "po", "x.dsk", "NOTE").Output()
	if err != nil || string(got) != string(want) {
		bad("dump from the reordered image: %q %v, want %q", got, err, want)
	}
}''', ['"os/exec"', '"github.com/zellyn/diskii/disk"'], ["dos"])

seed("C31-mksd-flag", "C31", [("cmd/sd.go", '''	if order == types.DiskOrderAuto {
		order = disk.Order''', '''	if order == types.DiskOrderAuto || len(contents) > 15*256 {
		order = disk.Order''')],
 "mksd of a binary longer than 15 sectors with --order against the extension",
 "the disk comes out in the extension's order, not in the order asked for",
 '''
func main() {
	data := make([]byte, 5000)
	for i := range data {
		data[i] = byte(i*7 + i/256)
	}
	must(os.WriteFile("bin", data, 0o644))
	must(exec.Command(os.Args[1], "mksd", "--order", "do", "a.dsk", "bin").Run())
	must(exec.Command(os.Args[1], "mksd", "--order", "po", "b.dsk", "bin").Run())
	must(exec.Command(os.Args[1], "reorder", "--order", "po", "--new-order", "do", "b.dsk").Run())
	a, err := os.ReadFile("a.dsk")
	must(err)
	b, err := os.ReadFile("b.dsk")
	must(err)
	if string(a) != string(b) {
		bad("the disk made in ProDOS order is not the reordered disk")
	}
}''', ['"os/exec"'], [])
