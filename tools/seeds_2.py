seed("C11-parent-later-block", "C11", [("prodos/prodos.go", "if parentDirectoryBlock == keyBlock || firstSubdirBlockMap[parentDirectoryBlock] == keyBlock {", "if parentDirectoryBlock == keyBlock {")],
 "a subdirectory whose entry lies in the second block of the volume directory and whose parent pointer names that block",
 "the volume cannot be listed at all",
 '''
func main() {
	b := pro()
	file(block(b, 3), 0, 0xD, "LATE", 0x0F, 20, 512)
	sub(block(b, 20), "LATE", 3, 1, 0)
	file(block(b, 20), 1, 1, "INNER", 6, 30, 77)
	s, err := list(b, "LATE")
	if err != nil || s != "INNER(77) " {
		bad("LATE: %q %v", s, err)
	}
}''', libs=["pro"])

seed("C11-eof-high", "C11", [("prodos/prodos.go", "Length: int(fd.EOF[0]) + int(fd.EOF[1])<<8 + int(fd.EOF[2])<<16,", "Length: int(fd.EOF[0]) + int(fd.EOF[1])<<8 + int(fd.EOF[2]<<8)<<8,")],
 "a file longer than 65535 bytes",
 "lengths are listed without their third byte",
 '''
func main() {
	b := pro()
	file(block(b, 2), 1, 2, "BIG", 6, 30, 0x012345)
	s, err := list(b, "")
	if err != nil || s != "BIG(74565) " {
		bad("%q %v", s, err)
	}
}''', libs=["pro"])

seed("C11-second-later-block", "C11", [("prodos/prodos.go", '''		for _, block := range sub.blocks {
			v.firstSubdirBlocks[block.block] = sdd.KeyPointer
''', '''		for _, block := range sub.blocks {
			if sub.keyBlock.Next != block.block {
				continue
			}
			v.firstSubdirBlocks[block.block] = sdd.KeyPointer
''')],
 "a nested subdirectory described in the third block of its parent directory",
 "the volume cannot be listed: the parent of the nested directory is not found",
 '''
func main() {
	b := pro()
	file(block(b, 2), 1, 0xD, "A", 0x0F, 20, 512)
	sub(block(b, 20), "A", 2, 1, 21)
	block(b, 21)[2] = 22
	file(block(b, 22), 0, 0xD, "B", 0x0F, 25, 512)
	sub(block(b, 25), "B", 22, 1, 0)
	file(block(b, 25), 1, 1, "DEEP", 6, 30, 5)
	s, err := list(b, "A/B")
	if err != nil || s != "DEEP(5) " {
		bad("A/B: %q %v", s, err)
	}
}''', libs=["pro"])

seed("C12-unused-entry", "C12", [("dos3/dos3.go", '''	fd.TrackSectorListTrack = data[0x00]
	fd.TrackSectorListSector''', '''	fd.TrackSectorListTrack = data[0x00]
	if fd.Status() == FileDescStatusUnused {
		return // nothing else in an unused entry
	}
	fd.TrackSectorListSector''')],
 "a catalog sector with an entry whose first byte is 0 but whose other bytes are not",
 "the entry's other bytes are lost when the sector is encoded again",
 '''
func main() {
	in := make([]byte, 256)
	in[0x0B+35+3] = 0xC1
	cs := dos3.CatalogSector{}
	must(cs.FromSector(in))
	out, err := cs.ToSector()
	must(err)
	if !bytes.Equal(in, out) {
		bad("the catalog sector changed")
	}
}''', ['"bytes"', '"github.com/zellyn/diskii/dos3"'])

seed("C12-offset-order", "C12", [("dos3/dos3.go", "binary.LittleEndian.PutUint16(buf[0x05:0x07], tsl.SectorOffset)", "binary.BigEndian.PutUint16(buf[0x05:0x07], tsl.SectorOffset)"),
  ("dos3/dos3.go", "tsl.SectorOffset = binary.LittleEndian.Uint16(data[0x05:0x07])", "tsl.SectorOffset = binary.BigEndian.Uint16(data[0x05:0x07])")],
 "a track/sector list that is not the file's first; the two changes cancel out in a round trip",
 "the sector offset of a list is read with its bytes swapped",
 '''
func main() {
	in := make([]byte, 256)
	in[5] = 122
	t := dos3.TrackSectorList{}
	must(t.FromSector(in))
	if t.SectorOffset != 122 {
		bad("sector offset %d, want 122", t.SectorOffset)
	}
}''', ['"github.com/zellyn/diskii/dos3"'])

seed("C13-write-full-part", "C13", [("prodos/prodos.go", '''	for i, bp := range vbm {
		if err := disk.MarshalBlock''', '''	for i, bp := range vbm {
		if bp.data == (disk.Block{}) {
			continue // nothing free in this part
		}
		if err := disk.MarshalBlock''')],
 "a bitmap in which one whole block of 4096 entries is used",
 "that part of the map is not written, so the device still shows the blocks as before",
 '''
func main() {
	dev := make([]byte, 64*512)
	for i := range dev {
		dev[i] = 0xFF
	}
	vbm := prodos.NewVolumeBitMap(6, 100)
	for b := uint16(0); b < 100; b++ {
		vbm.MarkUsed(b)
	}
	must(vbm.Write(dev))
	if dev[6*512] != 0 {
		bad("used blocks are stored as free")
	}
}''', ['"github.com/zellyn/diskii/prodos"'])

seed("C13-mark-beyond", "C13", [("prodos/prodos.go", '''	bit := byte(1 << (7 - (block & 7)))
	if set {
		vbm[blockIndex].data[blockByteIndex] |= bit''', '''	bit := byte(1 << (7 - (block & 7)))
	if byteIndex >= 512*8 {
		blockIndex &= 7
	}
	if set {
		vbm[blockIndex].data[blockByteIndex] |= bit''')],
 "a device of more than 32768 blocks",
 "marking a block past 32768 marks another one",
 '''
func main() {
	vbm := prodos.NewVolumeBitMap(6, 40000)
	vbm.MarkUsed(33000)
	if vbm.IsFree(33000) || !vbm.IsFree(33000-32768) {
		bad("block 33000 used: %v, block 232 used: %v", !vbm.IsFree(33000), !vbm.IsFree(232))
	}
}''', ['"github.com/zellyn/diskii/prodos"'])

seed("C14-list-cycle", "C14", [("dos3/dos3.go", '''			return nil, fmt.Errorf("file %q tries to read TrackSector track=%d sector=%d twice", fd.FilenameString(), nextTrack, nextSector)
		}
		seen[ts] = true''', '''			return nil, fmt.Errorf("file %q tries to read TrackSector track=%d sector=%d twice", fd.FilenameString(), nextTrack, nextSector)
		}
		seen = map[disk.TrackSector]bool{ts: true}''')],
 "a file whose track/sector lists form a cycle of two or more",
 "getting the file never ends and eats memory",
 '''
func main() {
	b := dos()
	cat := sector(b, 17, 15)
	entry(cat, 0, 20, 1, 4, "LOOP", 3)
	sector(b, 20, 1)[1], sector(b, 20, 1)[2] = 20, 2
	sector(b, 20, 2)[1], sector(b, 20, 2)[2] = 20, 1
	done := make(chan bool)
	go func() {
		op, err := dos3.OperatorFactory{}.Operator(b, 0)
		must(err)
		_, err = op.GetFile("LOOP")
		if err == nil {
			bad("no error")
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(500 * time.Millisecond):
		bad("does not end")
	}
}''', ['"time"'], libs=["dos"])

seed("C15-unknown-parent", "C15", [("prodos/prodos.go", '''	if sd == nil {
		return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
	}

''', '')],
 "a subdirectory whose parent pointer names a block that is no directory",
 "listing the volume crashes",
 '''
func main() {
	b := pro()
	file(block(b, 2), 1, 0xD, "A", 0x0F, 20, 512)
	sub(block(b, 20), "A", 99, 1, 0)
	if _, err := list(b, ""); err == nil {
		fmt.Println("listed")
	}
}''', libs=["pro"])

seed("C15-shared-blocks", "C15", [("prodos/prodos.go", "		v.subdirsByBlock[sdd.KeyPointer] = &sub\n", "		if sub.keyBlock.Header.Name() != \"\" {\n			v.subdirsByBlock[sdd.KeyPointer] = &sub\n		}\n")],
 "a subdirectory entry whose key block has an empty name in its header",
 "listing the volume crashes",
 '''
func main() {
	b := pro()
	file(block(b, 2), 1, 0xD, "A", 0x0F, 20, 512)
	sub(block(b, 20), "", 2, 1, 0)
	if _, err := list(b, ""); err == nil {
		fmt.Println("listed")
	}
}''', libs=["pro"])

seed("C16-link-819", "C16", [("supermon/supermon.go", "if linkAddr < 0xD000 || linkAddr >= 0xDFFF {", "if linkAddr < 0xD000 || linkAddr > 0xDFFF {")],
 "a symbol table with a link to DFFF, one past the last entry",
 "opening the disk crashes",
 '''
func main() {
	b := naked(true)
	f3 := b[16*256:]
	f3[0], f3[1], f3[2], f3[3] = 0x05, 0xDF, 0xFF, 0xDF
	op := open(b)
	_, err := op.Catalog("")
	must(err)
}''', libs=["naked"])

seed("C17-odd-end", "C17", [("basic/applesoft/applesoft.go", "if ofs+1 >= len(raw) {", "if ofs >= len(raw) {")],
 "an Applesoft program cut off after the first byte of a line number",
 "decoding crashes",
 '''
func main() {
	_, err := applesoft.Decode([]byte{0x08, 0x08, 10, 0, 'A', 'B', 0, 0x10, 0x08, 20}, 0x801)
	if err == nil {
		bad("no error")
	}
}''', ['"github.com/zellyn/diskii/basic/applesoft"'])

seed("C17-constant-end", "C17", [("basic/integer/integer.go", "if len(l.Bytes) < i+3 {", "if len(l.Bytes) <= i+1 {")],
 "an Integer BASIC line that ends in the middle of a constant",
 "rendering the listing crashes",
 '''
func main() {
	l, err := integer.Decode([]byte{7, 10, 0, 0x5F, 0xB1, 0x05, 1})
	must(err)
	fmt.Println(l.String())
}''', ['"github.com/zellyn/diskii/basic/integer"'])

seed("C18-stray-byte", "C18", [("basic/applesoft/applesoft.go", "if size == len(raw)-2 || size == len(raw)-3 {", "if size == len(raw)-2 {")],
 "a program saved by DOS with its length prefix and the stray trailing byte",
 "the prefix is taken for the program's first bytes",
 '''
func main() {
	p := []byte{0x08, 0x08, 10, 0, 'A', 'B', 0, 0, 0}
	l, err := applesoft.Decode(append(append([]byte{byte(len(p)), 0}, p...), 0), 0x801)
	if err != nil || l.String() != "10 AB\\n" {
		bad("%q %v", l.String(), err)
	}
}''', ['"github.com/zellyn/diskii/basic/applesoft"'])

seed("C18-high-location", "C18", [("basic/applesoft/applesoft.go", "		return address - int(location)", "		return int(int16(address)) - int(int16(location))")],
 "a program loaded below 8000 that extends beyond it (lines on both sides)",
 "a program that crosses 8000 cannot be decoded",
 '''
func main() {
	p := []byte{0x02, 0x80, 10, 0, 'A', 'B', 0, 0x08, 0x80, 20, 0, 'C', 0, 0, 0}
	l, err := applesoft.Decode(p, 0x7FFB)
	if err != nil || l.String() != "10 AB\\n20 C\\n" {
		bad("%q %v", l.String(), err)
	}
}''', ['"github.com/zellyn/diskii/basic/applesoft"'])

seed("C19-name-z", "C19", [("basic/integer/integer.go", "case 'A' <= b && b <= 'Z':", "case 'A' <= b && b < 'Z':")],
 "a variable name in which a digit follows the letter Z",
 "the digit is taken for the start of an integer constant",
 '''
func main() {
	l, err := integer.Decode([]byte{10, 10, 0, 0xDA, 0xB1, 0x71, 0xB5, 5, 0, 1})
	must(err)
	if s := l.String(); s != "   10 Z1=5\\n" {
		bad("%q", s)
	}
}''', ['"github.com/zellyn/diskii/basic/integer"'])

seed("C19-short-last-line", "C19", [("basic/integer/integer.go", "for len(raw) > 3 {", "for len(raw) > 4 {")],
 "a program whose last line is empty",
 "the last line is missing from the listing",
 '''
func main() {
	l, err := integer.Decode([]byte{5, 10, 0, 0x51, 1, 4, 20, 0, 1})
	must(err)
	if len(l) != 2 {
		bad("%d lines", len(l))
	}
}''', ['"github.com/zellyn/diskii/basic/integer"'])

seed("C20-start-in-padding", "C20", [("cmd/sd.go", '''	if int(s.Start) >= int(s.Address)+len(contents) {
		end''', '''	if int(s.Start) >= int(s.Address)+(len(contents)+255)/256*256 {
		end''')],
 "a start address behind the end of the binary but inside its last page",
 "mksd accepts a start address outside the binary",
 '''
func main() {
	must(os.WriteFile("p.bin", make([]byte, 10), 0o644))
	if err := exec.Command(os.Args[1], "mksd", "x.dsk", "p.bin", "--address", "0x6000", "--start", "0x600A").Run(); err == nil {
		bad("accepted start 600A of a binary 6000-6009")
	}
}''', ['"os/exec"'])

seed("C20-track-step", "C20", [("cmd/sd.go", '''			sector = (disk.FloppySectors + 1) - sector
			if sector == 0 {''', '''			sector = (disk.FloppySectors + 1) - sector
			if sector == 0 && i+256 < len(contents) {''')],
 "a binary whose last page falls on the first sector of a track",
 "the last page lands on the wrong track, over the boot sector or an earlier page",
 '''
func main() {
	bin := make([]byte, 16*256)
	for i := range bin {
		bin[i] = byte(i/256 + 1)
	}
	must(os.WriteFile("p.bin", bin, 0o644))
	must(exec.Command(os.Args[1], "mksd", "x.do", "p.bin").Run())
	img, err := os.ReadFile("x.do")
	must(err)
	if img[4096] != 16 {
		bad("track 1 sector 0 holds %d, want 16", img[4096])
	}
}''', ['"os/exec"'])

seed("C21-rm-stale", "C21", [("cmd/delete.go", '''	if !deleted && !d.MissingOk {
		return fmt.Errorf("file %q not found (use -f to prevent this being an error)", d.Filename)
	}
	return disk.WriteBack(d.DiskImage, op, order, true)''', '''	if err := disk.WriteBack(d.DiskImage, op, order, true); err != nil {
		return err
	}
	if !deleted && !d.MissingOk {
		return fmt.Errorf("file %q not found (use -f to prevent this being an error)", d.Filename)
	}
	return nil''')],
 "rm without -f of a symbol whose file does not exist",
 "the command fails but has removed the symbol from the image",
 '''
func main() {
	b := naked(true)
	op := open(b)
	if _, err := put(op, "9:GHOST", []byte{1}, false); err != nil {
		bad("%v", err)
	}
	if _, err := op.Delete("9"); err != nil {
		bad("%v", err)
	}
	img := op.GetBytes()
	phys := []int{0, 7, 14, 6, 13, 5, 12, 4, 11, 3, 10, 2, 9, 1, 8, 15}
	out := make([]byte, len(img))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(out[t*4096+phys[s]*256:t*4096+phys[s]*256+256], img[t*4096+s*256:])
		}
	}
	must(os.WriteFile("x.dsk", out, 0o644))
	if err := exec.Command(os.Args[1], "rm", "x.dsk", "GHOST").Run(); err == nil {
		bad("no error")
	}
	now, err := os.ReadFile("x.dsk")
	must(err)
	if !bytes.Equal(now, out) {
		bad("the refused rm changed the image")
	}
}''', ['"bytes"', '"os/exec"'], libs=["naked", "put"])

seed("C21-temp-left", "C21", [("helpers/helpers.go", '''	return os.WriteFile(filename, contents, 0600)''', '''	temp := filename + ".tmp"
	if err := os.WriteFile(temp, contents, 0600); err != nil {
		return err
	}
	return os.Rename(temp, filename)''')],
 "an output that names an existing directory, with -f",
 "the command fails but leaves a new file behind",
 '''
func main() {
	must(os.WriteFile("x.dsk", make([]byte, 143360), 0o644))
	must(os.Mkdir("y.po", 0o755))
	if err := exec.Command(os.Args[1], "reorder", "-f", "x.dsk", "y.po").Run(); err == nil {
		bad("no error")
	}
	ents, err := os.ReadDir(".")
	must(err)
	if len(ents) != 2 {
		bad("%d files, want 2", len(ents))
	}
}''', ['"os/exec"'])

seed("C22-hello-symbol", "C22", [("cmd/nakedos.go", '''	toLoad := addr
	if addr == 0 {
		toLoad = symbolAddr
	}''', '''	toLoad := symbolAddr
	if symbolAddr == 0 {
		toLoad = addr
	}''')],
 "mkhello with a NUMBER:NAME whose name belongs to another file",
 "the hello program loads the other file",
 '''
func main() {
	op := open(naked(true))
	for _, n := range []string{"DF07:SEVEN", "DF08:EIGHT"} {
		if _, err := put(op, n, []byte{1}, false); err != nil {
			bad("%v", err)
		}
	}
	img := op.GetBytes()
	log := []int{0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15}
	out := make([]byte, len(img))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(out[t*4096+log[s]*256:t*4096+log[s]*256+256], img[t*4096+s*256:])
		}
	}
	must(os.WriteFile("x.po", out, 0o644))
	must(exec.Command(os.Args[1], "nakedos", "mkhello", "x.po", "DF08:SEVEN").Run())
	b, err := exec.Command(os.Args[1], "dump", "x.po", "DF01").Output()
	must(err)
	if b[7] != 8 {
		bad("the hello program loads file %02X, want 08", b[7])
	}
}''', ['"os/exec"'], libs=["naked", "put"])

seed("C22-rm-order", "C22", [("cmd/delete.go", "	return disk.WriteBack(d.DiskImage, op, order, true)", "	return disk.WriteBack(d.DiskImage, op, disk.OrderFromFilename(d.DiskImage, order), true)")],
 "rm on an image whose order differs from what its extension suggests (a ProDOS-order .dsk, or --order)",
 "the image is written back in another order than it had",
 '''
func main() {
	op := open(naked(true))
	if _, err := put(op, "DF07:SEVEN", []byte{1}, false); err != nil {
		bad("%v", err)
	}
	if _, err := put(op, "DF08:EIGHT", []byte{2}, false); err != nil {
		bad("%v", err)
	}
	img := op.GetBytes()
	log := []int{0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15}
	out := make([]byte, len(img))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(out[t*4096+log[s]*256:t*4096+log[s]*256+256], img[t*4096+s*256:])
		}
	}
	must(os.WriteFile("x.dsk", out, 0o644))
	must(exec.Command(os.Args[1], "rm", "--order", "po", "x.dsk", "EIGHT").Run())
	if err := exec.Command(os.Args[1], "dump", "--order", "po", "x.dsk", "SEVEN").Run(); err != nil {
		bad("the disk cannot be read in its order any more: %v", err)
	}
}''', ['"os/exec"'], libs=["naked", "put"])

seed("C23-reserved-ee", "C23", [("types/filetype.go", "for i := Filetype(0xC0); i < 0xEF; i++ {", "for i := Filetype(0xC0); i < 0xEE; i++ {")],
 "a ProDOS file of type EE",
 "the reserved type EE has no description",
 '''
func main() {
	if s := types.Filetype(0xEE).String(); s != "ProDOS reserved for future use EE (ProDOSReservedEE)" {
		bad("%s", s)
	}
}''', ['"github.com/zellyn/diskii/types"'])

seed("C23-in-place", "C23", [("types/filetype.go", "	var result []FiletypeInfo\n", "	result := filetypeInfos[:0]\n")],
 "asking for the short list of types before resolving a name or asking for the full list (two calls)",
 "the short list is built in place over the table, so types vanish and others appear twice",
 '''
func main() {
	types.FiletypeInfos(false)
	seen := map[types.Filetype]bool{}
	for _, i := range types.FiletypeInfos(true) {
		if seen[i.Type] {
			bad("%s is listed twice", i.Name)
		}
		seen[i.Type] = true
	}
}''', ['"github.com/zellyn/diskii/types"'])

seed("C24-alias", "C24", [("disk/marshal.go", '''	bytes := make([]byte, 256)
	copy(bytes, diskbytes[start:end])
	return bytes, nil''', '''	return diskbytes[start:end:end], nil''')],
 "changing the returned sector",
 "the sector read is not a copy: changing it changes the image",
 '''
func main() {
	img := make([]byte, 143360)
	b, err := disk.ReadSector(img, 3, 4)
	must(err)
	b[0] = 1
	if img[3*4096+4*256] != 0 {
		bad("the image changed")
	}
}''', ['"github.com/zellyn/diskii/disk"'])

seed("C24-partial-block", "C24", [("disk/marshal.go", '''	if len(diskbytes) < end {
		return fmt.Errorf("device too small to write block %d", index)
	}
	copy(''', '''	if len(diskbytes) <= start {
		return fmt.Errorf("device too small to write block %d", index)
	}
	copy(''')],
 "writing a block of which only the first part is on the device",
 "instead of being refused it crashes or writes a part of the block",
 '''
func main() {
	dev := make([]byte, 1000)
	defer func() {
		if r := recover(); r != nil {
			bad("%v", r)
		}
	}()
	b := prodos.VolumeDirectoryBlock{}
	b.SetBlock(1)
	b.Prev = 0xFFFF
	if err := disk.MarshalBlock(dev, b); err == nil {
		bad("no error")
	}
}''', ['"github.com/zellyn/diskii/disk"', '"github.com/zellyn/diskii/prodos"'])

seed("C25-one-read", "C25", [("helpers/helpers.go", '''		return io.ReadAll(os.Stdin)
''', '''		buf := make([]byte, 1<<20)
		n, err := io.ReadAtLeast(os.Stdin, buf, 1)
		if err == io.EOF {
			err = nil
		}
		return buf[:n], err
''')],
 "standard input that arrives in more than one piece",
 "only the first piece is used",
 '''
func main() {
	p := []byte{0x08, 0x08, 10, 0, 'A', 'B', 0, 0x10, 0x08, 20, 0, 'C', 'D', 'E', 0, 0, 0}
	x := exec.Command(os.Args[1], "applesoft", "decode", "-")
	in, err := x.StdinPipe()
	must(err)
	go func() {
		for i := range p {
			in.Write(p[i : i+1])
			time.Sleep(20 * time.Millisecond)
		}
		in.Close()
	}()
	out, err := x.Output()
	if err != nil || len(out) < 10 {
		bad("%q %v", out, err)
	}
}''', ['"os/exec"', '"time"'])

seed("C25-dump-flush", "C25", [("cmd/dump.go", '''	_, err = os.Stdout.Write(file.Data)
''', '''	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	_, err = w.Write(file.Data)
'''), ("cmd/dump.go", '''import (
	"os"
''', '''import (
	"bufio"
	"os"
''')],
 "dump of a file of less than 4096 bytes to a full disk",
 "the loss of the output is not reported",
 '''
func main() {
	op := open(naked(true))
	if _, err := put(op, "DF07:SEVEN", []byte{1}, false); err != nil {
		bad("%v", err)
	}
	img := op.GetBytes()
	log := []int{0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15}
	out := make([]byte, len(img))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(out[t*4096+log[s]*256:t*4096+log[s]*256+256], img[t*4096+s*256:])
		}
	}
	must(os.WriteFile("x.po", out, 0o644))
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	must(err)
	x := exec.Command(os.Args[1], "dump", "x.po", "SEVEN")
	x.Stdout = full
	if x.Run() == nil {
		bad("dump to a full device succeeded")
	}
}''', ['"os/exec"'], libs=["naked", "put"])
