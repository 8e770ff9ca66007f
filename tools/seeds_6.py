seed("C32-stdin-order", "C32", [("disk/open.go", '''		return OpenFile(os.Stdin, order, system, operatorFactories, debug)''', '''		if order == types.DiskOrderAuto {
			order = types.DiskOrderDO
		}
		return OpenFile(os.Stdin, order, system, operatorFactories, debug)''')],
 "a NakedOS image in ProDOS order on standard input, no order given",
 "the image is refused although the same file is found in its order",
 '''
func main() {
	raw := naked(true)
	_, err := put(open(raw), "DF05:FIVE", []byte{1, 2, 3}, true)
	must(err)
	img, err := disk.Swizzle(raw, disk.PhysicalToLogicalByName["po"])
	must(err)
	must(os.WriteFile("x", img, 0o644))
	want, err := exec.Command(os.Args[1], "dump", "x", "FIVE").Output()
	must(err)
	c := exec.Command(os.Args[1], "dump", "-", "FIVE")
	c.Stdin = bytes.NewReader(img)
	got, err := c.Output()
	if err != nil || !bytes.Equal(got, want) {
		bad("dump from standard input: %d bytes, %v", len(got), err)
	}
}''', ['"os/exec"', '"bytes"', '"github.com/zellyn/diskii/disk"'], ["naked", "put"])

seed("C32-rm-missing", "C32", [("cmd/delete.go", '''	return disk.WriteBack(d.DiskImage, op, order, true)''', '''	if !deleted {
		return nil // nothing changed, so the image is as it should be
	}
	return disk.WriteBack(d.DiskImage, op, order, true)''')],
 "rm -f of a missing file in an image taken from standard input",
 "the image is not printed, so the pipeline ends in an empty file",
 '''
func main() {
	raw := naked(true)
	_, err := put(open(raw), "DF05:FIVE", []byte{1, 2, 3}, true)
	must(err)
	img, err := disk.Swizzle(raw, disk.PhysicalToLogicalByName["do"])
	must(err)
	c := exec.Command(os.Args[1], "rm", "-f", "-", "NOSUCH")
	c.Stdin = bytes.NewReader(img)
	got, err := c.Output()
	if err != nil || !bytes.Equal(got, img) {
		bad("rm -f of a missing file prints %d bytes, %v", len(got), err)
	}
}''', ['"os/exec"', '"bytes"', '"github.com/zellyn/diskii/disk"'], ["naked", "put"])

seed("C32-mksd-stdout-order", "C32", [("cmd/sd.go", '''	return helpers.WriteOutput(s.DiskImage, rawBytes, true)''', '''	if s.DiskImage == "-" && s.Order == types.DiskOrderAuto {
		rawBytes = diskbytes
	}
	return helpers.WriteOutput(s.DiskImage, rawBytes, true)''')],
 "mksd onto standard output with no order given",
 "the image printed is in physical order, not the DOS order a file would get",
 '''
func main() {
	bin := bytes.Repeat([]byte("0123456789abcdef"), 200)
	must(os.WriteFile("bin", bin, 0o644))
	must(exec.Command(os.Args[1], "mksd", "x", "bin").Run())
	want, err := os.ReadFile("x")
	must(err)
	got, err := exec.Command(os.Args[1], "mksd", "-", "bin").Output()
	if err != nil || !bytes.Equal(got, want) {
		bad("mksd onto standard output differs from the file: %d bytes, %v", len(got), err)
	}
}''', ['"os/exec"', '"bytes"'], [])

seed("C32-stdin-source-limit", "C32", [("helpers/helpers.go", '''		return io.ReadAll(os.Stdin)''', '''		buf := make([]byte, 1<<20)
		n, err := os.Stdin.Read(buf)
		if err == io.EOF {
			err = nil
		}
		return buf[:n], err''')],
 "a source of more than a pipe's worth, or written in pieces, on standard input",
 "only the first piece is stored or reordered",
 '''
func main() {
	img := make([]byte, 143360)
	for i := range img {
		img[i] = byte(i * i >> 8)
	}
	must(os.WriteFile("x", img, 0o644))
	must(exec.Command(os.Args[1], "reorder", "--order", "do", "x", "y").Run())
	want, err := os.ReadFile("y")
	must(err)
	c := exec.Command(os.Args[1], "reorder", "--order", "do", "-", "-")
	c.Stdin = bytes.NewReader(img) // a pipe
	got, err := c.Output()
	if err != nil || !bytes.Equal(got, want) {
		bad("reorder from standard input: %d bytes, %v", len(got), err)
	}
}''', ['"os/exec"', '"bytes"'], [])

seed("C21-address-overwrite", "C21", [("cmd/put.go", '''	_, err = op.PutFile(fileInfo, p.Overwrite)
''', '''	replace := p.Overwrite || p.Address != 0x6000
	_, err = op.PutFile(fileInfo, replace)
''')],
 "put of an existing file without -f, with a load address other than the default",
 "the existing file is overwritten instead of the command being refused",
 '''
func main() {
	op := open(naked(true))
	if _, err := put(op, "DF07:SEVEN", []byte{1, 2, 3}, false); err != nil {
		bad("%v", err)
	}
	img := op.GetBytes()
	log := []int{0, 7, 14, 6, 13, 5, 12, 4, 11, 3, 10, 2, 9, 1, 8, 15}
	out := make([]byte, len(img))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(out[t*4096+log[s]*256:t*4096+log[s]*256+256], img[t*4096+s*256:])
		}
	}
	must(os.WriteFile("x.do", out, 0o644))
	must(os.WriteFile("source", []byte("something else"), 0o644))
	must(exec.Command(os.Args[1], "put", "-f", "x.do", "SEVEN", "source").Run())
	before, err := os.ReadFile("x.do")
	must(err)
	must(os.WriteFile("source", []byte("yet another thing"), 0o644))
	if err := exec.Command(os.Args[1], "put", "x.do", "SEVEN", "source").Run(); err == nil {
		bad("put onto an existing file succeeded")
	}
	if err := exec.Command(os.Args[1], "put", "--address", "0x2000", "x.do", "SEVEN", "source").Run(); err == nil {
		bad("put onto an existing file succeeded, with an address")
	}
	after, err := os.ReadFile("x.do")
	must(err)
	if !bytes.Equal(after, before) {
		bad("the refused put changed the image")
	}
}''', ['"os/exec"', '"bytes"'], libs=["naked", "put"])
