From 89c4fdd3cf5360e0c58979e3f2fbf07b3548907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:44 +0000
Subject: [PATCH 01/25] fix: dos3: notice cycles in the catalog sector chain

readCatalogSectors checked a `seen` map that nothing was ever put into, so
a catalog chain that loops made every operation on the image loop forever.
---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index a909ca3..7425dfe 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -509,6 +509,7 @@ func readCatalogSectors(diskbytes []byte, debug int) ([]CatalogSector, error) {
 		if seen[ts] {
 			return nil, fmt.Errorf("Catalog tries to read TrackSector track=%d sector=%d twice", nextTrack, nextSector)
 		}
+		seen[ts] = true
 		if nextTrack >= v.NumTracks {
 			return nil, fmt.Errorf("catalog sectors can't be in track %d: disk only has %d tracks", nextTrack, v.NumTracks)
 		}
-- 
2.43.0


From 4bea7baf4f622b0cd9b078dc4f9338110380ad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:44 +0000
Subject: [PATCH 02/25] fix: dos3: do not panic or misread empty and truncated
 files

An all-zero text file made GetFile index data[-1]; a file without data
sectors was read as 122 zero sectors (and panicked once that was right);
a stored length beyond the file's sectors panicked or returned bytes that
are not in the file.
---
 dos3/dos3.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 7425dfe..cad6305 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -413,6 +413,7 @@ func (fd *FileDesc) Contents(diskbytes []byte) ([]byte, error) {
 		end := 121
 		// If it's the last tsl, stop at the last non-zero TrackSector.
 		if i == len(tsls)-1 {
+			end = -1
 			for j, ts := range tsl.TrackSectors {
 				if ts.Track != 0 || ts.Sector != 0 {
 					end = j
@@ -623,7 +624,7 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 	errType := "UNKNOWN"
 	switch fd.Filetype & 0x7f {
 	case FiletypeText: // Text file
-		for data[len(data)-1] == 0 {
+		for len(data) > 0 && data[len(data)-1] == 0 {
 			data = data[:len(data)-1]
 		}
 		fi.Descriptor.Length = len(data)
@@ -637,10 +638,19 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 		case FiletypeInteger:
 			// TODO(zellyn): figure out what address integer basic programs are stored at.
 		case FiletypeBinary:
+			if len(data) < 2 {
+				return types.FileInfo{}, fmt.Errorf("file %q has no data sectors, so no load address", filename)
+			}
 			fi.StartAddress = uint16(data[0]) + uint16(data[1])<<8
 			data = data[2:]
 		}
+		if len(data) < 2 {
+			return types.FileInfo{}, fmt.Errorf("file %q has no data sectors, so no stored length", filename)
+		}
 		length := int(data[0]) + int(data[1])*256
+		if length > len(data)-2 {
+			return types.FileInfo{}, fmt.Errorf("file %q has stored length %d, but only %d bytes of data", filename, length, len(data)-2)
+		}
 		data = data[2 : length+2]
 		fi.Descriptor.Length = length
 		fi.Data = data
-- 
2.43.0


From cc644aca55f6bc45ceda4bb794d78a9384eb0a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:45 +0000
Subject: [PATCH 03/25] fix: prodos: size volume bitmaps of more than 61440
 blocks correctly

blocks+4095 overflowed uint16, so NewVolumeBitMap panicked.
---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index a4c873a..40bca3a 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -65,7 +65,7 @@ type VolumeBitMap []bitmapPart
 
 // NewVolumeBitMap returns a volume bitmap of the given size.
 func NewVolumeBitMap(startBlock uint16, blocks uint16) VolumeBitMap {
-	vbm := VolumeBitMap(make([]bitmapPart, (blocks+(512*8)-1)/(512*8)))
+	vbm := VolumeBitMap(make([]bitmapPart, (int(blocks)+(512*8)-1)/(512*8)))
 	for i := range vbm {
 		vbm[i].SetBlock(startBlock + uint16(i))
 	}
-- 
2.43.0


From 78f83d075e18ad6ac97e911b4b739bb4daab192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:45 +0000
Subject: [PATCH 04/25] fix: prodos: make IndexBlock.Set change the index block

The value receiver made it modify a copy.
---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 40bca3a..af1ba74 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -441,7 +441,7 @@ func (i IndexBlock) Get(blockNum byte) uint16 {
 }
 
 // Set the blockNum'th block number in an index block.
-func (i IndexBlock) Set(blockNum byte, block uint16) {
+func (i *IndexBlock) Set(blockNum byte, block uint16) {
 	i[blockNum] = byte(block)
 	i[256+int(blockNum)] = byte(block >> 8)
 }
-- 
2.43.0


From 846ec1d15244872f850b2e6c6d9cdbb4a89f522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:46 +0000
Subject: [PATCH 05/25] fix: prodos: notice cycles in directory block chains
 and key pointers

A directory chain that loops, or a subdirectory entry that leads back to a
directory already read, made opening the image run until memory ran out.
A directory block belongs to exactly one directory, so reading one twice
is an error.
---
 prodos/prodos.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index af1ba74..c41b2c3 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -692,7 +692,12 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 	// 	fmt.Fprintf(os.Stderr, "volume bitmap: %#v\n", v.bitmap)
 	// }
 
+	seen := map[uint16]bool{keyBlock: true} // directory blocks read so far
 	for block := v.keyBlock.Next; block != 0; block = v.blocks[len(v.blocks)-1].Next {
+		if seen[block] {
+			return v, fmt.Errorf("volume directory tries to read block %d twice", block)
+		}
+		seen[block] = true
 		vdb := VolumeDirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &vdb, block); err != nil {
 			return v, err
@@ -714,7 +719,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 
 	for i := 0; i < len(sdds); i++ {
 		sdd := sdds[i]
-		sub, err := readSubdirectory(devicebytes, sdd)
+		sub, err := readSubdirectory(devicebytes, sdd, seen)
 		if err != nil {
 			return v, err
 		}
@@ -811,17 +816,26 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 }
 
 // readSubdirectory reads a single subdirectory from a device into
-// memory.
-func readSubdirectory(devicebytes []byte, fd FileDescriptor) (Subdirectory, error) {
+// memory. It's an error for it to use a directory block that's already
+// been seen.
+func readSubdirectory(devicebytes []byte, fd FileDescriptor, seen map[uint16]bool) (Subdirectory, error) {
 	s := Subdirectory{
 		keyBlock: &SubdirectoryKeyBlock{},
 	}
 
+	if seen[fd.KeyPointer] {
+		return s, fmt.Errorf("subdirectory %q tries to read block %d twice", fd.Name(), fd.KeyPointer)
+	}
+	seen[fd.KeyPointer] = true
 	if err := disk.UnmarshalBlock(devicebytes, s.keyBlock, fd.KeyPointer); err != nil {
 		return s, fmt.Errorf("cannot read first block of subdirectory %q (block %d): %v", fd.Name(), fd.KeyPointer, err)
 	}
 
 	for block := s.keyBlock.Next; block != 0; block = s.blocks[len(s.blocks)-1].Next {
+		if seen[block] {
+			return s, fmt.Errorf("subdirectory %q tries to read block %d twice", fd.Name(), block)
+		}
+		seen[block] = true
 		sdb := SubdirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &sdb, block); err != nil {
 			return s, err
-- 
2.43.0


From 43c936c493373dffab53e936867122ae82dc6214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:46 +0000
Subject: [PATCH 06/25] fix: prodos: bound the walk up parent pointers, and do
 it in disk order

Parent pointers that loop overflowed the stack. Walking the subdirectories
in map order made the answer for a damaged disk differ from run to run.
---
 prodos/prodos.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index c41b2c3..83811bf 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -739,12 +739,13 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		fmt.Fprintf(os.Stderr, "got %d total subdir descriptors\n", len(sdds))
 	}
 
-	for _, sd := range v.subdirsByBlock {
+	for _, sdd := range sdds {
+		sd := v.subdirsByBlock[sdd.KeyPointer]
 		name := sd.keyBlock.Header.Name()
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, "processing subdir %q\n", name)
 		}
-		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks)
+		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks, maxNesting)
 		if err != nil {
 			return v, err
 		}
@@ -788,11 +789,20 @@ func (s Subdirectory) subdirDescriptors() []FileDescriptor {
 	return descs
 }
 
-// parentDirName returns the full recursive directory name of the given parent directory.
-func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16) (string, error) {
+// maxNesting is the number of levels of subdirectory at which we give up
+// following parent pointers. ProDOS pathnames (64 characters, plus a prefix
+// of 64 characters) cannot nest this deep.
+const maxNesting = 128
+
+// parentDirName returns the full recursive directory name of the given parent
+// directory, following at most the given number of levels of parent pointers.
+func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16, levels int) (string, error) {
 	if parentDirectoryBlock == keyBlock || firstSubdirBlockMap[parentDirectoryBlock] == keyBlock {
 		return "", nil
 	}
+	if levels <= 0 {
+		return "", fmt.Errorf("parent pointers lead through more than %d directories without reaching the volume directory", maxNesting)
+	}
 	sd := subdirMap[parentDirectoryBlock]
 	if sd == nil {
 		parentFirstBlock, ok := firstSubdirBlockMap[parentDirectoryBlock]
@@ -804,7 +814,7 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 		return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
 	}
 
-	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap)
+	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap, levels-1)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 546541591ad15a5395ebb340b8b01c550af1ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:46 +0000
Subject: [PATCH 07/25] fix: applesoft: refuse next-line pointers that do not
 move forward

A pointer to just before the program panicked, and one back into the
program made Decode loop until memory ran out.
---
 basic/applesoft/applesoft.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index afd80ae..d134c72 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -151,7 +151,7 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	next := int(location)
 	for next != 0 {
 		ofs := calcOffset(next)
-		if ofs < -1 || ofs+1 >= len(raw) {
+		if ofs < 0 || ofs+1 >= len(raw) {
 			return nil, fmt.Errorf("line %d has next line at $%X, which is outside the input range of %s", last, next, bounds)
 		}
 		next = int(raw[ofs]) + 256*int(raw[ofs+1])
@@ -187,6 +187,10 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 			ofs++
 		}
 		listing = append(listing, line)
+		last = line.Num
+		if calcOffset(next) <= ofs {
+			return nil, fmt.Errorf("line %d has next line at $%X, which is not after its end", last, next)
+		}
 	}
 
 	return listing, nil
-- 
2.43.0


From 6546bc4544b28bf52473e9a5ca4f7888223d3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:47 +0000
Subject: [PATCH 08/25] fix: integer: refuse lines too short to hold their own
 header

Sizes 0-3 made Decode panic.
---
 basic/integer/integer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index b51a412..1d77076 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -170,6 +170,9 @@ func Decode(raw []byte) (Listing, error) {
 	for len(raw) > 3 {
 		size := int(raw[0])
 		num := int(raw[1]) + 256*int(raw[2])
+		if size < 4 {
+			return nil, fmt.Errorf("line %d has impossible size %d", num, size)
+		}
 		if len(raw) < size {
 			return nil, fmt.Errorf("line %d wants %d bytes; only %d remain", num, size, len(raw))
 		}
-- 
2.43.0


From 1528e11005e8e03a7a6ecf826a1ffdf31ea41597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:47 +0000
Subject: [PATCH 09/25] fix: integer: list digits inside string literals as
 text

A digit following a non-alphanumeric character in a string was taken for
the start of an integer constant, swallowing the next two bytes.
---
 basic/integer/integer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index 1d77076..532726d 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -189,15 +189,10 @@ func Decode(raw []byte) (Listing, error) {
 	return listing, nil
 }
 
-/*
 const (
-	tokenREM        = 0x5D
-	tokenUnaryPlus  = 0x35
-	tokenUnaryMinus = 0x36
 	tokenQuoteStart = 0x28
 	tokenQuoteEnd   = 0x29
 )
-*/
 
 func isalnum(b byte) bool {
 	switch {
@@ -214,11 +209,17 @@ func isalnum(b byte) bool {
 func (l Line) String() string {
 	var buf bytes.Buffer
 	fmt.Fprintf(&buf, "%5d ", l.Num)
-	var lastAN bool
+	var lastAN, inQuotes bool
 	for i := 0; i < len(l.Bytes); i++ {
 		ch := l.Bytes[i]
 		if ch < 0x80 {
 			lastAN = false
+			switch ch {
+			case tokenQuoteStart:
+				inQuotes = true
+			case tokenQuoteEnd:
+				inQuotes = false
+			}
 			token := TokensByCode[ch]
 			buf.WriteString(token)
 			if len(token) > 1 {
@@ -232,7 +233,7 @@ func (l Line) String() string {
 			}
 		} else {
 			ch -= 0x80
-			if !lastAN && ch >= '0' && ch <= '9' {
+			if !lastAN && !inQuotes && ch >= '0' && ch <= '9' {
 				if len(l.Bytes) < i+3 {
 					buf.WriteByte('?')
 				} else {
-- 
2.43.0


From 5a84425dabc53d71c2bfc480e22b7c28c314160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:47 +0000
Subject: [PATCH 10/25] fix: supermon: refuse to write empty files

WriteFile panicked, after having freed the sectors of an existing file.
---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index f3add84..d1ee94c 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -188,6 +188,9 @@ func (sm SectorMap) Delete(file byte) {
 // WriteFile writes the contents of a file. It returns true if the
 // file already existed.
 func (sm SectorMap) WriteFile(diskbytes []byte, file byte, contents []byte, overwrite bool) (bool, error) {
+	if len(contents) == 0 {
+		return len(sm.SectorsForFile(file)) > 0, fmt.Errorf("cannot write empty file %d", file)
+	}
 	sectorsNeeded := (len(contents) + 255) / 256
 	cts := make([]byte, 256*sectorsNeeded)
 	copy(cts, contents)
-- 
2.43.0


From 6f506d1219bc86bc64a445ecba33f4e091665842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:47 +0000
Subject: [PATCH 11/25] fix: supermon: only unlink live symbols in DeleteSymbol

Empty entries have link 0 (and deleted ones their old link), so they could
be taken for the deleted symbol's predecessor, leaving the real one
pointing at a dead entry: the symbol table could not be read back.
---
 supermon/supermon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index d1ee94c..72a0138 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -458,7 +458,7 @@ func (st SymbolTable) DeleteSymbol(name string) bool {
 				if i == j {
 					continue
 				}
-				if st[j].Link == i {
+				if st[j].Address != 0 && st[j].Link == i {
 					st[j].Link = sym.Link
 					break
 				}
-- 
2.43.0


From c903deab54a37a45f2d60dc5b38e5414b42e8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:48 +0000
Subject: [PATCH 12/25] fix: supermon: only chain new symbols to live symbols
 in AddSymbol

An empty entry (address 0, hash 0) without a link was taken for the tail of
the hash-0 chain, so the new symbol was not on its chain.
---
 supermon/supermon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 72a0138..83b16d6 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -497,7 +497,7 @@ func (st SymbolTable) AddSymbol(name string, address uint16) error {
 		return fmt.Errorf("symbol table full")
 	}
 	for j, sym := range st {
-		if addrHash(sym.Address) == hash && sym.Link == -1 {
+		if sym.Address != 0 && addrHash(sym.Address) == hash && sym.Link == -1 {
 			st[j].Link = pos
 			break
 		}
-- 
2.43.0


From 0faab5c27f23299291dd0373a2422d492e656d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:48 +0000
Subject: [PATCH 13/25] fix: supermon: refuse symbol names with characters that
 cannot be stored

They were silently dropped, so the symbol came back under another name.
---
 supermon/supermon.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 83b16d6..cda5cd2 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -283,11 +283,13 @@ func encodeSymbol(name string) (six []byte, err error) {
 	if len(name) < 3 {
 		return nil, fmt.Errorf("invalid Super-Mon symbol %q: too short", name)
 	}
-	nm := []byte(strings.ToUpper(name))
 	value := uint64(0)
 	bits := 0
-	for i := len(nm) - 1; i >= 0; i-- {
-		ch := nm[i]
+	for i := len(name) - 1; i >= 0; i-- {
+		ch := name[i]
+		if 'a' <= ch && ch <= 'z' {
+			ch -= 'a' - 'A'
+		}
 		switch {
 		case 'A' <= ch && ch <= 'Z':
 			value = value<<5 + uint64(ch-'@')
@@ -298,6 +300,8 @@ func encodeSymbol(name string) (six []byte, err error) {
 		case '5' <= ch && ch <= '9':
 			value = value<<6 + 0x3b + uint64(ch-'5')
 			bits += 6
+		default:
+			return nil, fmt.Errorf("invalid Super-Mon symbol %q: only letters and digits are allowed", name)
 		}
 		if bits > 48 {
 			return nil, fmt.Errorf("invalid Super-Mon symbol %q: too long", name)
-- 
2.43.0


From ef866351a7cc58788bb248ae81cd25f0f8f3fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:48 +0000
Subject: [PATCH 14/25] fix: supermon: accept valid bare names in
 ParseCompoundSymbol, not invalid ones

The test was inverted.
---
 supermon/supermon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index cda5cd2..b489d6c 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -586,8 +586,7 @@ func (st SymbolTable) ParseCompoundSymbol(name string) (address uint16, symAddre
 			return uint16(addr), 0, "", nil
 		}
 		// If it's a valid symbol name, assume that's what it is.
-		if _, err := encodeSymbol(name); err != nil {
-			//nolint:nilerr
+		if _, err := encodeSymbol(name); err == nil {
 			return 0, 0, name, nil
 		}
 		return 0, 0, "", fmt.Errorf("%q is not a valid symbol name or address", name)
-- 
2.43.0


From c03eb14fade7aed61c73b6c7291a6851d73f87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:49 +0000
Subject: [PATCH 15/25] fix: supermon: report deleting an unknown symbol as not
 existing

Delete is documented to return false if the file did not exist; returning
an error made `rm -f` fail.
---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index b489d6c..8b5e39f 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -728,6 +728,9 @@ func (o Operator) GetFile(filename string) (types.FileInfo, error) {
 // deleted, false if it didn't exist.
 func (o Operator) Delete(filename string) (bool, error) {
 	file, err := o.ST.FileForName(filename)
+	if errors.IsFileNotFound(err) {
+		return false, nil
+	}
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 17f63e9c9f025e3def6d059e086068dc5c642cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:49 +0000
Subject: [PATCH 16/25] fix: supermon: leave the disk alone when PutFile or
 Delete fails

A full or unwritable symbol table was only noticed after the file's sectors
had been written or freed.
---
 supermon/supermon.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 8b5e39f..9e2f7ca 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -724,9 +724,26 @@ func (o Operator) GetFile(filename string) (types.FileInfo, error) {
 	return fi, nil
 }
 
+// undo returns a function that restores the disk, sector map and symbol table
+// to their current state if the pointed-to error is set.
+func (o Operator) undo(err *error) func() {
+	data := append([]byte(nil), o.data...)
+	sm := append(SectorMap(nil), o.SM...)
+	st := append(SymbolTable(nil), o.ST...)
+	return func() {
+		if *err != nil {
+			copy(o.data, data)
+			copy(o.SM, sm)
+			copy(o.ST, st)
+		}
+	}
+}
+
 // Delete deletes a file by name. It returns true if the file was
 // deleted, false if it didn't exist.
-func (o Operator) Delete(filename string) (bool, error) {
+func (o Operator) Delete(filename string) (existed bool, err error) {
+	defer o.undo(&err)()
+
 	file, err := o.ST.FileForName(filename)
 	if errors.IsFileNotFound(err) {
 		return false, nil
@@ -734,7 +751,7 @@ func (o Operator) Delete(filename string) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	existed := len(o.SM.SectorsForFile(file)) > 0
+	existed = len(o.SM.SectorsForFile(file)) > 0
 	o.SM.Delete(file)
 	if err := o.SM.Persist(o.data); err != nil {
 		return existed, err
@@ -754,6 +771,7 @@ func (o Operator) Delete(filename string) (bool, error) {
 // is false, it returns with an error. Otherwise it returns true if
 // an existing file was overwritten.
 func (o Operator) PutFile(fileInfo types.FileInfo, overwrite bool) (existed bool, err error) {
+	defer o.undo(&err)()
 	if fileInfo.Descriptor.Type != types.FiletypeBinary {
 		return false, fmt.Errorf("%s: only binary file type supported; got %q", operatorName, fileInfo.Descriptor.Type)
 	}
-- 
2.43.0


From 9b7803e3ae80aa7ad5fa9c1e6a19cccb8d2e9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:49 +0000
Subject: [PATCH 17/25] fix: mksd: check the load address, not the start
 address, against page 0xBF00

Binaries that fit were refused when started in their middle.
---
 cmd/sd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/sd.go b/cmd/sd.go
index 6edca56..45a2fe0 100644
--- a/cmd/sd.go
+++ b/cmd/sd.go
@@ -59,10 +59,10 @@ func (s *SDCmd) Run(globals *types.Globals) error {
 			s.Start, s.Start, s.Address, s.Address, end, end)
 	}
 
-	if int(s.Start)+len(contents) > 0xC000 {
-		end := int(s.Start) + len(contents)
-		return fmt.Errorf("start address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
-			s.Start, s.Start, len(contents), len(contents), end, end)
+	if int(s.Address)+len(contents) > 0xC000 {
+		end := int(s.Address) + len(contents)
+		return fmt.Errorf("load address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
+			s.Address, s.Address, len(contents), len(contents), end, end)
 	}
 
 	sectors := (len(contents) + 255) / 256
-- 
2.43.0


From 91adf5ff3109d1bd58782618f68666bacc27013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:50 +0000
Subject: [PATCH 18/25] fix: types: refuse the empty filetype name

It matched the missing three-letter name of Typeless.
---
 types/filetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/filetype.go b/types/filetype.go
index 0490c5d..024f4ab 100644
--- a/types/filetype.go
+++ b/types/filetype.go
@@ -179,6 +179,9 @@ func (f Filetype) String() string {
 // FiletypeForName returns the filetype for a full, three-letter, or
 // one-letter name for a Filetype.
 func FiletypeForName(name string) (Filetype, error) {
+	if name == "" {
+		return 0, fmt.Errorf("empty Filetype name")
+	}
 	for _, info := range filetypeInfos {
 		if info.Name == name || info.ThreeLetter == name || info.OneLetter == name {
 			return info.Type, nil
-- 
2.43.0


From 9ce9787c5f99fb43ac6950172d088ecd5893927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:50 +0000
Subject: [PATCH 19/25] fix: cmd: report errors writing to standard output

ls, filetypes and applesoft decode ignored them and exited successfully.
---
 cmd/applesoft.go | 6 +++---
 cmd/catalog.go   | 7 +++++--
 cmd/filetypes.go | 3 +--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmd/applesoft.go b/cmd/applesoft.go
index 321f65a..4547b7b 100644
--- a/cmd/applesoft.go
+++ b/cmd/applesoft.go
@@ -42,9 +42,9 @@ func (d *DecodeCmd) Run(globals *types.Globals) error {
 		return err
 	}
 	if d.Raw {
-		_, _ = os.Stdout.WriteString(listing.String())
+		_, err = os.Stdout.WriteString(listing.String())
 	} else {
-		_, _ = os.Stdout.WriteString(basic.ChevronControlCodes(listing.String()))
+		_, err = os.Stdout.WriteString(basic.ChevronControlCodes(listing.String()))
 	}
-	return nil
+	return err
 }
diff --git a/cmd/catalog.go b/cmd/catalog.go
index 84b2d15..78b9b3c 100644
--- a/cmd/catalog.go
+++ b/cmd/catalog.go
@@ -50,9 +50,12 @@ func (l *LsCmd) Run(globals *types.Globals) error {
 	}
 	for _, fd := range fds {
 		if !l.ShortNames && fd.Fullname != "" {
-			fmt.Println(fd.Fullname)
+			_, err = fmt.Println(fd.Fullname)
 		} else {
-			fmt.Println(fd.Name)
+			_, err = fmt.Println(fd.Name)
+		}
+		if err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/cmd/filetypes.go b/cmd/filetypes.go
index c39b03e..bb721fe 100644
--- a/cmd/filetypes.go
+++ b/cmd/filetypes.go
@@ -23,6 +23,5 @@ func (f *FiletypesCmd) Run(globals *types.Globals) error {
 	for _, typ := range types.FiletypeInfos(f.All) {
 		fmt.Fprintf(w, "%s\t%s\t%s\t%s\n", typ.Desc, typ.Name, typ.ThreeLetter, typ.OneLetter)
 	}
-	_ = w.Flush()
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 4e4de32ac1d41f31a5055ca7fb59cbe845a3d991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:50 +0000
Subject: [PATCH 20/25] fix: applesoft: correct the keywords of tokens B8 (DEF)
 and C0 (TAB()

FN has its own token, which follows DEF, so DEF FN A was listed as
DEF FN FN A; the opening parenthesis is part of TAB(.
---
 basic/applesoft/applesoft.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index d134c72..dfbd131 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -67,7 +67,7 @@ var TokensByCode = map[byte]string{
 	0xB5: "WAIT",
 	0xB6: "LOAD",
 	0xB7: "SAVE",
-	0xB8: "DEF FN",
+	0xB8: "DEF",
 	0xB9: "POKE",
 	0xBA: "PRINT",
 	0xBB: "CONT",
@@ -75,7 +75,7 @@ var TokensByCode = map[byte]string{
 	0xBD: "CLEAR",
 	0xBE: "GET",
 	0xBF: "NEW",
-	0xC0: "TAB",
+	0xC0: "TAB(",
 	0xC1: "TO",
 	0xC2: "FN",
 	0xC3: "SPC(",
-- 
2.43.0


From b592f806e7d1736cf0e7097f1773dff143a720d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:00 +0000
Subject: [PATCH 21/25] fix: dos3: clear the high bits of file names instead of
 subtracting them

Characters stored with the high bit clear (inverse and flashing names) came out
with it set.
---
 dos3/dos3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index cad6305..e1cbac5 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -351,7 +351,7 @@ func (fd *FileDesc) FilenameString() string {
 		slice = append(slice, fd.Filename[:]...)
 	}
 	for i := range slice {
-		slice[i] -= 0x80
+		slice[i] &= 0x7f
 	}
 	return strings.TrimRight(string(slice), " ")
 }
-- 
2.43.0


From 041b255ec0754fe96ee9fbf100f0c326cb430ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:13 +0000
Subject: [PATCH 22/25] fix: applesoft: decode programs located at address 0
 instead of listing nothing

---
 basic/applesoft/applesoft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index dfbd131..b637508 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -149,7 +149,7 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	listing := []Line{}
 	last := 0 // last line number
 	next := int(location)
-	for next != 0 {
+	for {
 		ofs := calcOffset(next)
 		if ofs < 0 || ofs+1 >= len(raw) {
 			return nil, fmt.Errorf("line %d has next line at $%X, which is outside the input range of %s", last, next, bounds)
-- 
2.43.0


From a48b9765ec880387f1c81e7ddbcce15a2283ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:35 +0000
Subject: [PATCH 23/25] fix: applesoft: token CC is ^, not ;

---
 basic/applesoft/applesoft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index b637508..1af15ca 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -87,7 +87,7 @@ var TokensByCode = map[byte]string{
 	0xC9: "-",
 	0xCA: "*",
 	0xCB: "/",
-	0xCC: ";",
+	0xCC: "^",
 	0xCD: "AND",
 	0xCE: "OR",
 	0xCF: ">",
-- 
2.43.0


From 97784168cd823ceb17e39381229898c44d65a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:53 +0000
Subject: [PATCH 24/25] fix: ProDOS timestamps hold the minute first, then the
 hour

DateTime.Validate took the first time byte for the hour and the second for the
minute, so it found fault with valid entries (such as BASIC.SYSTEM's 07:56 on
ProDOS 2.4.2) and none with minutes of 60 and more in entries of the small hours.
---
 prodos/prodos.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 83811bf..5f4e0e9 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -154,11 +154,11 @@ func (dt *DateTime) fromBytes(b []byte) {
 
 // Validate checks a DateTime for problems, returning a slice of errors.
 func (dt DateTime) Validate(fieldDescription string) (errors []error) {
-	if dt.HM[0] >= 24 {
-		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, dt.HM[0]))
+	if dt.HM[1] >= 24 {
+		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, dt.HM[1]))
 	}
-	if dt.HM[1] >= 60 {
-		errors = append(errors, fmt.Errorf("%s expects minute<60; got %x", fieldDescription, dt.HM[1]))
+	if dt.HM[0] >= 60 {
+		errors = append(errors, fmt.Errorf("%s expects minute<60; got %x", fieldDescription, dt.HM[0]))
 	}
 	return errors
 }
-- 
2.43.0


From 590beca6ba63e4c146e4a44bd2c6d52e64e9275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 25/25] fix: prodos: a blank block is not a volume directory,
 so blank NakedOS disks in ProDOS order are found

---
 prodos/prodos.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 5f4e0e9..fe09324 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -964,9 +964,10 @@ func (of OperatorFactory) Name() string {
 // SeemsToMatch returns true if the []byte disk image seems to match the
 // system of this operator.
 func (of OperatorFactory) SeemsToMatch(devicebytes []byte, debug int) bool {
-	// For now, just return true if we can run Catalog successfully.
-	_, err := readVolume(devicebytes, 2, debug)
-	return err == nil
+	// For now, just return true if we can run Catalog successfully, on
+	// what is marked as a volume directory.
+	v, err := readVolume(devicebytes, 2, debug)
+	return err == nil && v.keyBlock.Header.TypeAndNameLength>>4 == 0xF
 }
 
 // Operator returns an Operator for the []byte disk image.
-- 
2.43.0

