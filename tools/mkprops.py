#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts is this file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Sector reordering is an exact, reversible permutation",
 "Converting a 143,360-byte floppy image between DOS (do), ProDOS (po) and physical (raw) sector order moves every 256-byte sector, within its own track, to the position the documented interleave table gives it, changes no byte, and leaves the input untouched; converting back restores the original. An ordering that is not a permutation of 0-15 and an image of any other size are refused. The reorder command does exactly this between the orders its flags and file extensions imply: an explicit order wins, a missing one is the opposite of the known one, and equal or undeterminable orders are refused.",
 ["inputs", "configurations"], "Every track, sector, byte position and byte value; every pair of orders; every combination of order flags, extensions and target file state; every image size and every malformed ordering in the bound.",
 "No test touches reordering except by loading one fixture in one direction; nothing compares all 560 sector positions, other directions, refusals, or the reorder command.",
 ["disk/disk.go", "disk/open.go", "cmd/reorder.go"],
 [("interleave tables", "disk/disk.go"), ("Swizzle / validateOrder", "disk/open.go"), ("getOrders", "cmd/reorder.go")],
 observe=["bytes returned by disk.Swizzle", "file written by the reorder command"])

prop("C02", "Opening an image and writing it back preserves every byte",
 "When a floppy or .hdv image is opened with some order and system, the logical view presented is exactly the file's sectors in that system's own logical order (.hdv images are not reordered), and the caller's bytes are not modified. Writing the unmodified view back in the reported order reproduces the original file exactly; writing it in the other floppy order produces exactly the reordered image. Images of unsupported size or extension and unsupported order/system combinations are refused.",
 ["inputs", "configurations"], "Every image content in the alphabet, every order flag, system, extension and device size.",
 "Tests open one NakedOS fixture and never write an image back; data-dependent or order-dependent loss is never observed.",
 ["disk/open.go", "helpers/helpers.go", "dos3/dos3.go", "prodos/prodos.go", "supermon/supermon.go"],
 [("OpenImage/openDoOrPo/openHDV double swizzle", "disk/open.go"), ("WriteBack inverse swizzle", "disk/open.go")],
 observe=["Operator.GetBytes", "file written by WriteBack"])

prop("C03", "Automatic detection opens a disk with its own system and order",
 "An explicitly given order and system are always honoured, or opening is refused, and the extensions .do and .po fix the order. With everything automatic, a valid DOS 3.3, NakedOS or ProDOS disk stored in the order its .do or .po extension announces, and one stored in DOS order with extension .dsk or none, is opened as that system and that order. Those last extensions leave the order open: a NakedOS disk is then found in either order (unless its own data also read as another system), and no valid disk is refused because of the order it is stored in. With the system automatic, an image is never reported as DOS 3.3 when its DOS volume table is invalid, nor as NakedOS when its sector map lacks the reserved entries or holds a zero.",
 ["inputs", "configurations"], "Every combination of system, stored order, order flag, system flag, extension (upper and lower case), registered system list order; every single-byte corruption of the recognised structures.",
 "Only one system/order/extension combination is opened by the tests, always with the system given and a single registered system.",
 ["disk/open.go", "dos3/dos3.go", "supermon/supermon.go", "prodos/prodos.go"],
 [("order/ext switch and factory loop", "disk/open.go"), ("SeemsToMatch", "dos3/dos3.go, supermon/supermon.go, prodos/prodos.go"), ("VTOC.Validate, SectorMap.Verify", "dos3/dos3.go, supermon/supermon.go")],
 observe=["operator name and order returned by OpenImage"])

prop("C04", "NakedOS put, get, list and delete act as one named file store",
 "Over any history of put, get, list, delete and reopen on a NakedOS disk (symbol-table files 3 and 4 aside), getting a file by number or by symbol returns exactly the bytes last put there, zero-padded to whole sectors, the listing shows exactly the stored files in order of file number with their sizes and one of their names, and put and delete report truthfully whether the file existed. A put to an existing file without overwrite is refused as file-exists, one that does not fit as out-of-space, and an empty, wrongly typed or wrongly named file is refused; a file put under a fresh symbol takes the lowest unused file number. Closing and reopening the image at any point changes none of this.",
 ["histories", "inputs"], "Every operation sequence up to the depth bound over a colliding set of names, sizes and flags, from near-empty, nearly full, fragmented, symbol-less and real disks; every file number; every file length class.",
 "One put followed by one listing and one get of one fixture file are tested; overwrite, delete, reopen, exhaustion, moved symbols and their combinations are not.",
 ["supermon/supermon.go", "errors/errors.go", "types/ops.go"],
 [("Operator.PutFile/GetFile/Delete/Catalog", "supermon/supermon.go"), ("SectorMap.WriteFile/ReadFile/Delete/Persist", "supermon/supermon.go")],
 state=[("sector map", "owner file of each of the 560 sectors", "T0S9[D0:],T0SA,T0SB"), ("symbol table", "name to address entries in files 3 and 4", "supermon.SymbolTable")],
 observe=["types.Operator methods on the live and on a freshly reopened operator"])

prop("C05", "NakedOS writes stay inside their own sectors and refusals change nothing",
 "A put or delete on a NakedOS disk alters only the sector map, sectors that were free or belonged to the file being replaced, and, when a symbol changes, the symbol-table files; every sector of every other file and every reserved sector keeps its owner and its bytes. After every operation the on-disk sector map agrees with the operator's view, each file owns exactly as many sectors as its length needs, and every other sector is free or still reserved. An operation that returns an error leaves the whole disk image byte-identical.",
 ["histories", "inputs", "fault_sequences"], "Every operation sequence up to the depth bound (including refused operations and exhaustion of sectors, file numbers and symbol slots); every position of the free sectors on the disk.",
 "No test looks at sectors other than the file's own, at a refused operation, or at a full disk.",
 ["supermon/supermon.go", "disk/marshal.go"],
 [("SectorMap.WriteFile space check before mutation", "supermon/supermon.go"), ("PutFile validation before writing", "supermon/supermon.go"), ("Persist", "supermon/supermon.go")],
 observe=["Operator.GetBytes before and after", "independent decode of the on-disk sector map"])

prop("C06", "The symbol table stays consistent over every add/delete history",
 "Over any history of adding, re-pointing and deleting symbols and writing and re-reading the table, the table maps each name (ignoring case) to the address last given to it and holds nothing else, and untouched symbols are unaffected. Chain links always point at a live symbol with the same hash, never form a cycle, and symbols with equal hash that formed one chain still form one chain. The table can always be written and read back with the same names, addresses and chains; adding to a full table is refused and changes nothing.",
 ["histories"], "All reachable states of small tables under add/delete/reload with colliding names and hashes (including hash zero and slot zero), from empty and from linked starting tables; every address value; tables filled to capacity.",
 "The one round-trip test reads and rewrites a single table without changing it; no test deletes, re-points or collides symbols.",
 ["supermon/supermon.go"],
 [("AddSymbol/DeleteSymbol link maintenance", "supermon/supermon.go"), ("ReadSymbolTable/WriteSymbolTable", "supermon/supermon.go")],
 state=[("Symbol.Link", "index of next symbol with the same hash, -1 for none", "supermon.Symbol")],
 observe=["ByName, SymbolsForAddress, SymbolsByAddress, table entries before and after reload"])

prop("C07", "A symbol name is stored exactly or refused",
 "A Super-Mon symbol name of 3 to 9 letters and digits that fits in 48 bits (5 per letter, 6 per digit) survives being written to and read from disk exactly, upper-cased, whatever its characters. Every other non-empty name - too short, too long, or with any other character - is refused, both when the table is written and when a file is put under that name, and nothing is stored under a different name.",
 ["inputs"], "All names of length 3 and 4 over the full alphabet, all longer names over class-boundary characters, every byte value at every position.",
 "The test encodes eleven hand-picked names, all letters and digits.",
 ["supermon/supermon.go"],
 [("encodeSymbol/decodeSymbol", "supermon/supermon.go")],
 observe=["WriteSymbolTable followed by ReadSymbolTable", "PutFile and catalog after reopening"])

prop("C08", "NakedOS file names resolve by one rule everywhere",
 "A hexadecimal name whose value is 1-FD or DF01-DFFD names that file number; any other name names the file its symbol (ignoring case) points at, and is not found if there is no such symbol or it does not point at a file. Where a file is stored (put and mkhello), NUMBER:NAME names the file by its number and additionally the symbol; more than one colon, a non-number before the colon or a number after it is refused. The address form parses the same way into any 16-bit address, a known symbol taking precedence over a hexadecimal reading, and accepts a bare name exactly when it is a known symbol, a hexadecimal address or a storable symbol name.",
 ["inputs", "configurations"], "All hexadecimal strings up to four digits in both cases, all strings up to a length bound over a confusable alphabet, against tables with and without matching symbols.",
 "Tests use three literal names and never the compound or address forms.",
 ["supermon/supermon.go", "cmd/nakedos.go"],
 [("parseAddressFilename, FileForName, FilesForCompoundName, ParseCompoundSymbol", "supermon/supermon.go")],
 observe=["results of the three lookups, GetFile"])

prop("C09", "The DOS 3.3 catalog lists exactly the live files",
 "For every well-formed DOS 3.3 disk, listing returns exactly the entries that are neither deleted nor never used, in catalog order along the whole catalog chain, each with its name (high bits and trailing blanks removed), file type, lock state and sector count; deleted entries are reported separately. This holds for any chain length and placement, any mix of entry states, any volume number and any free-sector map.",
 ["inputs"], "Every chain length and placement, every mix of live/deleted/unused entries in a sector, every value of each entry byte.",
 "One fixture catalog is read and only names are compared.",
 ["dos3/dos3.go"],
 [("readCatalogSectors, ReadCatalog", "dos3/dos3.go"), ("FileDesc.Status/FilenameString/descriptor", "dos3/dos3.go")],
 observe=["Operator.Catalog, dos3.ReadCatalog"])

prop("C10", "DOS 3.3 file contents come back exactly",
 "Getting a file from a well-formed DOS 3.3 disk returns exactly its bytes: the sectors named by its chain of track/sector lists in order, holes reading as zeros; a text file loses only its trailing zero bytes, a BASIC or binary file is exactly as long as its stored length, and a binary file also yields its load address. This holds for every length including empty, every layout of the sectors and lists, and every file in the catalog; a missing name is an error, and a stored length longer than the file's sectors is an error.",
 ["inputs"], "Every file length modulo sector size and around list boundaries, every pattern of holes in small files, every placement of lists and sectors in the bound, every load address, every file position in the catalog.",
 "No test reads a DOS 3.3 file.",
 ["dos3/dos3.go", "disk/marshal.go"],
 [("FileDesc.Contents", "dos3/dos3.go"), ("operator.GetFile", "dos3/dos3.go")],
 observe=["Operator.GetFile"])

prop("C11", "ProDOS listings show exactly each directory's live entries",
 "For every well-formed ProDOS floppy or device image, listing the volume or a subdirectory by its path (components joined with /) returns exactly the non-deleted entries of that directory, in order over all its blocks, with name, type, length and block count; a path that does not exist is an error. This holds for any nesting, any number of directory blocks and any position of a subdirectory's entry in its parent, including parent references to any block of the parent.",
 ["inputs"], "All directory trees up to the bound, every position of the entry in the parent chain, every entry byte value, floppy and .hdv sizes.",
 "Only block-level struct round trips on random bytes are tested; no volume is ever read.",
 ["prodos/prodos.go", "disk/marshal.go"],
 [("readVolume, readSubdirectory, parentDirName", "prodos/prodos.go"), ("FileDescriptor.descriptor/Name/Type", "prodos/prodos.go")],
 observe=["Operator.Catalog"])

prop("C12", "On-disk structures decode per the documented layout and round-trip",
 "Decoding any sector or block as a DOS 3.3 volume table, catalog sector or track/sector list, or as a ProDOS volume or subdirectory block, yields in each field exactly the bytes at its documented offset and byte order, and encoding it again gives back the identical bytes. The free-sector bitmap marks sector s of a track free exactly when its documented bit is set, and inputs of the wrong size are refused.",
 ["inputs"], "Every byte position with every byte value over several backgrounds; every input size in the bound; every field.",
 "The round-trip tests use random blocks, so they sample values, and they cannot see two fields exchanged consistently in both directions.",
 ["dos3/dos3.go", "prodos/prodos.go"],
 [("FromSector/ToSector", "dos3/dos3.go"), ("FromBlock/ToBlock, toBytes/fromBytes", "prodos/prodos.go")],
 observe=["exported struct fields, ToSector/ToBlock output"])

prop("C13", "ProDOS free-block bitmaps and index blocks act as exact maps",
 "A new volume bitmap for n blocks reports every block 0 to n-1 free; marking a block used or unused changes what is reported for that block and no other, over any sequence of marks, and writing the bitmap stores the documented one-bit-per-block, most-significant-bit-first layout in consecutive blocks and changes nothing else on the device. An index block returns for each of its 256 slots the 16-bit block number last stored there, low and high bytes in separate halves.",
 ["inputs", "histories"], "Every block number of volumes up to 65,535 blocks, all mark sequences on small volumes, every slot and every 16-bit value of an index block.",
 "No test touches bitmaps or index blocks.",
 ["prodos/prodos.go"],
 [("NewVolumeBitMap, mark, IsFree, Write", "prodos/prodos.go"), ("IndexBlock.Get/Set", "prodos/prodos.go")],
 observe=["IsFree, bytes written to the device, Get"])

prop("C14", "No DOS 3.3 image can crash or hang the tool",
 "For every 143,360-byte image, however damaged its volume table, catalog chain, file entries, track/sector lists or file headers, opening it as DOS 3.3, detecting it, listing it and getting any listed file each finish with a result or an error; none panics, loops forever or grows without bound, and none modifies the image.",
 ["inputs"], "Every value of every structural byte, all pointer graphs among a small set of catalog and list sectors, all header/length combinations in the bound.",
 "Tests read one valid image; termination and absence of panics are claims about all byte strings.",
 ["dos3/dos3.go", "disk/marshal.go", "disk/open.go"],
 [("seen-sector check in the catalog and list walks", "dos3/dos3.go"), ("ReadSector bounds check", "disk/marshal.go"), ("length checks in GetFile", "dos3/dos3.go")],
 observe=["return of OpenImage/Catalog/GetFile"])

prop("C15", "No ProDOS image can crash or hang the tool",
 "For every floppy or .hdv image, however damaged its directory blocks, links, key pointers or parent pointers, opening it as ProDOS, detecting it and listing the volume and any path each finish with a result or an error; none panics, loops forever, exhausts the stack or grows without bound, none modifies the image, and repeating the listing gives the same answer.",
 ["inputs"], "All link/key/parent pointer graphs over a small set of directory blocks, every value of every structural byte, truncated devices.",
 "No test reads a volume; cyclic directory structures need inputs no fixture contains.",
 ["prodos/prodos.go", "disk/marshal.go"],
 [("directory chain walk", "prodos/prodos.go readVolume/readSubdirectory"), ("parentDirName", "prodos/prodos.go")],
 observe=["return of OpenImage/Catalog"])

prop("C16", "No NakedOS image or request can crash or hang the tool",
 "For every 143,360-byte image, however damaged its sector map or symbol table, and every file name and contents (including empty), opening it as NakedOS, listing, getting, putting and deleting each finish with a result or an error; none panics, loops forever or grows without bound.",
 ["inputs", "histories"], "Every value of every sector-map byte class and symbol-table byte, missing or short table files, followed by every operation with a confusable set of names and sizes.",
 "Tests run two operations on one valid image.",
 ["supermon/supermon.go"],
 [("Verify/ReadSymbolTable validation", "supermon/supermon.go"), ("WriteFile sizing", "supermon/supermon.go")],
 observe=["return of OpenImage and Operator methods"])

prop("C17", "No byte string can crash or hang the BASIC decoders",
 "For every byte string and every start address, decoding it as an Applesoft or Integer BASIC program and rendering the listing finishes with a listing or an error, never a panic, an endless loop or unbounded growth.",
 ["inputs"], "All byte strings up to a length bound over the full alphabet, longer ones over a structural alphabet, every single-byte change of valid programs, all line-link graphs over small programs.",
 "One valid Applesoft program is decoded; the Integer BASIC test is skipped.",
 ["basic/applesoft/applesoft.go", "basic/integer/integer.go", "basic/basic.go"],
 [("offset checks in Decode", "basic/applesoft/applesoft.go, basic/integer/integer.go")],
 observe=["return of Decode and String"])

prop("C18", "Applesoft listings reproduce the program exactly",
 "For every well-formed tokenised Applesoft program, at any load address and with or without the two-byte length prefix and the stray trailing byte DOS adds (unless an unprefixed program's own first two bytes read as that length), the listing has one line per program line in order, with its line number, every literal character verbatim and every token byte as its Applesoft keyword; bytes that are no Applesoft token are an error. Escaping for display shows each control character (codes 00 to 1F) except newline and tab as a visible code and leaves everything else unchanged.",
 ["inputs"], "Every token and character alone and in all pairs, every line number, every load address, line counts and lengths up to the bound, all prefix forms, every byte through the escaper.",
 "One ten-line program using eight of the 107 tokens is decoded.",
 ["basic/applesoft/applesoft.go", "basic/basic.go"],
 [("TokensByCode, Decode, Line.String", "basic/applesoft/applesoft.go"), ("ChevronControlCodes", "basic/basic.go")],
 observe=["Listing, Listing.String, ChevronControlCodes"])

prop("C19", "Integer BASIC listings reproduce the program",
 "For every well-formed tokenised Integer BASIC program, with or without its length prefix and then the stray trailing byte DOS adds (unless an unprefixed program's own first two bytes read as that length), the listing has one line per program line in order with its line number, and apart from blanks around keywords shows every token as its keyword, every integer constant in decimal, every name, string literal and remark verbatim. Decoding keeps every line's number and bytes exactly.",
 ["inputs"], "Every token and character alone and in all pairs, every 16-bit constant and line number, every line length, constants inside and outside strings and names.",
 "The package's only test is skipped.",
 ["basic/integer/integer.go"],
 [("TokensByCode, Decode, Line.String", "basic/integer/integer.go")],
 observe=["Listing, Listing.String"])

prop("C20", "A disk made by mksd boots: loads the binary exactly and starts it",
 "For every non-empty binary, page-aligned load address from 0900 up and start address inside the binary for which everything fits below C000 and in 176 sectors, mksd succeeds and booting the image from slot 6 - in DOS or ProDOS order as chosen by flag or extension - places exactly the binary at its load address, leaves memory past its last page and before its first page alone, and jumps to the start address. A binary that is empty or does not fit, a load address that is not page-aligned and a start address outside the binary are refused without writing the image.",
 ["inputs", "configurations"], "Every sector count, length class, load page and start class in the bound, both orders, all extensions; the image is executed on a 6502 and disk-ROM model, not compared with a fixed byte pattern.",
 "mksd has no test at all.",
 ["cmd/sd.go", "disk/disk.go", "disk/open.go"],
 [("SDCmd.Run sector interleave and loader table", "cmd/sd.go")],
 observe=["memory and program counter of the booted model", "image file"])

prop("C21", "A refused command leaves every file as it was",
 "Whenever a command exits with an error because its request is refused - unknown or malformed image, unsupported operation, bad name, type or address, missing file, existing file without overwrite, existing output without force, no space - no file it was given is modified, created or removed. Reading commands (ls, dump, decode, filetypes) never modify any file. An existing output file is replaced only in place of the command's own image or when forcing is asked for (mksd always replaces its output).",
 ["inputs", "configurations", "histories"], "Every command with every combination of flags over a set of good, foreign, damaged and missing files.",
 "No test runs a command.",
 ["cmd/put.go", "cmd/delete.go", "cmd/nakedos.go", "cmd/reorder.go", "cmd/sd.go", "cmd/catalog.go", "cmd/dump.go", "helpers/helpers.go"],
 [("write only after success", "cmd/*.go"), ("WriteOutput existence check", "helpers/helpers.go")],
 observe=["directory contents before and after each command", "exit status"])

prop("C22", "Commands have exactly the effect of their operation on the image file",
 "On a NakedOS image in either order, put, rm and nakedos mkhello leave in the image file exactly the disk the corresponding operation produces, in the order the file had, so that a later ls or dump shows it; rm of a missing file fails unless -f is given and then changes nothing. mkhello stores a program that loads the named file at the given page-aligned address and jumps to the start address (the load address by default), and refuses other addresses and disks. dump writes exactly the file's bytes and ls exactly the listing's names, in order.",
 ["histories", "inputs", "configurations"], "Every command sequence up to the depth bound over both orders, auto and explicit flags, a colliding set of names, every load page and file number for mkhello.",
 "No test runs a command.",
 ["cmd/put.go", "cmd/delete.go", "cmd/nakedos.go", "cmd/dump.go", "cmd/catalog.go", "cmd/applesoft.go", "main.go", "disk/open.go"],
 [("Run methods", "cmd/*.go"), ("WriteBack", "disk/open.go")],
 observe=["image file, standard output and exit status of the command"])

prop("C23", "File type names and codes correspond one to one",
 "Every file type listed by the tool can be named by its full name and by each abbreviation among its usable names and then resolves to that same type; the ProDOS type byte of each documented type is as documented, every documented or reserved code has a description, and unknown or empty names are refused. The short list is exactly the full list without the types marked extra (those that are SOS-only, user-defined or reserved), in the same order.",
 ["inputs"], "All type codes, all names and abbreviations in the list, all strings up to a length bound that are not in it.",
 "The table has no test.",
 ["types/filetype.go", "cmd/filetypes.go"],
 [("filetypeInfos, init, FiletypeForName, FiletypeInfos", "types/filetype.go")],
 observe=["FiletypeForName, String, FiletypeInfos, filetypes output"])

prop("C24", "Sector and block access touches exactly the addressed bytes",
 "Reading sector (t, s) or block b of an image returns a private copy of exactly its 256 or 512 bytes; writing changes exactly those bytes; an address beyond the end of the image, or data of the wrong size, is refused and changes nothing. Loading a structure from a sector or block and storing it back goes to the same place.",
 ["inputs"], "Every track, sector and block number, every image size class, every data size in the bound.",
 "Only exercised through one fixture.",
 ["disk/marshal.go"],
 [("ReadSector/WriteSector/(Un)MarshalLogicalSector/(Un)MarshalBlock", "disk/marshal.go")],
 observe=["returned data and image bytes"])

prop("C25", "Failed input or output is never reported as success",
 "If any part of a command's input cannot be read, or any part of its result - the image file it rewrites or creates, or what it prints on standard output - cannot be written because the file system or output refuses or truncates a call at any point, the command exits with an error; with no fault it succeeds with the complete output. Reading its input in pieces of any size makes no difference.",
 ["fault_sequences", "configurations"], "Every command, with the output cut off after every byte count in the bound, every system call on its files failing in turn, missing or unwritable targets, and every chunking of piped input in the bound.",
 "No test runs a command, let alone with a failing output.",
 ["helpers/helpers.go", "cmd/applesoft.go", "cmd/catalog.go", "cmd/dump.go", "cmd/filetypes.go", "cmd/reorder.go", "cmd/put.go", "cmd/sd.go", "disk/open.go"],
 [("error returns of WriteOutput and stdout writes", "helpers/helpers.go, cmd/*.go")],
 observe=["command error", "bytes that reached the output"])

prop("C26", "Structure validation finds exactly the documented faults",
 "A DOS 3.3 volume table, a NakedOS sector map, and a ProDOS timestamp, file entry, directory header or directory block is reported as faulty exactly when one of its documented invariants is broken, wherever in the structure it is. DOS: volume not 255, release 3, 122 pairs per list, direction +1 or -1, 35 tracks, 13 or 16 sectors, 256 bytes, unused map bytes zero. NakedOS: the first twelve sectors reserved, no zero entry. ProDOS: minute (first time byte) below 60 and hour below 24 in every timestamp checked, last byte of a block zero, no previous block for a key block, 75 after a subdirectory header's name. The default DOS volume table is valid and has exactly the 35 x 16 sectors of the disk free.",
 ["inputs"], "Every value of every byte of every structure over three backgrounds and every pair of constrained bytes; all 65536 times.",
 "No test calls a validator on faulty input.",
 ["dos3/dos3.go", "prodos/prodos.go", "supermon/supermon.go"],
 [("VTOC.Validate, DefaultVTOC", "dos3/dos3.go"), ("Validate methods", "prodos/prodos.go"), ("SectorMap.Verify", "supermon/supermon.go")],
 observe=["Validate/Verify results", "default table bytes"])

prop("C27", "Command lines mean what they say",
 "A number given to an address, start or location flag may be written in decimal, hexadecimal (0x), octal (0 or 0o) or binary (0b) and is taken as exactly that 16-bit value; anything else - out of range, negative, empty, with other text - is refused and changes no file. Omitted flags mean their documented defaults (address 6000, start at the address, location 801, type binary, automatic order and system, standard input for decode). Every documented alias and short or long flag form, before or after the arguments, makes the same request; unknown commands, flags and values and missing or extra arguments are refused and change no file.",
 ["configurations", "inputs"], "Numbers in all spellings, every flag form alone and in pairs, every alias, in the bound, on the built tool.",
 "No runnable test uses the command line.",
 ["main.go", "cmd/put.go", "cmd/sd.go", "cmd/nakedos.go", "cmd/applesoft.go", "cmd/catalog.go", "cmd/delete.go", "cmd/dump.go", "cmd/reorder.go", "cmd/filetypes.go"],
 [("cli, hexUint16Mapper", "main.go"), ("kong tags of the commands", "cmd/*.go")],
 observe=["exit status, output and files of the tool compared with the same request in process"])

prop("C28", "The same request on the same files always has the same result",
 "What a command or an operator does depends only on its arguments and the files and image it is given: repeated, or made after any other requests on the same or other images in the same process, it gives the same output (the same listing in the same order, the same names chosen for files with several), the same success or refusal and the same bytes. Two images open at once never disturb each other, and looking at an image changes no later answer about it.",
 ["histories", "schedules"], "Every ordered pair of requests over every pair of images, every interleaving of two operation pairs on two open images, every triple of readers, each request repeated, in the bound.",
 "Tests make each request once, so an order taken from a map, a shared buffer or a stale cache shows by chance or not at all.",
 ["cmd/put.go", "cmd/delete.go", "cmd/catalog.go", "cmd/dump.go", "cmd/reorder.go", "cmd/nakedos.go", "cmd/sd.go", "disk/open.go", "supermon/supermon.go", "dos3/dos3.go", "prodos/prodos.go", "types/filetype.go"],
 [("Run methods of the commands", "cmd/*.go"), ("Operator factories", "supermon/supermon.go, dos3/dos3.go, prodos/prodos.go"), ("OpenFile, OpenImage", "disk/open.go")],
 observe=["output, status and files of each request compared with the same request in a fresh process"])

prop("C29", "What a system does not support is refused and changes nothing",
 "Writing to and deleting from DOS 3.3 and ProDOS disks, reading file contents from ProDOS disks and from DOS 3.3 files other than text, BASIC and binary, making a NakedOS hello program on another system's disk, and ls of a directory of a DOS 3.3 or NakedOS disk are reported as errors, by the operators and by the commands that offer them, for every name, type, size and flag; none of them changes the image or any file.",
 ["inputs", "configurations"], "Every unsupported operation over every kind of disk, order, name class, type, size and flag in the bound, in process and with the built tool.",
 "No test asks for an unsupported operation.",
 ["dos3/dos3.go", "prodos/prodos.go", "supermon/supermon.go", "cmd/put.go", "cmd/delete.go", "cmd/dump.go", "cmd/nakedos.go", "cmd/catalog.go"],
 [("operator.PutFile/Delete/GetFile", "dos3/dos3.go, prodos/prodos.go"), ("LsCmd.Run, MkHelloCmd.Run", "cmd/catalog.go, cmd/nakedos.go")],
 observe=["errors, exit status, image bytes and files"])

prop("C30", "Asking for diagnostics changes nothing but standard error",
 "Giving -v (or --debug) any number of times, anywhere on the command line, or opening an image at any debug level, changes only what is written on standard error: the standard output, the files and whether the request succeeds are the same as without it, and every answer of an operator is the same. A command that fails says so on standard error and prints nothing on standard output.",
 ["inputs", "configurations"], "Every debug level and flag placement in the bound with every request on every kind of image, valid and damaged.",
 "No test sets a debug level.",
 ["main.go", "disk/open.go", "prodos/prodos.go", "dos3/dos3.go", "supermon/supermon.go", "cmd/catalog.go"],
 [("debug branches", "disk/open.go, prodos/prodos.go, cmd/catalog.go"), ("main", "main.go")],
 observe=["standard output, standard error, exit status and files of the tool; answers of the operators"])

prop("C31", "The order an image is stored in makes no difference",
 "A floppy image stored in DOS order and the same disk stored in ProDOS order, each opened in its own order (given by its extension or by flag), answer every ls, dump, put, rm and mkhello alike - same output, same success or refusal - and afterwards are still exact reorderings of each other, whatever the disk contains. Reordering the image at any point of a history of commands changes nothing else, a reordered copy shows the same files, and mksd makes the same disk in either order.",
 ["histories", "inputs", "configurations"], "Every single command and every pair of writing commands followed by reads, on disks of each system and damaged ones, in both orders, told by extension and flag, with a reorder inserted at every point.",
 "No test opens an image in ProDOS order.",
 ["disk/open.go", "disk/disk.go", "cmd/reorder.go", "cmd/put.go", "cmd/delete.go", "cmd/nakedos.go", "cmd/sd.go", "cmd/dump.go", "cmd/catalog.go"],
 [("openDoOrPo, Swizzle, WriteBack", "disk/open.go"), ("interleave tables", "disk/disk.go")],
 observe=["outputs, exit status and image bytes of the same history on both images"])

prop("C32", "Standard input and output stand in for files",
 "Wherever a command takes an image, a source, a binary or a program file, - means standard input, and wherever it writes an image, - means standard output. The request succeeds or is refused exactly as on a file of the same contents whose name has no extension, prints on standard output exactly the image that file would then hold (or the listing, file contents or program text it would print) and nothing else, prints nothing there when refused, and touches no file it was not asked to write. Pipes and redirected files make no difference; an image and a source cannot both come from standard input.",
 ["inputs", "configurations"], "Every command with each of its files replaced by standard input or output in turn, over disks of every system in both orders, damaged and odd-sized ones, every order flag, and sources of every small length.",
 "No test runs a command.",
 ["helpers/helpers.go", "disk/open.go", "cmd/put.go", "cmd/delete.go", "cmd/dump.go", "cmd/catalog.go", "cmd/nakedos.go", "cmd/reorder.go", "cmd/sd.go", "cmd/applesoft.go"],
 [("FileContentsOrStdIn, WriteOutput", "helpers/helpers.go"), ("OpenFilename, OpenFile, WriteBack", "disk/open.go")],
 observe=["standard output, exit status and files of the same request on files and on standard input and output"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
