# id -> (how it is decided / oracle, why tests cannot, trust and limits)
D = {}
D["C01"] = ("The oracle is the pair of interleave tables in the README, written down again as 16-entry arrays, applied to images in which every sector carries its own stamp. Exported conversion functions are called for every order pair and pattern; the `reorder` command runs (in process and as the built tool) in a directory that is compared whole with what the flags and extensions imply.",
 "a wrong table entry, a swapped direction or a tie-break between flag and extension shows only for particular orders and sectors.",
 "Sector *contents* are stamps under 256 patterns, so a data-dependent change of bytes is seen for every byte value but not for every combination.")
D["C02"] = ("Opens images through the real open path with real and synthetic operator factories (a synthetic one records the bytes it is given), compares the logical view with the independently reordered file, then writes back in both orders and compares with the file and the independent reorder. The caller's bytes are compared before and after.",
 "they open only files in one order.", "")
D["C03"] = ("A validity rule for the DOS volume table and the NakedOS sector map is written independently; for each enumerated disk x stored order x extension x flags x list of registered systems the rule and the precedence (explicit > extension > detection) predict the outcome. Every made-up disk is also tried with all it leaves unused holding every byte value, patterns and what each other disk held there (this found that a blank block passed for a ProDOS volume).",
 "detection is a search over orders and systems in list order, with early exits; only combinations expose a wrong precedence.",
 "Detection of images that are valid for two systems at once is not claimed (the statement is about what must not be reported).")
D["C04"] = ("A reference store (number -> bytes, name -> address, free set) runs in lockstep with the real operator over *every* history of put/get/list/delete/reopen up to the depth, on seven kinds of disk (fragmented, almost full, without symbol table, full symbol table, unwritable symbol table, nearly all file numbers used, real sample disks). After every operation the whole store is read back through the API, and after reopening.",
 "histories: overwrite after delete after reopen with a nearly full disk.", "Files 3 and 4 (the table itself) are excluded by the statement.")
D["C05"] = ("The same histories; the monitor is on the raw image: before/after diff on every transition, ownership from the raw sector map, byte-identity after every error.",
 "a put that fails after it has freed the old sectors only shows with an exact amount of free space.", "")
D["C06"] = ("Explicit-state search to a fixpoint over reachable tables of 1-4 (thorough 5) slots with an alphabet of colliding and non-colliding names; each state is the concrete table; a map model and chain invariants (live, same hash, acyclic, single chain) are evaluated on each state. Chains are also seeded in every order and interleaving. Full tables of 819 slots by linear histories and all link/address values.",
 "chain repair on delete depends on where in the chain the victim is, in which slots, and on what was deleted before.",
 "Small-scope argument for the fixpoint: the code treats slots uniformly apart from index arithmetic, which the all-links and all-addresses sections cover.")
D["C07"] = ("An independent encoder (5/6-bit groups, hash) decides storability and the bytes. Enumerates all short names, all names over end-of-class alphabets, every byte at every position.",
 "bit-packing errors are visible only for particular letter/digit patterns.", "")
D["C08"] = ("The resolution rule is restated independently over strings; every hexadecimal string, every short string over structural characters, every compound is put through the exported resolvers and, on disks where all files exist, through the operations.",
 "boundary numbers (FD/FE, DFFD/DFFE), leading zeros, case, symbol spelled like a number.", "")
D["C09"] = ("A DOS 3.3 builder written from *Beneath Apple DOS* lays out catalogs; the expected listing is known by construction.",
 "entry states in every slot, chains of any length and place.", "Well-formedness follows that book: name padded with blanks, type bits, track FF = deleted, 00 = never used.")
D["C10"] = ("The same builder lays out files: chains of lists, holes, typed headers, all lengths; the bytes expected are known by construction.",
 "the tests read one file.", "")
D["C11"] = ("A ProDOS builder written from *Beneath Apple ProDOS* lays out directory trees; expected listings by construction, for every path in the tree.",
 "directory entries in later blocks, parent references to later blocks, nested trees.", "")
D["C12"] = ("A table of (field, offset, width, byte order) per structure is compared with the decoded struct by filling one byte (or two) at a time with every value over six backgrounds; encode must give the bytes back.",
 "a field swapped with its neighbour looks right on a sample where both are zero.", "")
D["C13"] = ("Bit-set models of the bitmap and the index block in lockstep; all 2^12 states of a window under all marks at every place where the arithmetic changes (start, every map block boundary, end).",
 "boundaries at 4096-block multiples.", "Bitmaps as in the code: n is at most 65535.")
D["C14"] = ("Damaged disks: every assignment of the pointers that form the catalog and list graphs over a target set that includes every other node, itself, the volume table, data and out-of-range; every value of every structure byte. Monitor: panic, fatal error, CPU time, heap, image unchanged.",
 "cycles and shared structures are shapes no test builds.", "A hang is a call that takes more than 20 s of CPU (normal: milliseconds), confirmed by reruns.")
D["C15"] = ("As C14 for ProDOS: block links, key pointers, parent pointers, nesting, large devices; additionally the listing is repeated and must answer the same (map iteration order).",
 "the same.", "")
D["C16"] = ("As C14 for NakedOS, with writing operations: map bytes, table bytes, link graphs x operation pairs, names, contents.",
 "the same.", "")
D["C17"] = ("Byte strings: all to 3 bytes, structural ones to 6-9, all single changes of valid programs, all link graphs of four lines.",
 "the same.", "")
D["C18"] = ("Programs are built from a line model (number, bytes), with the Applesoft keyword table restated from the ROM listing; the expected listing is a string built from the model.",
 "every token, every pair of adjacent bytes, every load address, every storage form.", "The exact blanks around keywords are the tool's choice and are compared loosely where the statement leaves them open.")
D["C19"] = ("As C18 for Integer BASIC; blanks around keywords are ignored, everything else exact.", "the same.", "Token 79 (DSP/NODSP) differs between references; either spelling is accepted.")
D["C20"] = ("The produced image is *booted*: an independent 6502 interpreter with a model of the Disk II boot ROM contract (loads track 0 sector 0 to 0800, X = slot*16, 27/26 pointer, re-entry at C65C reading the sector in physical order) and of the phase-stepper loads it, until it jumps to the start address; memory is compared with the binary.",
 "loader self-modification, track steps and page arithmetic depend on size and address together.", "The boot model (P6 ROM contract and stepper) is trusted.")
D["C21"] = ("An effect model: each run happens in its own scratch directory that is snapshotted (names, modes, contents) before and after; error => identical, reading command => identical, and no replaced output without force.",
 "product of request errors with image kinds.", "")
D["C22"] = ("The command runs on an image file; the reference applies the reference store's operation on the independently reordered disk (through the C04/C05 model) and converts back; the two files are compared. mkhello's stored program is executed on the 6502 model with a NakedOS call trap.",
 "orders x flags x names x histories.", "")
D["C23"] = ("The documented type table restated; lookups by every short string and by every name and its single-character changes.", "all codes and names.", "")
D["C24"] = ("Slices of the image itself are the oracle; all addresses, all cut sizes, aliasing tested by changing what was returned.", "addresses beyond the end, copies.", "")
D["C25"] = ("Fault enumeration on the real commands: the file-size limit makes the write fail at every byte offset; full, closed and read-only outputs; every system call on the files failing in turn under strace; piped input in every piece size.",
 "no test injects a fault.", "Where strace is not permitted the system-call section notes it in its outcomes and is skipped; the other sections do not depend on it.")
D["C26"] = ("The invariants are restated over raw bytes; the structure is decoded by the code and its validator's verdict compared for every byte value, every pair of constrained bytes at limit values, all times; plus the default volume table and the sample disks.",
 "no test calls a validator on faulty input.", "Whether the tool *uses* a validator when listing is not part of this property (C03 covers detection).")
D["C27"] = ("The built tool is run with every spelling; a program that decodes at exactly one location shows which value a number was taken as; every alias and flag form is compared (exit status, output, whole directory) with the same request made in process.",
 "no runnable test touches the command line.", "Numbers with underscores (accepted by Go's parser) are not judged.")
D["C28"] = ("Each request is first made with the built tool in a fresh process; then, in one process, eight times over and after every other request on the same and on other images, and its output, status and the whole directory are compared with that. Two NakedOS operators open at once run every pair of operation pairs in every interleaving, and every triple of readers is asked forwards and backwards; each must end as it does alone.",
 "an order taken from a map, a shared buffer or a stale cache shows only in a repeat or after another request.", "Error messages may differ. diskii starts no goroutine, so interleavings are of calls, not of instructions. An order chosen at random among two is missed by eight repeats with probability 2^-8 per request; every request on every image repeats it.")
D["C29"] = ("Every unsupported operation is made on every kind of disk in both orders, with every name class, type, size and flag, through the operators, the commands and the built tool; each must be an error and leave every byte of image and directory as it was.",
 "no test asks for an unsupported operation.", "Should diskii learn one of these operations, the statement changes with it.")
D["C30"] = ("Every request of C28 and more is made on every image of C21 and every floppy at hand at debug levels 0 to 4, in process and through the built tool with the flags in each place; output, status and files must equal those without, failures must speak on standard error and leave standard output empty. The operators are asked the same questions at every level, on those disks, on catalogs and directories in every arrangement of C09 and C11, and with every structural byte damaged to a set of values (thorough: every value).",
 "no test sets a debug level.", "The wording of diagnostics is free.")
D["C31"] = ("Each history runs on the image stored in DOS order, and again in ProDOS order, by extension and by flag, left open (NakedOS) and reordered in place before each command in turn; outputs must be equal and the final images reorderings of each other by the oracle's own table. Blank and damaged floppies are included, since the claim does not depend on validity.",
 "no test opens an image in ProDOS order.", "")

D["C32"] = ("Each request runs twice with the built tool: on files without extension, and with the image, the source, the output or several of them as -; standard input and output alternate between pipes and redirected files. What is printed must be what the file holds (or the reading command prints), the status the same, and no other file may change. reorder runs through every pair of order flags with ten placements of -.",
 "no test runs a command at all.", "")
