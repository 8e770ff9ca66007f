#!/usr/bin/env python3
"""Writes tools/levels.json: technique and level note per property."""
import json, os
L = {}
def lv(i, technique, note, level="model_checking"):
    L[i] = dict(technique=technique, note=note, level=level)
X = "exhaustive bounded exploration of the real code"
lv("C01", X + " (orders x patterns x sectors; flag/extension/file-state combinations) against an independent interleave model",
   "All order pairs, 560 sectors, 256 stamp patterns, all transpositions and rotations, all single malformations in -300..300, all sizes to two disks, every flag/name/overwrite combination of reorder. Trusts the README tables.")
lv("C02", X + " (open/write-back over orders, extensions, systems, device sizes) against an independent interleave model",
   "256 patterns x orders x real and synthetic systems, each sector alone, device sizes, refusals. Byte values by XOR-shifted patterns.")
lv("C03", X + " (disk x order x extension x flags x registered systems; every value of every recognised byte) against an independent validity rule",
   "Valid disks are the builder's and the sample disks under every single-byte change of volume table and sector map and pairs of defects.")
lv("C04", "explicit-state exploration of all operation histories on the real operator in lockstep with a reference file-store model",
   "All put/get/list/delete/reopen histories over two alphabets to depth 2-4 (thorough +1) on seven kinds of disk, plus every file number, length and free sector. The model predicts success, refusal kind and contents; every state is compared through the API and after reopening.")
lv("C05", "explicit-state exploration of all operation histories on the real operator, whole-image frame condition checked on every transition",
   "Same histories as C04; after every transition ownership, untouched bytes and byte-identity after errors are checked on the raw image.")
lv("C06", "explicit-state fixpoint exploration of the real symbol table against a map model with chain invariants",
   "All reachable tables of 1-4 (thorough 5) slots under add, re-point, delete, reload; all orders of seeded chains; full 819-slot tables by linear histories, every link and address value.")
lv("C07", X + " (names) against an independent encoder",
   "Every name of 3-4 (thorough 5) characters, small alphabets to 9, every byte at every position, all lengths; through table write/read and through put.")
lv("C08", X + " (name strings x symbol tables) against an independent resolution rule",
   "Every hexadecimal string to 4 digits with leading zeros, every short string over a structural alphabet, all compounds, on operators with and without symbol table.")
lv("C09", X + " (catalog states, chain shapes, names, map bytes) against an independently built disk",
   "All 3^7 entry-state assignments per sector (thorough 3^14 over two), every placement and chain length to 558 sectors, every name byte, type, size and free map byte.")
lv("C10", X + " (file shapes: lengths, holes, layouts, lists) against an independently built disk",
   "Every stored length (thorough: all with all layouts), every hole set to 9 sectors, every data/list place, every header value, catalogs of 1-40 files.")
lv("C11", X + " (directory trees) against an independently built volume",
   "All slot subsets of a block, all directory sizes to 60 (thorough 200) blocks, every slot/parent-reference combination nested two deep, chains to 32, field values, device sizes.")
lv("C12", X + " (every byte value at every offset of every structure, byte pairs, bitmap words) against an independent layout table",
   "Every value of every byte over six backgrounds in fresh and reused structs, all two-byte values, all position pairs; all 65536 bitmap words in every track.")
lv("C13", "explicit-state exploration of bitmap mark sequences (all 2^12 window states x 24 marks) and exhaustive sizes and index slots, against bit-set models",
   "Quick: n to 300 and around each 4096 multiple; thorough every n to 65535. Windows at the start, across map-block boundaries, at the end.")
lv("C14", X + " (damaged images: all pointer graphs over bounded targets, all values of all structure bytes) with crash, hang, growth and mutation monitors",
   "Catalog graph over 11 targets, list graph over 9, each pointer to every track and sector, whole-disk patterns. Hang = 20 s CPU in a call of milliseconds.")
lv("C15", X + " (damaged images: all pointer graphs over bounded targets, all values of all structure bytes) with crash, hang, growth, mutation and determinism monitors",
   "Eight pointers over seven targets, each pointer to all 65536 values, all entry pairs, nesting and parent cycles to 400/40, 65535-block devices.")
lv("C16", X + " (damaged maps and symbol tables x operations) with crash, hang and growth monitors",
   "All map bytes x values, all table bytes, link graphs over four symbols x operation pairs, names to 2 bytes, contents lengths.")
lv("C17", X + " (byte strings) with crash, hang and growth monitors",
   "Every string to 3 bytes, structural strings to 6-9, all single changes and truncations of valid programs, all link graphs of four lines, all link values.")
lv("C18", X + " (programs over tokens, characters, numbers, addresses, storage forms) against an independent keyword table",
   "All bytes and ordered pairs, all short lines over a structural alphabet, all line numbers, addresses and lengths; the escaper over all bytes and pairs.")
lv("C19", X + " (programs over tokens, names, constants, strings) against an independent keyword table",
   "All elements and ordered pairs, all lines of 3 (thorough 4) elements, all constants, names to 3 characters, string bytes, line lengths, storage forms.")
lv("C20", "exhaustive exploration of (size, address, start, order) with each image executed on an independent 6502 + Disk II boot model",
   "Every sector count 1-176 x every page x rotating classes (thorough: product); every length to 600, every start of small binaries, all misalignments. The boot model is trusted.")
lv("C21", "exhaustive enumeration of command x flag x image x name combinations on the real commands with whole-directory snapshots",
   "Product of every command with every kind of image, source, name, order, system and force flag in process, subset through the built binary; error implies no file changed, reading commands change nothing.")
lv("C22", "explicit-state exploration of command histories on image files in lockstep with the operation on the independently converted disk",
   "All histories of 23 commands to depth 2 (thorough 3) x disks x orders; names x flags x in-process and built binary; mkhello for every page and file number, its stored program executed on a 6502 model.")
lv("C23", X + " (all codes and short names) against the documented table",
   "All 256 codes and codes beyond, all strings of 1-3 printable characters and single-character changes of every name, both lists.")
lv("C24", X + " (every address of every image size) against slices of the image",
   "All 560 sectors, all blocks of a 65536-block device, all addresses against images cut at every boundary.")
lv("C25", "exhaustive fault enumeration: write refused at every byte offset (RLIMIT_FSIZE), every system call on the files failing in turn (strace), full devices, unwritable targets, and every chunking size of piped input, on the real commands",
   "Every cut offset to 520, at every sector, around every page and near the end (thorough and small outputs: every offset) for each command's image and standard output; piped input in every chunk size in the bound.", "fault_enumeration")
lv("C26", X + " (every value of every byte, pairs of constrained bytes, all times) against independent rules over raw bytes",
   "All single bytes over three backgrounds and all pairs of constrained bytes at limit values; the rules are trusted.")
lv("C27", "exhaustive enumeration of number spellings, flag forms, aliases and refusals on the built tool against the same request in process",
   "Quick: 4,300 numbers in rotating spellings, edges in all ten; thorough: all 65536 in all ten. All flag forms alone and in pairs.")
lv("C28", "exhaustive enumeration of ordered pairs of requests, interleavings of operation pairs on two open images, and repeats, against the same request in a fresh process",
   "Quick: all ordered request pairs on the same image and on two other images of a cycle; thorough: every pair of images and every interleaving. Eight repeats of each request.")
lv("C29", "exhaustive enumeration of unsupported operations over disks, orders, names, types, sizes and flags, in process and with the built tool",
   "Every DOS 3.3 file type byte; 11 name classes; 4 sizes; both orders.")
lv("C30", "exhaustive enumeration of requests, images, debug levels and flag placements, compared with the same request without diagnostics",
   "Levels 0-4; flags first, one by one in both forms, and after the command.")
lv("C31", "exhaustive enumeration of command histories over disks, run in both stored orders and with a reorder at every point, compared as one commuting diagram on the real code",
   "Histories of two writing commands followed by five reads; thorough: three.")
lv("C32", "exhaustive enumeration of commands with each file replaced by standard input or output, run with the built tool and compared with the same request on files",
   "The images, requests and flags listed; sources of 0-1100 bytes and around the limits.")
here = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here, "levels.json"), "w").write(json.dumps(L, indent=1) + "\n")
