#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in step with what MANIFEST.json claims).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":None}})
allsrc=["src/attribute.rs","src/attribute_value/","src/boot_sector.rs","src/error.rs","src/file.rs","src/index.rs","src/index_entry.rs","src/index_record.rs","src/indexes/","src/ntfs.rs","src/record.rs","src/structured_values/","src/types.rs","src/upcase_table.rs"]
T="The tests read one well-formed image (and a few hand-made byte strings); "
p("C01","No public operation panics on any filesystem image",
  "Whatever bytes the filesystem image contains and however the reader fails, no public operation of the library panics: every index, slice, split, copy, unwrap, assertion and 'unreachable' is safe. The only exceptions are the two documented caller mistakes: comparing names before the upcase table has been read, and passing a list entry the file record of a different file.",
  ["inputs","fault_sequences"],"all images, all reader results, all sequences of public calls with arguments obtained from the API itself",
  T+"no malformed length, offset, count or short read is ever presented to the parser.",allsrc,
  [("size and range validation before slicing","validate_* functions of record.rs, file.rs, attribute.rs, index_entry.rs, index_record.rs, structured_values/*.rs"),("fallible slice access","attribute_value/*.rs")])
p("C02","Arithmetic on untrusted values never overflows",
  "Additions, subtractions, multiplications, negations and shifts whose operands come from the image or from the caller never overflow, underflow or shift out of range, and are never silently truncated: a result that does not fit is reported as an error. Documented wrapping (physical position bookkeeping) is the only exception.",
  ["inputs"],"all images and argument values, all sequences of public calls",
  T+"the extreme values that overflow do not occur in it.",allsrc,
  [("checked_* operations and range checks","boot_sector.rs, types.rs, attribute_value/non_resident.rs, attribute_value/mod.rs, ntfs.rs")])
p("C03","A mounted volume always has sane geometry",
  "Opening a volume succeeds only if the boot sector carries the 55 AA signature, the sector size is a power of two between 512 and 4096, the cluster size is between 512 bytes and 2 MiB, the volume size is exactly sector count times sector size without overflow, and the MFT has a position; the file record size is nonzero. Anything else is rejected with an error.",
  ["inputs"],"all boot sectors",T+"one boot sector with one geometry.",["src/ntfs.rs","src/boot_sector.rs","src/types.rs"],
  [("boot sector and BIOS parameter block validation","boot_sector.rs validate, sector_size, cluster_size, record_size; ntfs.rs Ntfs::new")])
p("C04","Memory allocation is bounded by what the image can justify",
  "No allocation made while parsing is larger than a fixed bound or than data the library has already validated: record buffers, index records, attribute lists and the upcase table are never sized by an unvalidated number from the image.",
  ["inputs"],"all images",T+"no size field is hostile.",["src/file.rs","src/index_record.rs","src/ntfs.rs","src/upcase_table.rs"],
  [("size validation before vec!","boot_sector.rs record_size; index_record.rs NtfsIndexRecord::new; upcase_table.rs read")])
p("C05","Every loop over image data makes progress",
  "Every loop and every iterator of the library terminates on every image: each iteration consumes at least one byte, cluster, list entry or level of a finite amount, or ends the loop. Reading, seeking, iterating attributes, data runs and index entries can never spin without progress.",
  ["inputs"],"all images",T+"no zero-length entry, zero-sized run or self-referencing structure occurs.",["src/attribute.rs","src/file.rs","src/index_entry.rs","src/attribute_value/","src/traits.rs","src/record.rs"],
  [("length checks of entries; offsets advanced by validated lengths","attribute.rs, index_entry.rs, attribute_list.rs, non_resident.rs")])
p("C06","Records reach the caller only after their integrity checks passed",
  "A file record or index record is only ever handed out or interpreted after its signature has been verified, its update sequence fixup has succeeded for every 512-byte block that its update sequence array covers, and its size fields have been validated against the actual buffer; a record failing one of these is reported as an error. The fixup rejects a record in which one of those blocks does not end with the update sequence number, and otherwise replaces the last two bytes of each of those blocks by the saved ones and changes nothing else.",
  ["inputs"],"all records, all paths that create a record object",T+"every record in it is intact.",["src/record.rs","src/file.rs","src/index_record.rs"],
  [("signature, fixup, sizes","file.rs NtfsFile::new; index_record.rs NtfsIndexRecord::new; record.rs fixup")])
p("C07","Errors are never swallowed",
  "When reading or seeking fails, or an error value is made, anywhere inside an operation, the operation itself reports an error: such a failure is never turned into success, into an absent value (including the error that says an attribute is absent), into a default or into the end of an iteration. Exceptions are retrying an interrupted read, treating the absence of an attribute as 'not present', and skipping attributes of unknown type when looking for attribute lists.",
  ["fault_sequences","inputs"],"all failures of the reader and of parsing at every call",T+"the reader never fails and the image is well-formed.",allsrc,
  [("error propagation with ?, iter_try!","all modules; helpers.rs")])
p("C08","A failed step does not corrupt the state of iterators and readers",
  "If a read, seek or iteration step reports an error, the object it was called on is left in a state that further calls can use: positions stay consistent with what was delivered, and no element is skipped or delivered twice because of the failure.",
  ["fault_sequences"],"all failures at every call within a step",T+"no step ever fails.",["src/attribute_value/","src/index.rs","src/attribute.rs","src/structured_values/"],
  [("state is updated after the fallible calls","non_resident.rs do_read/do_seek; index.rs next; attribute.rs next")])
p("C09","The library never writes and keeps no hidden state",
  "The library only ever reads and seeks in the filesystem it is given; it touches no other file, device, clock, thread or environment, keeps no global or interior-mutable state, and contains no unsafe code.",
  ["programs","inputs"],"all public functions and everything they reach",T+"they cannot show the absence of effects on paths they do not take.",["src/lib.rs","src/"],
  [("forbid(unsafe_code); Read + Seek bounds; no statics","lib.rs; all public functions")])
p("C10","Results do not depend on the platform",
  "The library works without the standard library on every target: it links only core and alloc without its default features, decodes every multi-byte value from the image as little-endian, never reads pointer-sized or host-endian data, and converts image values to the platform's word size without losing bits silently.",
  ["configurations"],"all targets (32/64 bit, little/big endian) and feature sets",T+"they run on one 64-bit little-endian host with all features.",["src/lib.rs","src/"],
  [("no_std; LittleEndian reads; binrw little-endian","all parsers")])
p("C11","On-disk fields are read from their documented place",
  "Every value an accessor returns is taken from the byte offset, with the width, signedness and byte order that the NTFS format documents for that field, relative to the start of the structure it belongs to.",
  ["inputs"],"all field values",T+"many fields are zero, equal or never read in the sample image.",["src/file.rs","src/attribute.rs","src/index_entry.rs","src/index_record.rs","src/boot_sector.rs","src/record.rs","src/structured_values/","src/file_reference.rs"],
  [("repr(C, packed) headers with offset_of!; binrw structs","*Header structs of each module")])
p("C12","Reading obeys the read contract at every position",
  "A read delivers at most the buffer's length and never bytes beyond the end of the value; it advances the position by exactly the number of bytes delivered, returns zero only for an empty buffer or at the end, and leaves the rest of the buffer untouched. A read at a position beyond the end delivers nothing.",
  ["histories","inputs"],"all value layouts, positions and buffer sizes",T+"one position per value kind is read.",["src/attribute_value/"],
  [("clamping of the slice to read and position update","resident.rs, non_resident.rs, attribute_list_non_resident.rs")])
p("C13","Seeking obeys the seek contract",
  "Seeking to an absolute, relative or end-relative position sets and reports exactly the requested position, also beyond the end; a target that is negative or does not fit is rejected with an error. Seeking never reads data.",
  ["histories","inputs"],"all positions and offsets",T+"a handful of small offsets is sought.",["src/attribute_value/mod.rs","src/attribute_value/non_resident.rs","src/attribute_value/resident.rs","src/attribute_value/attribute_list_non_resident.rs"],
  [("seek_contiguous; optimize_seek and do_seek","attribute_value/mod.rs; non_resident.rs")])
p("C14","Handles sharing one filesystem reader do not disturb each other",
  "No operation depends on where an earlier operation left the shared reader's position: every operation positions the reader absolutely before its first read of the reader, so handles can be used alternately in any order.",
  ["histories"],"all interleavings of operations of any number of handles on one reader",T+"handles are used one after another.",["src/ntfs.rs","src/file.rs","src/attribute_value/non_resident.rs"],
  [("absolute seek before each read","ntfs.rs Ntfs::new; file.rs NtfsFile::new; non_resident.rs NtfsDataRun::read")])
p("C15","A typed value is only produced from an attribute of that type",
  "Interpreting an attribute as a structured value fails unless the attribute carries the matching type; a value requested as resident and an index root are never produced from non-resident data, and an index allocation never from resident data; a value that is too short for the structure (and, for a file name, for the name it announces) is rejected.",
  ["inputs"],"all attributes",T+"each type is only requested from its own attribute.",["src/attribute.rs","src/structured_values/"],
  [("ty() comparison; resident check; size validation","attribute.rs structured_value; structured_values/*.rs")])
p("C16","Lookups return what was asked for",
  "A file looked up by record number is read from the position of that record in the MFT's data and carries that number; the root directory, a file reference and a directory entry resolve to their record number. An attribute or file name looked up by type, name, instance, namespace or parent directory is the first one of the file that has all of what is asked for; absence is only reported after every attribute was looked at. A directory index is only opened on a directory.",
  ["inputs"],"all images",T+"one lookup of each kind is made.",["src/ntfs.rs","src/file.rs","src/attribute.rs"],
  [("record offset computation; type and name comparison","ntfs.rs file; file.rs data, name, find_*; file_reference.rs; index_entry.rs to_file")])
p("C17","Directory iteration visits every index entry once, in index order",
  "Iterating an index descends into the subnode of an entry before delivering that entry, continues with the parent when a node is exhausted, never delivers the terminating entry, and delivers every entry of every node exactly once.",
  ["inputs","histories"],"all B-trees of any depth",T+"one two-level tree is walked.",["src/index.rs"],[("stack of ranges and entries","index.rs NtfsIndexEntries::next")])
p("C18","Index search descends exactly where the searched key can be",
  "Searching an index compares the searched key with the entries of a node in order, returns the entry only if it compares equal, descends into the subnode of the first greater (or last) entry, and reports absence only if that entry has no subnode.",
  ["inputs"],"all B-trees and comparison functions",T+"a few names are searched in one tree.",["src/index.rs","src/indexes/file_name.rs"],[("match on the comparison result","index.rs NtfsIndexFinder::find")])
p("C19","Names are compared by upcased UTF-16 code units",
  "Case-insensitive comparison upcases every code unit of both operands through the volume's upcase table before comparing them, then compares lengths; it is a total order that does not depend on argument order or on which operand is a Rust string.",
  ["inputs"],"all pairs of names and all upcase tables",T+"two names are compared.",["src/upcase_table.rs"],[("UpcaseOrd","upcase_table.rs")])
p("C20","Timestamps convert without loss of meaning",
  "A timestamp converts to other time types as 100-nanosecond intervals since 1601-01-01 and back to the same value; values outside the representable range are rejected, never wrapped.",
  ["inputs"],"all 64-bit timestamps and all representable times",T+"a handful of dates is converted.",["src/time.rs"],[("epoch difference and interval arithmetic","time.rs")])
p("C21","GUIDs are always displayed in canonical form",
  "A GUID is displayed as 8-4-4-4-12 hexadecimal digits with leading zeros, in the documented byte order.",
  ["inputs"],"all GUIDs",T+"one GUID without leading zeros is formatted.",["src/guid.rs"],[("format string","guid.rs Display")])
p("C22","Data runs decode exactly as encoded",
  "A data run's length is the unsigned little-endian number of the encoded width, its start is the sign-extended difference added to the previous run's start, a difference of zero or a missing start means a sparse run that keeps the previous start, and a zero header ends the runs; encodings of more than eight bytes or overflowing values are rejected.",
  ["inputs"],"all encodings",T+"few encodings occur in the sample image.",["src/attribute_value/non_resident.rs"],[("NtfsDataRuns::next, read_variable_length_*","non_resident.rs")])
p("C23","The shell never modifies the image and never overwrites files",
  "The example shell opens the image for reading only, and extracting a file creates a new file and fails if it already exists.",
  ["programs"],"all commands",T+"the shell has no tests.",["examples/ntfs-shell/main.rs","examples/ntfs-shell/sector_reader.rs"],[("File::open; OpenOptions::create_new","main.rs")])
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
