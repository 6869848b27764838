#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one source for the wording; run after editing).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Mounting accepts exactly the supported geometries and reports them faithfully",
"Opening a volume succeeds exactly when its boot sector describes a supported layout: 55 AA end marker, a power-of-two sector size of 512 to 4096 bytes, a cluster size of 512 bytes to 2 MiB (plain count or negative-exponent encoding), a file record size given as a positive cluster count or as 2^10 to 2^12 bytes, a non-zero MFT location, and no arithmetic overflow. On success the reported sector size, cluster size, file record size, volume size, serial number and MFT position are exactly what the boot sector encodes, whatever the other bytes are and wherever the reader was positioned. Every other boot sector is refused with an error.",
["inputs","configurations"],"every value of every geometry field of the boot sector, and every combination of them",
"One fixed 2 MiB image with 512-byte clusters is mounted by the tests; no other geometry, encoding or boundary is ever seen.",
["src/boot_sector.rs","src/ntfs.rs","src/types.rs"],
[("field validation","BiosParameterBlock::{sector_size,sectors_per_cluster,cluster_size,record_size,mft_lcn}"),("size/position computation","Ntfs::new, Lcn::position")],
observe=["Ntfs::new result and its getters"])

p("C02","A file record number yields exactly that record, for any MFT fragmentation",
"Asking for file record N returns the record stored at offset N x record size of the master file table's data, however that data is split into runs on disk, including records that cross from one run into another; the returned file reports record number N, its on-disk position and its own header fields (sequence number, flags, hard link count, used and allocated size). A record number beyond the end of the table, or whose position cannot be computed, gives an error and never some other record. Following a file reference uses its low 48 bits as the record number and exposes its high 16 bits as the sequence number.",
["inputs","configurations"],"every record number, every run layout of the MFT, every record/cluster size combination",
"The test image has one contiguous MFT with 512-byte clusters, and no test asks for a record out of range.",
["src/ntfs.rs","src/file.rs","src/file_reference.rs","src/attribute_value/non_resident.rs"],
[("record lookup through the MFT data attribute","Ntfs::file"),("record loading and header validation","NtfsFile::new"),("reference decoding","NtfsFileReference")],
observe=["Ntfs::file","NtfsFile getters","NtfsFileReference::to_file"])

p("C03","A torn multi-sector record is never accepted as valid",
"A file record or index record is handed to the caller only if each 512-byte block covered by its update sequence array ends with the record's update sequence number; if any such block carries a different trailer - any subset of blocks left over from an older or newer write - the read fails with an error. When it is accepted, each block's last two bytes are replaced by the saved originals, so the caller sees exactly the bytes that were written. This holds for every record size, update-sequence offset and volume sector size.",
["crash_points","inputs","configurations"],"every subset of blocks of a record write that reached the disk, every trailer value, every record size and update sequence placement",
"The tests read only intact records of one size; no torn write is ever presented.",
["src/record.rs","src/file.rs","src/index_record.rs"],
[("update sequence check and restoration","Record::fixup"),("called before anything is exposed","NtfsFile::new, NtfsIndexRecord::new")],
[("update sequence number/array","per-record torn-write detector","record header, bytes 4..8 and the array they point to")],
["Ntfs::file","index iteration and lookup"])

p("C04","Reading and seeking an attribute value behaves like a file with its content",
"For every attribute value - resident, non-resident with any run list (fragmented, backward, sparse), or spread over several file records through an attribute list - any sequence of read, exact read and seek calls returns the same bytes, counts, positions and seek failures as the same calls on an in-memory file holding the value's content: bytes of allocated runs, zeros for sparse runs and beyond the initialized size, ending at the data size. A read fills the buffer unless the end is reached, a rejected seek leaves the position where it was, and this is unaffected by attaching, detaching or cloning the value.",
["histories","inputs"],"every sequence of read/seek operations and every run layout",
"A few tests do one or two reads and seeks on three files with at most two runs; position bookkeeping across runs after arbitrary histories is not sampled.",
["src/attribute_value/mod.rs","src/attribute_value/resident.rs","src/attribute_value/non_resident.rs","src/attribute_value/attribute_list_non_resident.rs","src/traits.rs"],
[("stream/run cursor","StreamState, NtfsDataRun"),("seek simplification","StreamState::optimize_seek, seek_contiguous"),("rewind and continue over extents","NtfsAttributeListNonResidentAttributeValue::{seek,next_attribute}")],
[("stream_position / stream_data_run","cursor in the stream and in the current run; must always agree","StreamState")],
["NtfsReadSeek on NtfsAttributeValue and its attached forms"])

p("C05","Reader faults never produce wrong data, only less data or an error",
"If the underlying reader returns short reads or interrupted errors that are retried, every result is the same as with a perfect reader. If it fails or ends early at any point, each library call either returns an error or returns data that is a correct prefix of the fault-free result - never altered, skipped or invented bytes, entries or attributes - and a failure of the reader reaches the caller as an I/O error of the same kind. After a failed read the value's position is unchanged, so repeating the read once the fault is gone yields the right bytes.",
["fault_sequences","crash_points"],"every single reader call failing, being interrupted or coming up short, and every truncation point of the image",
"All tests use an in-memory cursor over a complete image that never fails or returns short.",
["src/attribute_value/non_resident.rs","src/attribute_value/attribute_list_non_resident.rs","src/traits.rs","src/error.rs","src/file.rs","src/index.rs"],
[("read loop over runs","NtfsNonResidentAttributeValue::read, StreamState::read_data_run"),("retrying exact read","NtfsReadSeek::read_exact"),("error conversion","From impls in error.rs")],
observe=["every API call that takes the reader"])

p("C06","Run lists decode to exactly the encoded cluster runs",
"For a non-resident value, the list of data runs reported equals the encoded run list: each run's length is its cluster count (unsigned, 1 to 8 bytes) times the cluster size, each allocated run starts at the sum of all signed offsets so far times the cluster size, a run without offset bytes is sparse, and a zero header byte ends the list. Run headers that cannot be decoded - zero or overflowing counts, too many bytes, positions below zero or beyond 64 bits, truncated encodings - give an error, never a made-up run.",
["inputs"],"every byte string that can appear as a run list",
"The test image has a handful of one- and two-run files with small positive offsets.",
["src/attribute_value/non_resident.rs","src/types.rs","src/attribute.rs"],
[("variable length integer decoding","NtfsDataRuns::read_variable_length_*"),("LCN accumulation","NtfsDataRuns::next, Lcn::checked_add, Lcn::position")],
[("previous_lcn","base of the next relative offset","DataRunsState")],
["NtfsNonResidentAttributeValue::data_runs, reading the value"])

p("C07","Attribute enumeration yields every attribute exactly once, with its own content",
"Raw enumeration of a file record yields its attributes in stored order and nothing beyond the end marker or used size. Flattened enumeration resolves an attribute list - resident or non-resident - so that each attribute of the file, in whichever record it is stored, appears exactly once, the pieces of an attribute split over several records are joined into one attribute whose content is complete, and distinct attributes are never merged. Each attribute reports its stored type, name, instance, flags, residency and value length.",
["inputs","configurations"],"every attribute layout of a file over its base and extension records",
"The test image contains one file with an attribute list; layouts, splits and name collisions are not explored.",
["src/attribute.rs","src/structured_values/attribute_list.rs","src/attribute_value/attribute_list_non_resident.rs"],
[("raw iterator","NtfsAttributesRaw"),("list flattening and connected-entry skipping","NtfsAttributes::next"),("connected entries","AttributeListConnectedEntries")],
observe=["NtfsFile::attributes, attributes_raw, attached iterator"])

p("C08","Iterating a directory yields every entry once, in order",
"Iterating a directory index yields every entry of its B-tree exactly once and in key order, whatever the tree's shape and depth and however its index records are numbered, fragmented and sized relative to clusters; each entry reports its stored key, file reference, flags, lengths and subnode. An index record that is missing, out of bounds or carries another record's number gives an error, not foreign entries.",
["inputs","configurations"],"every shape of index tree and every placement of its records",
"Tests iterate one root directory and one 512-entry directory on a single geometry.",
["src/index.rs","src/index_entry.rs","src/index_record.rs","src/structured_values/index_root.rs","src/structured_values/index_allocation.rs"],
[("depth-first traversal stack","NtfsIndexEntries::next"),("entry slicing","IndexNodeEntryRanges, NtfsIndexNodeEntries"),("VCN lookup and check","NtfsIndexAllocation::record_from_vcn")],
[("inner_iterators/following_entries","path of open nodes and pending entries","NtfsIndexEntries")],
["NtfsIndex::entries, NtfsIndexAllocation::records, NtfsIndexRoot::entries"])

p("C09","Looking up a name finds it exactly when it is in the directory",
"Looking up a name in a directory returns the entry whose name equals it under the volume's case mapping if there is one, and nothing otherwise, for every index shape, geometry and name; the entry has the right file reference and name. Repeated lookups with the same finder are independent of earlier ones.",
["inputs","histories"],"every index tree, every present or absent name in any letter case, every order of lookups",
"Tests look up two names in one directory.",
["src/index.rs","src/indexes/file_name.rs","src/upcase_table.rs"],
[("B-tree descent","NtfsIndexFinder::find"),("comparator","NtfsFileNameIndex::find, UpcaseOrd")],
[("inner_iterator","node being searched; reset on each lookup","NtfsIndexFinder")],
["NtfsFileNameIndex::find, NtfsIndexFinder::find"])

p("C10","Names compare by the volume's own uppercase table",
"Comparing two names orders them by UTF-16 code units after mapping each through the volume's 65536-entry uppercase table, a proper prefix sorting first; it is a consistent total order, equal exactly when the mapped sequences are equal, and the same for every combination of on-disk names and Rust strings (characters beyond U+FFFF compare as their surrogate pairs). A volume whose uppercase table does not have the exact size is refused.",
["inputs"],"every pair of names and every uppercase table",
"Tests check 26 letters of one table and no comparison.",
["src/upcase_table.rs"],
[("table load and size check","UpcaseTable::read"),("comparison","upcase_cmp_iter, UpcaseOrd impls")],
observe=["UpcaseOrd::upcase_cmp, Ntfs::read_upcase_table"])

p("C11","Convenience accessors return the matching attribute and nothing else",
"Asking a file for a named data stream, a file name of given namespace and/or parent, its standard information, its directory index, or asking the volume for its name and information, returns the first attribute that satisfies every given criterion, in whichever record of the file it is stored (standard information and the volume's name and information are always in the base record), and reports absence exactly when there is none; a file name that cannot be decoded gives an error when it is met before a match. The unnamed stream is selected by the empty name, named streams match under the volume's case mapping, and a non-directory has no directory index.",
["inputs"],"every combination of attributes in a file and every query",
"Tests query a few well-formed files where the first candidate is always the right one.",
["src/file.rs","src/ntfs.rs","src/index.rs"],
[("stream selection","NtfsFile::data"),("name selection","NtfsFile::name"),("index attribute selection","NtfsFile::directory_index, find_attribute"),("volume metadata","Ntfs::volume_name, volume_info")],
observe=["NtfsFile::{data,name,info,directory_index}, Ntfs::{volume_name,volume_info}"])

p("C12","Structured values decode every field exactly as stored",
"Decoding a standard information, file name, volume name, volume information, object id, index root or attribute list value returns each field exactly as stored (little-endian, at its fixed offset), optional trailing parts are present exactly when the value is long enough, unknown flag bits are dropped and known ones kept, and values that are too short, too long or of unknown kind are refused. The result is the same whether the value is stored inside the record, outside it, or as an index key, and identifiers are printed in the standard zero-padded GUID form.",
["inputs"],"every byte value at every offset and every value length",
"Tests decode one instance of some structures with mostly zero fields.",
["src/structured_values","src/guid.rs","src/time.rs"],
[("header decoding and length checks","structured_values/*.rs"),("formatting","NtfsGuid Display")],
observe=["structured_value, resident_structured_value, index entry keys"])

p("C13","Malformed volumes produce errors, never panics",
"Whatever bytes a volume contains, every call of the library returns a value or an error: it never panics, overflows an integer or indexes out of bounds, including debug assertions, in any operation reachable from mounting, walking directories, enumerating and reading attributes, looking up names and decoding structures.",
["inputs"],"every image content; explored as every single-byte and chosen multi-field corruption of metadata-rich images",
"Tests only ever read one well-formed image.",
["src"],
[("size validation on each structure","validate_* methods"),("checked slicing","index_entry.rs, index_record.rs, index_root.rs, attribute.rs, record.rs")],
observe=["any public call"])

p("C14","Every operation ends within bounded work and memory, even on hostile volumes",
"Whatever bytes a volume contains - cyclic or shared index nodes, zero or huge sizes, self-referencing lists - every call returns after an amount of work, reader calls and memory that is bounded by the size of the structures actually stored, and complete iteration over attributes or index entries ends after a bounded number of items. No size field alone can make the library loop forever or allocate gigabytes.",
["inputs"],"every image content; explored as every single-field and paired-field corruption of metadata-rich images",
"Tests have no corrupt input and no limit on work or memory.",
["src/index.rs","src/index_entry.rs","src/index_record.rs","src/structured_values","src/attribute.rs"],
[("progress per step and size checks","index_entry_length, list_entry_length and attribute_length validation"),("allocation sizes","NtfsIndexRecord::new, NtfsFile::new")],
observe=["any public call"])

p("C15","Time conversions are exact, ordered and reversible",
"An NTFS timestamp counts 100-nanosecond intervals since 1601-01-01 UTC: converting any timestamp to a calendar date-time and back returns the same timestamp, conversions from date-times and system times give the number of whole intervals elapsed, and ordering is preserved. Times that cannot be represented - before 1601, before the system epoch for system times, or too far in the future - are refused with an error and never wrap or panic.",
["inputs"],"every timestamp and every convertible time",
"Tests convert a few dates.",
["src/time.rs"],
[("epoch shift and scaling","TryFrom/From impls of NtfsTime")],
observe=["NtfsTime conversions"])

p("C16","Reported positions are true byte positions on the volume",
"Every position the library reports is the absolute byte offset at which the thing actually lies on the volume: reading the raw image there gives the file record, the attribute header, the index record or entry, or the value byte that the library delivers next at the current stream position. Where there is no such byte - sparse ranges, or seeks beyond the space allocated to the value - no position is reported.",
["inputs","histories"],"every structure of every layout and every stream position reached by any read/seek history",
"Tests compare a couple of positions of one resident and one contiguous value.",
["src/types.rs","src/attribute.rs","src/attribute_value","src/index_entry.rs","src/structured_values/index_root.rs"],
[("position arithmetic","NtfsPosition Add impls, *_position methods")],
observe=["position(), data_position() everywhere"])

p("C17","Live handles never influence each other nor depend on the reader position",
"Values, iterators, finders and files obtained from one volume can be used in any interleaving over one shared reader, and each delivers exactly what it would deliver alone; a clone continues independently of its original. No result depends on where the reader happened to be positioned or on what was read before.",
["schedules","histories"],"every interleaving of the steps of several live handles, with the reader moved in between",
"Tests use one handle at a time.",
["src/attribute_value","src/attribute.rs","src/index.rs","src/ntfs.rs"],
[("seek before every read","NtfsDataRun::read, NtfsFile::new, Ntfs::new"),("state kept in the handle","StreamState, NtfsAttributes, NtfsIndexEntries")],
observe=["interleaved calls on NtfsAttributeValue, NtfsAttributes, NtfsIndexEntries, NtfsIndexFinder, clones"])

p("C18","The library gives the same results with and without the standard library",
"For every volume and every operation, the library built without its default features delivers the same records, attributes, bytes, entries, lookups and the same success or failure as the build with the standard library.",
["configurations","inputs"],"every image and operation, in both builds",
"The tests run only in the default configuration.",
["src/lib.rs","Cargo.toml","src/traits.rs","src/error.rs"],
[("feature gating and binrw::io abstraction","Cargo.toml features, use of binrw::io")],
observe=["the same enumeration program linked against both builds"])

p("C19","The sector reader delivers the same bytes while touching whole sectors only",
"For any sequence of seeks and reads, the sector reader of ntfs-shell returns the bytes that lie at the caller's position on the device behind it, at least one unless none is left, up to the last byte of the device, and moves by exactly what it returned. The device is only ever positioned at multiples of the sector size and asked for multiples of it. A refused seek or a failing device gives an error and leaves the caller's position where it was, so that the operation can be repeated; sector sizes other than powers of two are refused.",
["schedules","inputs","configurations"],"every sequence of seeks and reads of any size, every sector size and device size, every failing call of the device",
"No test runs the example code; wrong bytes need two reads without a seek between them, or a read near the end of the device.",
["examples/ntfs-shell/sector_reader.rs"],
[("aligned seek and read around the caller's position","SectorReader::read, SectorReader::seek")],
observe=["SectorReader over a device that records and decides each call"])

p("C20","ntfs-shell answers every command from the volume and survives damaged ones",
"For every volume and sequence of commands, ntfs-shell's cd enters exactly the named subdirectory of the current directory and .. its parent, dir lists every entry of the current directory once in order, a file argument means the entry of that name (in any case) or the record of that number, and attr, attr_runs, fileinfo and fsinfo show what is stored. get saves exactly the stream's bytes under the given name (without the slash of a record number) in the local current directory and never changes an existing local file. A command that fails gives an error and the next one is answered; damage to the volume never ends the shell once it is open.",
["inputs","histories"],"every directory tree and file layout, every sequence of commands, every damaged byte",
"No test runs the shell.",
["examples/ntfs-shell/main.rs","examples/ntfs-shell/sector_reader.rs","src"],
[("command loop and error reporting","main"),("navigation","cd, best_file_name"),("file arguments","parse_file_arg"),("saving a stream","get")],
observe=["output, exit code and files written by the program"])

p("C21","Indexes of any kind deliver exactly the stored keys and data",
"For an index opened with an entry type that the caller defines, a walk delivers every stored entry once and in order, and each entry's key, data and file reference handed to the caller's type are exactly the stored bytes at their true positions, with no key or no data where none is stored. A lookup with the caller's comparison finds an entry for which it says equal exactly when there is one. Only a resident index root, with an index allocation where the root needs one, opens as an index; keys or data that do not lie within their entry give an error, and an error of the caller's type reaches the caller unchanged.",
["inputs","configurations"],"every B-tree shape, every length and place of key and data, every monotonous comparison, every pair of attributes",
"The tests use the library's own directory index only; no index with data is ever read.",
["src/index.rs","src/index_entry.rs","src/index_record.rs","src/indexes/mod.rs","src/structured_values/index_root.rs"],
[("handing key and data to the caller's type","NtfsIndexEntry::{key,data,file_reference}"),("opening and checking types","NtfsIndex::new"),("lookup","NtfsIndexFinder::find")],
observe=["NtfsIndex::new, entries, finder with an NtfsIndexEntryType of the caller"])

p("C22","Stored bytes that mean nothing to a reader change nothing that is reported",
"Everything the library reports about a volume is independent of the bytes and bits in it that carry no information for a reader: log sequence numbers, next attribute numbers, reserved bytes and reserved or unknown flag bits of boot sector, file records, attribute headers, index roots, index records, index entries and volume information, boot code, padding behind names, values, keys, run lists and attribute list entries however long it is, space between headers and names, in front of the first attribute or entry and behind the used part of a record, and the rest of the last cluster of a value. Any content there leaves every accessor, value, walk and lookup as it was (except for the raw bytes of a value in which they lie), and none makes an intact structure be refused.",
["inputs"],"every meaningless byte of every structure, every value of it, all of them together",
"The tests read one image whose reserved bytes are those of one formatting program, mostly zero.",
["src/boot_sector.rs","src/record.rs","src/file.rs","src/attribute.rs","src/index_record.rs","src/index_entry.rs","src/structured_values","src/attribute_value/non_resident.rs"],
[("decoding of headers and flags","NtfsFile, NtfsAttribute, NtfsIndexRecord, NtfsIndexEntry, NtfsIndexRoot, BiosParameterBlock"),("ends of structures","NtfsAttributesRaw, NtfsDataRuns, NtfsIndexNodeEntries, NtfsAttributeListEntries")],
observe=["everything the library reports about a volume"])

open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
