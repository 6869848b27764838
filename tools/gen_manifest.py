#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "explicit-state exploration of the real library: "
CHECKS = {
 "C01": (T + "exhaustive enumeration of boot sectors against an independent boot-sector model",
         "Every combination of the geometry fields in the stated sets, every value of every boot sector byte and overflow boundaries; other multi-byte field combinations are bounded to boundary values."),
 "C02": (T + "every fragmentation of a small MFT x placement x geometry, every record number in and around it",
         "17 geometries with records of 1 to 112 KiB; MFTs of up to 7 records split into up to 4 runs; tables continued in another record: 8 records in up to 3 runs, where records behind the first piece may be refused; tables of up to 2^52 bytes with records around every power of two; every value of each 16-bit header field."),
 "C03": (T + "every subset of torn blocks x record size x update sequence offset x geometry for file records, index records and both versions of a record",
         "Records of up to 8 (thorough: 16) sectors: every subset of stale trailers and every pair of record versions; update sequence array positions over the whole header area."),
 "C04": (T + "every operation sequence up to a depth on every value layout, and breadth-first closure of all reachable reader states, against an in-memory file model",
         "Up to 3 (4) runs of 1 or 2 clusters per value for full enumeration, 40 runs and sizes up to 2^62 with fewer operations, up to 4100 pieces with pairs of seeks; operations are the ones around every boundary of the value."),
 "C06": (T + "every byte string of up to 3 (4) bytes, every width pair x boundary value, every run sequence up to depth 5 (6), against an independent wide-integer decoder",
         "Complete over the stated strings and alphabets; longer lists are covered through sequences of an alphabet of 14 encodings and regular lists of up to 1300 (5000) runs."),
 "C07": (T + "every sequence of attributes and record tail for raw enumeration; every file of a bounded family x every assignment of its attribute pieces to records x list form, and every damaged list entry, for flattened enumeration",
         "Raw: up to 4 (5) attributes of 8 kinds; flattened: up to 6 (7) attribute pieces over 3 records, lists of up to 90 (160) entries, regular files of up to 4100 pieces, and records of up to 64 KiB."),
 "C08": (T + "every B-tree shape x record numbering x fragmentation x geometry x placement, and every single damaged record or redirected pointer, against the tree that was laid out",
         "Trees of up to 9 (10) entries and 5 (6) levels are enumerated completely; larger ones (up to 2400 entries, 7 levels) as regular shapes, chains up to 70 (300) nodes deep; index records of 8 to 117 KiB; every UTF-16 unit as (part of) a name; all pairs of 45 kinds of names."),
 "C09": (T + "every B-tree shape x geometry x every name of a pool of spellings and neighbours, and every lookup sequence of one finder",
         "Trees of up to 9 (10) entries; about 110 names including case variants under the volume's own table, prefixes and surrogates; every UTF-16 unit; chains up to 70 (300) nodes deep; all pairs of 45 kinds of names; sequences of 3 (5) lookups."),
 "C10": (T + "every pair of UTF-16 code units, every Rust character against references, all pairs of short names, x uppercase tables x ways to store the table, against direct table lookup",
         "All 2^32 pairs of single units under one table (thorough: seven); names of up to 3 (4) characters over an alphabet of 10 (8); longer names differ in one place."),
 "C11": (T + "every set of streams, sequence of file names, sequence of index attributes and sequence of volume attributes x assignment to records x every query, against the attributes that were put in",
         "Up to 3 (4) streams, 3 (4) file names, 4 index attributes, 5 (6) volume attributes; 19 stream queries and 35 name queries each; every multiset of up to 4 (6) of 11 kinds of attributes over two records; every UTF-16 unit and length of stream names; up to 257 (600) streams or names."),
    "C13": (T + "the whole library is driven (debug assertions and overflow checks on) over every volume at a bounded distance from 10 well-formed rich volumes, every panic caught",
         "Every byte of every structure x 3 (256) values, every field x interesting values, pairs of fields, triples of the sizes in a header, every swap of structures, structured values, all graphs of 1-3 index records, list graphs, size fields."),
    "C14": (T + "the same hostile volumes driven with a reader-call budget per library call, an allocation cap per call, an item bound per iteration and a watchdog",
         "Per call: 10,000 reader calls, 40 MiB, 700 items per iterator on volumes of well under 1 MiB; all graphs of 1-3 index records and chains of 4 (5), list graphs of 3 (4) kinds x 40, 13 run lists x 22 sizes."),
    "C12": (T + "every value of every byte, every length and every name length of each structured value x every place where it can be stored, against a table of fields written from the format",
         "6 kinds of values and attribute lists; lengths up to 340 (720); all 256 values of each byte of 21 values x 2 patterns; 2^16 flag words; stored resident, outside (1-2 fragments), in extension records, as keys in index root and index record; 3 geometries."),
    "C15": (T + "every timestamp of the stated windows, every day of the range and every nanosecond around the limits is converted in both directions, against a calendar computed by counting days",
         "All 21 million days, 9 windows of 2^19 (2^23) consecutive timestamps, every year from -999,999 to 999,999, 2,880 (172,799) UTC offsets, all pairs of 3,611 timestamps."),
    "C16": (T + "every read/seek sequence up to the depth over every value layout, and every structure of every layout of file and index records, comparing each reported position with the place where the image builder put the byte",
         "Value layouts as in C04, depth 2 (3); 49 tables of file records x 5 records; three index records in every composition of up to 6 runs; all cluster numbers around powers of two x 13 cluster sizes. Known finding: records that cross into another run."),
    "C05": (T + "fault injection at every single reader call (error, interruption, short reads, failing for good), at every truncation point of the image and with every style of short reads, over everything the library does, and over every read/seek at every position of the value layouts including a second fault during the retry",
         "10 volumes, about 130 kinds of reads; 18 kinds of errors; value layouts of up to 2 (3) runs x 2 states x every reader call; no more than two faults per history unless the reader fails for good."),
    "C17": (T + "every interleaving of the steps of two and three live handles over one reader that is moved in between, every schedule of a handle and its clone, and everything the library does under every way of moving the reader before each call, against each handle's run alone",
         "10 volumes, about 40 kinds of handles each; 2 handles x 4 (6) steps, 3 handles x 2 (3) steps, 8 ways to move the reader; clones after 0..13 steps."),
    "C18": (T + "every case of an enumeration of volumes, damage, faults, value layouts, directories, names and times, and a fixed share (thorough: all) of the items of the phases of C01-C04, C06-C12, C16 and C21, is run with both builds of the library and the fingerprints of everything delivered are compared",
         "10 volumes x 40 ways of answering reads; bad sectors and truncation at every 128 bytes read; 9 (255) values of every byte and 20 (60) of every field; value layouts of up to 2 (3) runs x all pairs of operations; all 65,536 units; 1.5 million timestamps. The build under comparison has the features 'time' but not 'std'."),
    "C19": ("explicit-state exploration of the real code: breadth-first closure of all reachable positions of caller and device with every read and seek in each, each call to the device failing in turn, and every sequence of operations around limits, against the device's bytes",
         "Devices of up to 5 (7) sectors of up to 16 (32) bytes completely; sectors of up to 1 MiB and devices of up to 2^64 bytes with sequences of 2 (3) operations. Known findings: reads without a seek before them; reads of the last sector."),
    "C20": ("explicit-state exploration of the real program: every sequence of commands up to a depth over every small directory tree, every file layout, and every damaged byte of a small volume, run as a child process and compared with a model of the volume",
         "Trees of up to 4 (5) files and directories, sequences of 4 changes of directory; 109 file layouts alone and in pairs (quick: one pair in 12) x 4 geometries; 2 (14) other values of each byte of 10 records. Known findings: files near the end of the image; get by number."),
 "C21": (T + "every B-tree shape x kind of entry x geometry with an entry type of the harness's own, every range of key and data in an entry, every interval a comparison can look for, every pair of attributes, against the bytes that were laid out",
         "Trees of up to 8 (10) entries; 105 combinations of lengths, entries of up to 64 KiB; entries of 16 to 44 (80) bytes with every key length and data range."),
 "C22": (T + "every meaningless byte of every structure of 13 rich volumes x values, every possible field within them x boundary values, every stretch and all of them together x patterns, the whole library run over each volume and compared with the unchanged one",
         "Quick: 10 values per byte for the first 64 bytes of a stretch and 4 beyond; thorough: 255 and 10. 16 patterns x 8 shifts. Which bytes are meaningless is decided by the harness's own parser of the format; raw bytes of index and list values are left out of the comparison."),
}
titles = {}
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    titles[p["id"]] = p["title"]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none", "enable": "No hooks: the checks use the library's public API only, over a reader of their own.", "source_commits": []},
 "checks": [],
 "not_applicable": [],
 "notes": "See DESIGN.md. All checks run the real library (path dependency on /repo) under a deterministic explorer; nothing is sampled.",
}
for i in titles:
    if i in CHECKS:
        tech, note = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
