#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (their texts live here)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/store/"
BUF = S + "indexing_buffer.rs"
RLE = S + "encoding/bitmap_rle.rs"
VAR = S + "encoding/varint.rs"
OFF = S + "encoding/offsets.rs"
PRI = S + "encoding/raw/primitive_enc.rs"
BIN = S + "encoding/raw/binary_enc.rs"
ENC = S + "encoding/mod.rs"
SNA = S + "encoding/snappy/snappy_enc.rs"
SINK = S + "block_sink.rs"
IDX = S + "block_index.rs"
WR = S + "io/default_block_writer.rs"
RD = S + "io/unix_disk_block_reader.rs"
IO = S + "io/mod.rs"
SEG = S + "segment_writer.rs"
UTIL = S + "encoding/util.rs"


def m(*a):
    return [{"name": n, "where": w} for n, w in a]


P = [
    ("C01", "Fixed-width columns survive being written in blocks",
     "For every sequence of buffers of fixed-width values (32- and 64-bit integers, unsigned integers, floats; nullable or not) written to a column and then finished, decoding the column's blocks in order gives back exactly the values and the null positions that were written, in the same order, with nothing lost, repeated or moved. This holds whatever the block size, the buffer boundaries and the position of the nulls.",
     ["inputs", "histories"], "all values, null patterns, buffer splits and block sizes from 1 byte up; every history of writes followed by a finish",
     "The tests write three fixed lists and compare block bytes at one block size; which value straddles which block or buffer boundary, and where the nulls fall around it, is a combination they sample once.",
     [PRI, BUF, RLE, SEG, ENC], m(("split of a buffer into blocks and carry-over of the remainder", PRI), ("appending ranges of values and nulls", BUF), ("null bitmap of a block", RLE), ("column writer", SEG))),
    ("C02", "Variable-length columns survive being written in blocks",
     "For every sequence of buffers of byte-string values shorter than 2 GiB (nullable or not, empty strings included) written to a column and then finished, decoding the column's blocks in order gives back exactly the strings and the null positions that were written, in the same order. This holds whatever the block size, the buffer boundaries, the lengths of the items and the position of the nulls.",
     ["inputs", "histories"], "all item lengths below 2^31 and contents, null patterns, buffer splits and block sizes from 1 byte up; every history of writes followed by a finish",
     "The tests use a handful of short strings and one block size; the item-length section, the data section and the null bitmap of a block only agree by an argument over every split point.",
     [BIN, BUF, OFF, RLE, SEG], m(("split of a buffer into blocks and carry-over of the remainder", BIN), ("appending ranges of items", BUF), ("item-length section", OFF), ("null bitmap of a block", RLE))),
    ("C03", "Blocks are tagged with the last row they cover",
     "Every block of a column is handed over together with the zero-based row number of the last row it covers: the tags strictly increase, each equals the number of rows (nulls included) in this and all earlier blocks minus one, and the last tag is the number of rows written minus one. No row belongs to two blocks or to none.",
     ["inputs", "histories"], "every history of buffers, null patterns and block sizes, with fewer than 2^32 - 1 rows",
     "Row numbers depend on how nulls fall around block and buffer boundaries over the whole history of a column; the tests check a few tags of one history.",
     [PRI, BIN, SINK], m(("row counting", PRI), ("row counting", BIN), ("tag handed to the block sink", SINK))),
    ("C04", "Blocks are cut at the configured size",
     "While a column is being written, every block holds the shortest run of values whose data reaches the configured block size: it holds at least that many bytes of values, and without its last value it would hold fewer. Values short of a full block are kept back, at most one undersized block is written when the column is finished, and none when nothing is pending.",
     ["inputs", "histories"], "all value sizes, buffer splits and block sizes from 1 to 2^32 - 1 bytes",
     "Whether a block is cut at the right value depends on the pending amount left by all earlier buffers; the tests fix one size and one list.",
     [PRI, BIN, SEG], m(("cut point", PRI), ("cut point", BIN), ("column writer close", SEG))),
    ("C05", "A failed write is always reported",
     "If writing, flushing or syncing any part of a column or segment fails underneath, the operation that needed it reports an error, and never success. An operation that reports success had every write it asked for accepted.",
     ["fault_sequences", "inputs"], "every write, flush, sync or index call that can fail, at every point of every history",
     "No test injects a failure; whether an error is dropped depends on which of the many calls in a sequence fails.",
     [PRI, BIN, SINK, WR, SEG, IDX], m(("error propagation in the encoders", PRI), ("error propagation in the sink and the writer", SINK), ("segment close and sync", SEG))),
    ("C06", "Bitmap run-length encoding is lossless",
     "For every sequence of bits appended to the bitmap encoder, in any mix of single bits, whole bitmaps and parts of bitmaps, decoding the finished output gives the same bits in the same order and stops exactly at its end. The same holds again after the encoder has been cleared and reused.",
     ["inputs", "histories"], "all bit sequences of all lengths, however they are appended, and any number of reuses",
     "The tests round-trip three patterns; runs, literals and the transitions between them interact over the whole sequence, and lengths are unbounded.",
     [RLE, VAR], m(("encoder state machine", RLE), ("decoder", RLE), ("length prefixes", VAR))),
    ("C07", "Bitmap run-length encoding stays compact",
     "The encoding of a bitmap is never longer than about the plain bitmap: for n groups of eight bits it takes at most n + n/64 + 1 bytes (plus a short fixed amount for the end). A bitmap made of k stretches of equal bytes takes at most about twelve bytes per stretch, however long the stretches are.",
     ["inputs"], "all bit sequences of all lengths",
     "The tests compare only decoded bits, so an encoding that grows without bound passes them.",
     [RLE], m(("run and literal emission", RLE))),
    ("C08", "Variable-length integers round-trip",
     "Every unsigned 64-bit number is encoded in the shortest little-endian base-128 form, of the announced length and at most ten bytes, and decoding those bytes, whatever follows them, gives back the number and consumes exactly those bytes. Ten bytes without an end are rejected with an error.",
     ["inputs"], "all 2^64 numbers, all trailing bytes, all unterminated inputs",
     "The test tries a fixed table of boundary numbers.",
     [VAR], m(("encode, length and decode", VAR))),
    ("C09", "The item-length section of a block is decodable and as narrow as needed",
     "For every list of item lengths below 2^31, the length section of a block decodes to exactly that list: one byte gives a bit width, then the lengths follow packed at that width in whole groups, the last one padded with zeros. The width is the smallest that fits the largest length and there is no group beyond the last length, so the section is as short as the format allows.",
     ["inputs"], "all lists of lengths below 2^31, of every size",
     "No test decodes the section; group boundaries, the partial last group and the widths depend on the whole list.",
     [OFF, UTIL], m(("packing by group", OFF), ("rounding helpers", UTIL))),
    ("C10", "A bitmap is the list of bits appended to it",
     "After any sequence of appends, range appends and clears, a bitmap has exactly the bits appended since the last clear: its length is their number, and each position reads back the bit appended there. Growing never changes earlier bits, whatever capacity it was created with, and appending a range from another bitmap copies the bits up to the requested number of set bits.",
     ["inputs", "histories"], "all operation sequences, lengths and initial capacities",
     "The tests use one random pattern at one capacity and never clear; growth and reuse depend on the history.",
     [BUF], m(("bit storage and growth", BUF))),
    ("C11", "A fixed-width buffer is the list of values and nulls appended to it",
     "After any sequence of appends, null appends, range appends and clears, a buffer of fixed-width values reports exactly the non-null values, the number of rows and the null positions appended since the last clear, and says whether it has nulls. Appending a range of another buffer adds exactly the values of that range with the nulls around them.",
     ["inputs", "histories"], "all operation sequences, nullable or not, and all ranges",
     "The tests append four values once; the relation between values and null bits must hold after every history.",
     [BUF], m(("values and validity kept in step", BUF))),
    ("C12", "A byte-string buffer is the list of items and nulls appended to it",
     "After any sequence of appends, null appends, range appends and clears, a buffer of byte strings reports exactly the items (contents and lengths), the number of rows and the null positions appended since the last clear. Its data is the concatenation of the items and its item boundaries never decrease, including after appending a range of another buffer.",
     ["inputs", "histories"], "all operation sequences with less than 4 GiB of data, nullable or not, and all ranges",
     "The tests append a few strings and one range; boundaries are relative to everything appended before.",
     [BUF], m(("data, offsets and validity kept in step", BUF))),
    ("C13", "A boolean buffer is the list of values and nulls appended to it",
     "After any sequence of appends, null appends and clears, a buffer of booleans reports exactly the values, the number of rows and the null positions appended since the last clear, and says whether it has nulls.",
     ["inputs", "histories"], "all operation sequences, nullable or not",
     "The tests append four values once.",
     [BUF], m(("values and validity kept in step", BUF))),
    ("C14", "The data file is the signature followed by the blocks, indexed exactly",
     "A column's data file holds the file signature followed by every block in the order written, byte for byte and nothing else. The block index holds one entry per block, in order, with the row tag of the block and the position in the file where the block ends, so that consecutive entries delimit the blocks.",
     ["histories", "inputs"], "every history of blocks of every size, with several columns written one after another",
     "The test writes one scaffold segment and looks at no file contents.",
     [SINK, IDX, WR, SEG], m(("position tracking", WR), ("index entries", SINK), ("signature", SEG))),
    ("C15", "Reading blocks returns exactly the requested bytes, in order",
     "Reading a block returns exactly the bytes of the requested range of the file, or an error when the file ends before the range does, never short or shifted data. Reading a sequence of blocks gives one result per request in the order of the requests, each with the row tag of its request, and the reported file length is the number of bytes in the file.",
     ["inputs", "schedules"], "all file contents, all ranges including empty and past the end, all request sequences and concurrency limits",
     "The test reads one file back in two requests; ordering under concurrent reads and reads across the end of the file are not tried.",
     [RD, IO], m(("positioned exact reads", RD), ("ordered stream of reads", RD))),
    ("C16", "A closed segment is self-describing and durable",
     "A segment's two files have names derived from its identifier and begin with their signatures; a closed metadata file ends with the encoded metadata followed by the position where it starts, so that it can be found from the end of the file. The metadata carries the segment's description and, for every column closed, its name, type, encoding, index type and nullability. When closing and then syncing both report success, the complete contents of both files are durable.",
     ["histories", "inputs", "crash_points"], "every set of columns, of every type, encoding and nullability, and every crash after a close and sync that reported success",
     "The only test checks that the writer runs; it reads back neither file, and no test observes what reached the disk.",
     [SEG, WR], m(("file names and signatures", SEG), ("metadata footer", SEG), ("flush and sync of both files", WR))),
    ("C17", "The encoding asked for is the encoding used",
     "A column asked to be stored in an encoding is written in that encoding, with the element type and nullability it was created with, or creating it reports an error when its type does not support the encoding; no other encoding is ever substituted. A column never loses its values because of the encoding chosen for it.",
     ["configurations", "inputs"], "all pairs of element type and encoding, nullable or not",
     "The tests create the raw encoders directly and never go through the selection.",
     [ENC, SNA, SEG], m(("selection by encoding", ENC), ("placeholder encoder", SNA), ("column creation", SEG))),
]

NOTE = ("Verus proves the contracts of every function of /repo/src/store this property depends on, from the current source, for all inputs; "
        "the trusted base (contracts of tokio, std, prost, uuid and bitpacking, listed in the evidence) is assumed. ")
EXTRA = {
    "C02": "Item lengths of 2^31 and more are excluded (see C09).",
    "C05": "A failure that tokio reports only after a later call is covered up to the contract of the file stand-in.",
    "C09": "Known finding: the bitpacking dependency loses data at width 32, which is excluded by precondition.",
    "C15": "The order of results of a buffered stream is the assumed contract of futures' buffered(); schedules are not explored.",
    "C16": "Durability is proved down to successful flush and sync_all of both files, whose contract is assumed; the metadata bytes are those of prost's encoder (assumed).",
    "C17": "Known finding: the Snappy encoding is a placeholder that writes no values.",
}

with open(HERE + "/properties.jsonl", "w") as f:
    for i, t, st, over, txt, why, files, mech in P:
        f.write(json.dumps({"id": i, "title": t, "statement": st, "quantifier": {"over": over, "text": txt},
                            "why_tests_cant": why, "anchors": {"files": files, "mechanism": mech}}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": [{
        "property": p[0],
        "quick_cmd": "python3 check.py %s" % p[0],
        "thorough_cmd": "python3 check.py %s --thorough" % p[0],
        "technique": "contract-based deductive verification of the real code (Verus), with replay of failing inputs",
        "level": "proof",
        "level_note": NOTE + EXTRA.get(p[0], "") + " Functions the verifier cannot take after a change fall back to a labelled bounded search.",
    } for p in P],
    "not_applicable": [],
}
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
