#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed when jobs.py has jobs for it."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
import sys; sys.path.insert(0, V)
import jobs
OUT = "whose jobs are listed with their bounds in DESIGN.md and in the evidence file"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I, H, F = "inputs", "histories", "fault_sequences"

prop("T01", "Encoded metadata decodes to the same metadata",
 "Whatever tags are set, known or unknown, of every type and with any values, encoding the metadata and reading the result back yields the same tags in the same directories with the same types, values and byte order. Doing it a second time changes nothing.",
 [I], "every tag code per directory, every type, every value of the stated component counts, both byte orders, and every combination of present/absent tags over several directories, sub-directories, thumbnail and strips",
 "the tests encode a handful of tags with fixed values; a value dependent or layout dependent slip (inline/offset boundary, byte order, alignment, second IFD) is not sampled",
 ["src/metadata/metadata_io.rs", "src/ifd/mod.rs", "src/exif_tag/mod.rs", "src/exif_tag/decode.rs", "src/u8conversion.rs"],
 [("encode", "src/metadata/metadata_io.rs Metadata::encode"), ("encode_ifd/decode_ifd", "src/ifd/mod.rs"), ("from_u16_with_data", "src/exif_tag/mod.rs")], "Metadata::encode and Metadata::new_from_vec")
prop("T02", "Encoded metadata is well-formed TIFF that any reader understands",
 "The bytes produced for any metadata are a well-formed TIFF structure: header, offsets inside the data and on word boundaries, no two structures overlapping, entries in ascending order, announced sizes equal to the bytes present, sub-directories linked from their parent. An independent reader finds exactly the tags that were set, with their types, counts and value bytes in the announced byte order.",
 [I], "as T01, plus tags left empty and offset tags set by the caller", "the tests read the result back with the same code, so a mistake made symmetrically by writer and reader stays invisible",
 ["src/metadata/metadata_io.rs", "src/ifd/mod.rs", "src/endian.rs", "src/exif_tag/mod.rs"], [("encode_ifd", "src/ifd/mod.rs ImageFileDirectory::encode_ifd"), ("encode_metadata_general", "src/metadata/metadata_io.rs")], "bytes of Metadata::encode")
prop("T03", "Writing or clearing TIFF metadata keeps the image intact",
 "After writing metadata to, or clearing it from, a TIFF image of one or more pages, every strip still has its bytes and page, every tag describing the image keeps its value, the written metadata is found, cleared metadata is gone, and the result is a well-formed TIFF with nothing left over from the old file.",
 [I], "both byte orders, data before or after the directories, strip tables of SHORT or LONG, several strips and pages, arbitrary sample values, strip bytes and metadata, and write, clear and their combinations",
 "the tests use two sample images and compare the tags only", ["src/tiff/mod.rs", "src/tiff/vec.rs", "src/metadata/mod.rs", "src/ifd/mod.rs"], [("write/clear", "src/tiff/vec.rs"), ("reduce_to_a_minimum", "src/metadata/mod.rs"), ("strip handling", "src/ifd/mod.rs")], "buffer after write_to_vec / clear_metadata")
prop("T04", "Decoding EXIF data is total",
 "Reading EXIF/TIFF data consisting of arbitrary bytes ends with metadata or an error: it never panics, overflows, reads out of bounds, loops forever or aborts.",
 [I], "all byte strings of the stated lengths, and all single-entry directories of every type with arbitrary tag, count, offset and tail", "the fuzz corpus and tests sample a few malformed inputs", ["src/metadata/metadata_io.rs", "src/ifd/mod.rs", "src/exif_tag/decode.rs", "src/u8conversion.rs", "src/util.rs"], [("decode_ifd", "src/ifd/mod.rs"), ("decode_tag", "src/exif_tag/decode.rs")], "Metadata::new_from_vec")
prop("M01", "Metadata behaves like a map from directory and tag to the last value set",
 "After any sequence of setting and removing tags, the metadata holds exactly the tags that were set and not removed since, each once and with the last value; lookups by code, with or without a directory, find all of them and nothing else. Tags with the same code in different directories never affect each other, and iteration yields every tag once, in order.",
 [H, I], "all sequences of the stated length over set/remove on four directory kinds and two image directories, with symbolic values; lookups with any code", "tests run a few fixed sequences", ["src/metadata/mod.rs", "src/metadata/edit.rs", "src/metadata/get.rs", "src/metadata/set.rs", "src/metadata/iterator.rs", "src/ifd/get.rs", "src/ifd/set.rs"], [("set_tag", "src/metadata/set.rs, src/ifd/set.rs"), ("remove_tag", "src/metadata/edit.rs"), ("get_tag_by_hex", "src/metadata/get.rs"), ("iteration", "src/metadata/iterator.rs")], "public Metadata API")
prop("M02", "Tag and type tables agree with the documented EXIF tables",
 "Each of the 65536 codes in each directory names exactly the documented tag with its documented type, component count, directory and writability, or is treated as unknown and can then be held unchanged with any type. The twelve field types have their TIFF codes and sizes and no other code is a type.",
 [I], "all codes in all four directories, all type codes", "tests look up a few tags", ["src/exif_tag/mod.rs", "src/exif_tag_format.rs"], [("tag table", "src/exif_tag/mod.rs build_tag_enum"), ("type table", "src/exif_tag_format.rs")], "ExifTag::from_u16, ExifTagFormat::from_u16")
prop("M03", "Reducing metadata keeps exactly what describes the image",
 "Reducing metadata to a minimum removes every tag except the ones describing how the image data is stored, which keep their values, in every directory.",
 [I], "all layouts as in T01 plus one tag of any code and the stated types in any directory", "one sample image in the tests", ["src/metadata/mod.rs"], [("reduce_to_a_minimum", "src/metadata/mod.rs")], "Metadata::reduce_to_a_minimum")
prop("V01", "A tag stored with another type keeps its value or is refused",
 "When a tag is stored with a type other than its documented one, decoding yields the same numbers, bytes or text in the documented type whenever they fit, and otherwise reports an error or keeps the tag with the type found; a value is never changed silently.",
 [I], "every tag code of the documented type, the stated pairs of types, all values, both byte orders", "tests cover single values for one or two pairs", ["src/exif_tag/decode.rs", "src/exif_tag/mod.rs", "src/rational.rs"], [("type conversion", "src/exif_tag/decode.rs"), ("construction", "src/exif_tag/mod.rs from_u16_with_data")], "Metadata::new_from_vec")
prop("V02", "Numbers and rationals convert exactly within range and saturate outside",
 "Converting integers to rationals and back is exact; a floating point number whose fraction has a small denominator becomes the rational equal to it with the right sign, and numbers beyond the representable range saturate instead of wrapping; not-a-number becomes 0/0.",
 [I], "all 32-bit integers, all doubles beyond the range, and integer plus fraction for the stated fractions and integer windows", "tests use a few constants, far from the range limits", ["src/rational.rs"], [("From<f64>", "src/rational.rs")], "uR64/iR64 conversions")
prop("V03", "Values convert to and from bytes exactly in both byte orders",
 "For every numeric type the bytes of a value are read in the announced byte order, writing gives back the same bytes, and byte strings that are not a whole number of values are reported. Text keeps every valid UTF-8 byte sequence except trailing NULs, other bytes are read as Latin-1, and writing appends one NUL.",
 [I], "all byte strings of the stated lengths for all types, both byte orders", "tests use a few constants", ["src/u8conversion.rs"], [("U8conversion", "src/u8conversion.rs")], "U8conversion")
prop("D01", "The file type is decided by content signature or name ending",
 "Content is recognised as PNG, JPEG, TIFF, WebP, JXL or HEIF exactly when it carries that format's signature, and a file name ending selects a type exactly when it is one of the documented endings in any letter case; everything else is reported as unsupported.",
 [I], "all contents of the stated lengths, all endings up to five characters", "tests check one sample per type", ["src/filetype.rs"], [("auto_detect", "src/filetype.rs"), ("from_str", "src/filetype.rs")], "FileExtension::auto_detect, FromStr")

FM = [("J", "JPEG", "src/jpg.rs", "APP1 segment", "every other segment, the scan data, and what follows the image"),
      ("P", "PNG", "src/png/mod.rs", "EXIF chunk or text profile", "every other chunk"),
      ("W", "WebP", "src/webp/vec.rs", "EXIF chunk", "every other chunk"),
      ("X", "JXL", "src/jxl.rs", "Exif box", "every other box"),
      ("H", "HEIF", "src/heif/mod.rs", "Exif item", "every other box and item")]
FILES = {"J": ["src/jpg.rs", "src/general_file_io.rs"], "P": ["src/png/mod.rs", "src/png/chunk.rs", "src/png/read.rs", "src/png/text.rs", "src/xmp.rs"], "W": ["src/webp/vec.rs", "src/webp/file.rs", "src/webp/mod.rs", "src/webp/riff_chunk.rs"], "X": ["src/jxl.rs"], "H": ["src/heif/mod.rs", "src/heif/container.rs", "src/heif/box_header.rs", "src/heif/box_type.rs", "src/heif/boxes"]}
for c, n, f, what, rest in FM:
    prop(c + "01", "Writing EXIF to %s can be read back and keeps the rest" % n,
     {"J": "After writing metadata to any JPEG, reading yields exactly that metadata, the image holds exactly one EXIF segment before the scan with a correct length, and removing that segment gives the original without its old EXIF segments: every other segment, the scan data and trailing bytes are untouched.",
      "P": "After writing metadata to any PNG, reading yields exactly that metadata, all chunks have correct lengths and checksums with the EXIF chunk in a legal place, exactly one EXIF source remains, and every other chunk is unchanged and in its old order.",
      "W": "After writing metadata to any supported WebP, reading yields exactly that metadata, the RIFF size and chunk sizes and padding are right, the extended header announces EXIF and the true canvas size and features, exactly one EXIF chunk exists, not between the chunks that make up the image, and every other chunk is unchanged and in order.",
      "X": "After writing metadata to any JXL container, reading yields exactly that metadata, the box structure is well-formed with exactly one Exif box, and every other box is unchanged and in order.",
      "H": "After writing metadata to any HEIF container, reading yields exactly that metadata, the box structure is well-formed, and every item still resolves to the bytes it had before, whatever its offset width, construction method and extents. EXIF data stored in a way that cannot be rewritten is refused as unsupported."}[c],
     [I], "the container layouts built from the stated segment/chunk/box kinds in any of the stated combinations, with symbolic payload bytes and symbolic metadata values", "tests write to one or two sample images and only read the tag back", FILES[c], [("write_metadata", f)], "buffer after Metadata::write_to_vec")
    prop(c + "02", "Clearing %s removes the EXIF data and nothing else" % n,
     {"J": "After clearing, no EXIF segment is left wherever it was, reading finds no metadata, every other segment, the scan data and trailing bytes are unchanged and in order, and clearing again changes nothing. Clearing APP12 or APP13 removes exactly the segments of that kind.",
      "P": "After clearing, no EXIF data is left in its chunk, in text profiles or in the EXIF part of XMP text, reading finds no metadata, every other chunk is unchanged and in order with valid checksums, and clearing again changes nothing.",
      "W": "After clearing, no EXIF chunk is left, the extended header no longer announces EXIF, sizes are right, every other chunk is unchanged and in order, and clearing again changes nothing.",
      "X": "After clearing, no Exif box is left, plain or compressed, every other box is unchanged and in order, and clearing again changes nothing.",
      "H": "After clearing, nothing of the EXIF data is left except orientation and resolution, which are deliberately kept, the box structure is well-formed, every other item still resolves to the bytes it had before, and clearing again changes nothing."}[c],
     [I, H], "as %s01, with EXIF data at any of the stated places, zero to two times" % c, "tests clear sample images once and only check that no tag is found", FILES[c], [("clear_metadata", f)], "buffer after Metadata::clear_metadata")
    prop(c + "03", "Malformed %s data is handled without crashing" % n,
     "Reading from, writing to or clearing data of arbitrary content behind the %s signature ends with a result or an error: no panic, overflow, out-of-bounds access, endless loop or abort." % n,
     [I], "all byte strings of the stated lengths after the signature, and well-formed containers with one arbitrary length, type or offset field", "tests contain few malformed files", FILES[c], [("parse", f)], "Metadata::new_from_vec, write_to_vec, clear_metadata")
prop("F01", "Files and buffers are treated alike",
 "Reading, writing and clearing a file give the same metadata, the same outcome and the same bytes as the same operation on a buffer with the same content, for every format; nothing of the old content is left behind when the file gets shorter. A file the user may only read can be read, and changing it is refused.",
 [I], "the container layouts of the format properties with symbolic payloads", "tests exercise mostly one of the two paths per format", ["src/metadata/metadata_io.rs", "src/jpg.rs", "src/png/mod.rs", "src/webp/file.rs", "src/jxl.rs", "src/heif/mod.rs", "src/tiff/file.rs", "src/general_file_io.rs"], [("file_write/file_clear/file_read", "each format module")], "file content after write_to_file / file_clear_metadata")
prop("F02", "A refused operation leaves the data as it was",
 "When writing or clearing is refused, because the signature is wrong, the structure is malformed, a required tag is missing, the metadata is too large for the container, or the variant is unsupported, an error is returned and the buffer or file is exactly what it was before. Data without the signature of the format is refused, except that writing to TIFF replaces the whole data and HEIF data is judged by its boxes alone.",
 [I], "all contents of the stated lengths and layouts for which an error is returned", "tests do not look at the buffer after an error", ["src/metadata/metadata_io.rs", "src/jpg.rs", "src/png/mod.rs", "src/webp/vec.rs", "src/jxl.rs", "src/heif/mod.rs", "src/tiff/vec.rs"], [("write_metadata/clear_metadata", "each format module")], "buffer after an Err result")

prop("F03", "I/O faults are reported or survived, never taken for success",
 "When opening, reading, writing or truncating a file fails, is interrupted, or transfers fewer bytes than asked for at any point, reading, writing or clearing its metadata either reports an error or has the same result as without the fault. Transfers of fewer bytes than asked for are survived, and reading never changes the file.",
 [F], "one fault of each kind at each call of the operation, for a small file of every format with symbolic payloads and for reading, clearing and writing", "the tests never see an I/O error or a partial transfer", ["src/general_file_io.rs", "src/util.rs", "src/metadata/metadata_io.rs", "src/jpg.rs", "src/png/mod.rs", "src/png/read.rs", "src/webp/file.rs", "src/jxl.rs", "src/heif/mod.rs", "src/tiff/file.rs"], [("file access", "each format module"), ("read_available", "src/util.rs")], "result of the file API and file content afterwards")
prop("D02", "Files are read by content first and changed by name ending",
 "A path whose ending is not a documented one is reported as unsupported; otherwise a file is read as what its content's signature says, and as what its ending says when the content is not recognised. A file without ending and with unknown content, or that does not exist, is refused. Changing a file goes by its ending alone: it does exactly what the same operation of that format does to the content, or refuses and leaves the file alone.",
 [I], "files of every format and arbitrary content of the stated lengths under 28 names: all documented endings in several letter cases, other endings, several dots, none", "tests use matching names and contents", ["src/filetype.rs", "src/metadata/metadata_io.rs", "src/general_file_io.rs"], [("get_file_type, auto_detect", "src/filetype.rs"), ("new_from_path, write_to_file, file_clear_metadata", "src/metadata/metadata_io.rs")], "Metadata file API")
prop("E01", "Metadata encoded for embedding elsewhere is complete and well-formed",
 "Encoding metadata for a format without an image gives one well-formed piece of that format (APP1 segment, profile text, zTXt chunk, EXIF chunk, content of an Exif item) with right lengths, which holds exactly the metadata and is read back when put into an image. Metadata too large for a segment, and formats without such an encoding, are refused.",
 [I], "metadata of the stated shapes with symbolic values, every format, sizes around the limits of the containers", "the tests check it for one sample of some formats", ["src/metadata/metadata_io.rs", "src/jpg.rs", "src/png/mod.rs", "src/webp/mod.rs", "src/heif/mod.rs"], [("as_u8_vec", "src/metadata/metadata_io.rs and each format module"), ("encode_metadata_*", "each format module")], "bytes of Metadata::as_u8_vec")

NOTE = "every value within the stated bounds is decided: all paths of the real code (LLVM IR of the working tree) are executed symbolically, branches and assertions decided by z3; trusts rustc/LLVM, the engine's memory and libc model (sampled paths are re-run natively and compared), and the harness oracles; outside the bounds nothing is claimed"
NA = {}
def main():
    open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
    checks = [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
      "technique": "symbolic execution of the crate's LLVM IR with z3", "level": "model_checking", "level_note": NOTE} for p in P if p["id"] in jobs.PROPS]
    na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in P if p["id"] not in jobs.PROPS]
    json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "hooks": {"guard": "none", "enable": "no hooks are needed: the harness uses the public API only", "source_commits": []}, "checks": checks, "not_applicable": na,
      "notes": "see DESIGN.md; known_findings.txt lists repaired and recorded defects"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
main()
