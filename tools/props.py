"""The properties; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json."""
import json
from pathlib import Path

P = []
S = "src/vfbLib/"


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note))


prop("B01", "Encoded integers are written and read back exactly",
     "Every integer of the 32 bit signed (or, where asked for, unsigned) range is written in the shortest form of the Type 1 charstring number encoding (1, 2 or 5 bytes; always 5 bytes when the long form is asked for) and read back as the same number, with the stream left exactly behind it. Numbers outside of the range are refused. Incomplete or undefined byte sequences raise an error and never yield a number.",
     ["inputs"], "all 32 bit integers in both signednesses and forms; all byte sequences",
     "The tests sample some twenty values; an off-by-one at one boundary of one form is invisible to them.",
     [S + "parsers/value.py", S + "compilers/value.py", S + "value.py"],
     [("shortest-form selection", S + "compilers/value.py"), ("first-byte dispatch", S + "parsers/value.py")],
     ["encoded bytes", "decoded value", "stream position"],
     "differential monitor against an independent codec, dense enumeration plus sampling", "dense range of values, all 1 and 2 byte codes")
prop("B02", "An untouched VFB passes through byte by byte",
     "Reading a VFB file and writing it again without changes reproduces every entry of the file in order with identical id and data, including entries with unknown ids, empty entries, entries of 64 KB and more (32 bit length field exactly for more than 65535 bytes), multiple master kerning pairs whose stored size is unreliable, and files without an end marker. Nothing behind the end marker is kept. Writing to a path and to a stream give the same bytes.",
     ["inputs"], "all well-formed containers",
     "Tests read a few real files; sizes around the 64 KB limit, unknown ids and missing end markers do not occur in them.",
     [S + "vfb/vfb.py", S + "vfb/entry.py", S + "vfb/header.py", S + "parsers/header.py", S + "compilers/header.py"],
     [("entry framing", S + "vfb/entry.py"), ("read loop", S + "vfb/vfb.py")],
     ["written bytes", "entries of the read file"],
     "byte-exact monitor over generated and real containers", "generated containers and all real files of the test data")
prop("B03", "Every entry type is decoded to the values its bytes hold",
     "For each known entry type, decoding yields exactly the values that the bytes encode according to the file format, for any number of masters, both platforms, any order of tagged fields and any legal form of the numbers.",
     ["inputs", "configurations"], "all well-formed bytes of all entry types, 1 to 16 masters, both platforms",
     "Tests decode one or two samples per entry type, mostly single master.",
     [S + "parsers", S + "constants.py", S + "enum.py"],
     [("one parser per entry id", S + "constants.py"), ("master-wise reading", S + "parsers/glyph.py")],
     ["decoded data of the entry"],
     "differential monitor against an independent model of the format", "all 144 entry ids, generated content")
prop("B04", "Encoding is the inverse of decoding for every entry type",
     "Compiling the decoded form of an entry gives the canonical bytes of that content, counts and lengths included, and decoding them gives the same content again; entries in canonical form are reproduced byte by byte. Everything that can be decoded from a well-formed entry can be compiled, compiling does not change the data it is given, and compiling the same content twice gives the same bytes.",
     ["inputs", "configurations"], "all contents of all entry types, 1 to 16 masters, both platforms; all entries of real files",
     "Tests compile one or two samples per entry type; most combinations of optional parts and masters are never compiled.",
     [S + "compilers", S + "constants.py", S + "vfb/entry.py"],
     [("one compiler per entry id", S + "constants.py"), ("relative coordinates and value counts", S + "compilers/glyph.py")],
     ["compiled bytes", "content after a round trip"],
     "round-trip and byte-exact monitors against an independent model", "all 144 entry ids and every entry of the real files")
prop("B05", "Looking at the data never changes what is written",
     "Any sequence of decoding, compiling, exporting and glyph look-ups, on single entries or the whole file, leaves the content, number, ids and order of the entries as they were, and writing at any point gives the bytes of the original file (the canonical form of the same content for entries that were decoded; the original bytes for all others).",
     ["histories", "inputs"], "all sequences of read-only operations on all files",
     "Tests decode a whole file once; interleavings of partial decoding, compiling, look-ups and writing are not exercised.",
     [S + "vfb/vfb.py", S + "vfb/entry.py", S + "vfb/glyph.py", S + "json.py"],
     [("lazy decoding", S + "vfb/entry.py"), ("glyph access", S + "vfb/vfb.py")],
     ["written bytes and content after every operation"],
     "history monitor: random operation sequences, state compared with a model after each step", "random histories on generated and real files")
prop("B06", "An edit changes only the edited entry",
     "After any sequence of replacing the content or bytes of entries, and adding, inserting, moving or removing entries, the written file consists of exactly the resulting entries in order, where each edited entry has its new content with a matching length field and all others have the bytes they had before.",
     ["histories", "inputs"], "all sequences of edits, with decoding and writing in between",
     "Tests do not edit files; stale sizes or cached headers only show after an edit that follows a write or a decode.",
     [S + "vfb/vfb.py", S + "vfb/entry.py"],
     [("entry header is computed from the current data", S + "vfb/entry.py")],
     ["written container"],
     "history monitor: random edits against a model list of entries, byte-exact", "random edit sequences incl. sizes around 64 KB")
prop("B07", "Data which can't be decoded is kept and reported",
     "When the bytes of an entry can't be decoded, decoding the entry or the whole file raises an error and the file is marked as having errors, the entry keeps its bytes, all other entries are unaffected, and writing the file still reproduces it byte by byte.",
     ["inputs", "fault_sequences"], "all damaged entries of all types",
     "Tests only decode well-formed entries.",
     [S + "vfb/entry.py", S + "vfb/vfb.py", S + "parsers/base.py"],
     [("data is replaced only after successful parsing", S + "vfb/entry.py")],
     ["exception", "entry bytes", "error flag", "written file"],
     "fault injection into entry bytes with state monitors", "every entry type with random damage")
prop("B08", "Reading and decoding always end, and invent no entries",
     "Reading any byte string with a valid file header ends in time and memory proportional to its length, and either fails with an error or yields exactly the entries that are completely present, in order, up to the end marker, plus at most one incomplete last entry. Decoding any bytes as any entry type likewise ends, with an error or a result.",
     ["inputs"], "all byte strings: truncations at every position, damaged headers, sizes and counts",
     "Tests only read intact files.",
     [S + "vfb/vfb.py", S + "vfb/entry.py", S + "parsers/base.py", S + "parsers/glyph.py"],
     [("end of file detection", S + "parsers/base.py"), ("count checks", S + "parsers")],
     ["reads at the end of the stream", "executed lines per byte", "memory", "entries"],
     "runtime monitors: read spy, executed-line budget (sys.monitoring), memory limit", "damaged files and entries")
prop("B09", "Decoding never drops bytes silently",
     "For an entry type whose data says how much of it there is, every strict prefix of well-formed data and every extension of it is refused; for open-ended types a prefix or extension is either refused or all of its bytes are represented in the result. Values that were cut in the middle are never completed or dropped.",
     ["inputs"], "all prefixes and extensions of all well-formed entries",
     "Tests only decode complete entries.",
     [S + "parsers"],
     [("remainder check", S + "parsers/base.py"), ("end of data checks", S + "parsers/value.py")],
     ["error or content of the result"],
     "fault injection (all cuts, extensions) with an accounting oracle", "all cut positions of generated entries")
prop("B10", "Bitmaps are lossless on both platforms",
     "Background images and glyph bitmaps of any size and pattern are decoded to the pixels their run-length encoded bytes stand for, rows padded to 16 bits and inverted for files from Windows, with a text preview that shows the same pixels; encoding pixels gives bytes that stand for the same pixels, regardless of whether the preview is present.",
     ["inputs", "configurations"], "all rasters, all run-length encodings, both platforms",
     "Tests use a handful of tiny bitmaps, none for Windows.",
     [S + "parsers/bitmap.py", S + "compilers/bitmap.py"],
     [("run-length coding in chunks of at most 128", S + "compilers/bitmap.py")],
     ["pixels, preview, encoded bytes"],
     "differential monitor against an independent run-length codec", "rasters with runs around every limit")
prop("B11", "Text is decoded in the file's encoding and never altered",
     "Text in any entry is decoded as Windows-1252 for files from Windows and as UTF-8 for files from macOS or when Unicode strings are forced, and compiled to the same bytes again. Text that doesn't exist in the encoding makes compiling fail and is never replaced by other characters.",
     ["inputs", "configurations"], "all texts, all entry types with text, both platforms, with and without forced Unicode",
     "Tests decode ASCII text.",
     [S + "parsers/base.py", S + "compilers/base.py", S + "parsers/text.py", S + "compilers/text.py", S + "vfb/vfb.py"],
     [("encoding derived from the platform", S + "vfb/vfb.py")],
     ["decoded text", "compiled bytes", "error"],
     "differential monitor with codec oracle", "known finding: UTF-8 text of Mac files is decoded as Windows-1252")
prop("B12", "Files are independent of each other",
     "What a file yields depends only on its own bytes: any interleaving of operations on several files in one process, in threads, or one object that reads several files after each other gives for each file the same content, context (platform, masters, stems), glyphs, errors and written bytes as a fresh object that reads only this file.",
     ["histories", "schedules"], "all interleavings of operations on several files, also in threads; all sequences of reads with one object",
     "Tests use one file per object and process step.",
     [S + "vfb/vfb.py", S + "vfb/entry.py"],
     [("state is cleared before reading", S + "vfb/vfb.py")],
     ["content, context and written bytes of each file"],
     "isolation monitor: interleaved, re-read and threaded runs against runs in isolation", "random interleavings, threads with 1 µs switch interval")


def main():
    import props_more  # noqa: F401

    here = Path(__file__).resolve().parent.parent
    with open(here / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    na = [(p["id"], p["na"]) for p in P if p.get("na")]
    man = {
        "version": 1,
        "setup_cmd": "./check --setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough",
            "technique": "runtime monitoring: " + p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P if not p.get("na")],
        "not_applicable": [{"property": a, "reason": b} for a, b in na],
    }
    (here / "MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert (here / "vm" / "checks" / (p["id"].lower() + ".py")).exists(), p["id"]


if __name__ == "__main__":
    import sys

    sys.modules["props"] = sys.modules["__main__"]
    sys.path.insert(0, str(Path(__file__).parent))
    main()
