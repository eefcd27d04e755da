#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), note=""):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None), _note=note))

prop("C01", "An acknowledged save delivered the whole file, however the bytes were taken",
  "Whenever a save (text, binary or DXB; to a stream or to a file) returns Ok, the bytes the destination accepted are exactly the complete file that the same save writes into memory, no matter how the destination shortens, splits or interrupts the individual writes. Short and interrupted writes alone never make a save fail, and a second save to the same stream appends a second complete copy.",
  ["inputs", "fault_sequences"], "every drawing and format, every sequence of short and interrupted writes",
  "The tests save into a Vec, which always takes everything offered.",
  ["src/drawing.rs", "src/code_pair_writer.rs", "src/dxb_writer.rs"],
  [("write_all / write_fmt / WriteBytesExt everywhere bytes leave", "src/code_pair_writer.rs, src/dxb_writer.rs")],
  ["Drawing::save", "Drawing::save_binary", "Drawing::save_dxb", "Drawing::save_file*"])
prop("C02", "A failed write is reported, leaves a prefix, and can be retried",
  "If the destination of a save reports an error or accepts no more bytes, the save returns an I/O error of that same kind: it neither returns Ok nor panics nor reports something else. What the destination accepted is then a prefix of the complete file, the drawing is unchanged, and saving again to a healthy destination writes the complete file.",
  ["inputs", "fault_sequences"], "every drawing and format, every point of failure, kind of error and retry history",
  "No test makes a write fail.",
  ["src/drawing.rs", "src/code_pair_writer.rs", "src/dxb_writer.rs", "src/dxf_error.rs"],
  [("? on every write, saving borrows the drawing immutably", "src/drawing.rs save_internal, src/code_pair_writer.rs, src/dxb_writer.rs"), ("From<io::Error>", "src/dxf_error.rs")],
  ["Drawing::save", "Drawing::save_binary", "Drawing::save_dxb"])
prop("C03", "A file save is acknowledged only when the whole file is stored",
  "When saving to a file name (text, binary or DXB) returns Ok, the file of that name holds exactly the complete new output and nothing of an older file, whichever disk operations failed or however full the disk became on the way; otherwise the save returns the I/O error. On a healthy disk it succeeds, also right after a failed attempt, and no file stays open.",
  ["inputs", "fault_sequences", "histories"], "every drawing, format, older file, disk capacity and failing disk operation, and retries after failures",
  "The tests only save to a healthy disk, and the last bytes leave a write buffer after the last checked write.",
  ["src/drawing.rs"],
  [("create and truncate, buffered write, explicit flush", "src/drawing.rs save_file_internal, save_file_dxb")],
  ["Drawing::save_file", "Drawing::save_file_binary", "Drawing::save_file_dxb"])
prop("C04", "What a load returns depends on the bytes, not on how they arrive",
  "For the same bytes and text encoding, loading returns the same drawing or the same error from memory, from a stream that delivers them in any pieces with any interruptions, and from a file.",
  ["inputs", "fault_sequences"], "every valid or damaged file in each format, every way of splitting and interrupting its delivery",
  "The tests load from memory or from a local file that is delivered in one piece.",
  ["src/drawing.rs", "src/code_pair_iter.rs", "src/dxb_reader.rs", "src/helper_functions.rs"],
  [("read_to_end, Bytes, read_exact", "src/code_pair_iter.rs, src/helper_functions.rs, src/dxb_reader.rs")],
  ["Drawing::load", "Drawing::load_with_encoding", "Drawing::load_file", "Drawing::load_file_with_encoding"])
prop("C05", "A failed read is reported, never taken for data or for the end of the file",
  "If the source reports a read error (other than an interruption) to a load, the load returns that I/O error and neither Ok nor a panic, wherever in the file the error strikes and whether or not it repeats; loading the same bytes again from a healthy source gives the result it always gives.",
  ["inputs", "fault_sequences"], "every valid or damaged file in each format, every point of failure and kind of error",
  "No test makes a read fail.",
  ["src/drawing.rs", "src/code_pair_iter.rs", "src/dxb_reader.rs", "src/helper_functions.rs", "src/dxf_error.rs"],
  [("every read error is returned as DxfError::IoError", "src/helper_functions.rs read_line and read_u8, src/dxb_reader.rs")],
  ["Drawing::load", "Drawing::load_file"])
prop("C06", "A save cut short by a crash is never mistaken for a different drawing",
  "A file that ends in the middle of one of its sections (or, for DXB, before its end marker) is refused with an error; one that ends between sections is refused or loads as exactly the content of its complete sections. A crash in the middle of a file save leaves under that name the older file or a prefix of the new one.",
  ["inputs", "crash_points"], "every drawing and format, every crash point and torn write",
  "The tests load complete files only.",
  ["src/drawing.rs", "src/entity_iter.rs", "src/object_iter.rs", "src/block.rs", "src/dxb_reader.rs"],
  [("section end markers are required", "src/drawing.rs read_sections and the read_* functions it calls")],
  ["Drawing::load", "Drawing::save_file*"])
prop("C07", "Corrupted files never crash, hang or exhaust the program that loads them",
  "For every sequence of bytes, in particular every corrupted drawing file, loading returns Ok or an error within time and memory proportional to its size: it never panics, aborts, overflows the stack or loops. A drawing that was loaded from such bytes can be normalized and saved in every format and version without a panic either.",
  ["inputs", "fault_sequences"], "every drawing, format and sequence of stored-data faults (bit flips, lost, repeated, swapped or zeroed ranges and records, replaced values, truncation)",
  "The tests load a handful of malformed files.",
  ["src/drawing.rs", "src/code_pair_iter.rs", "src/dxb_reader.rs", "src/helper_functions.rs", "src/entity.rs", "src/object.rs", "src/thumbnail.rs"],
  [("checked parsing and checked indexing", "src/helper_functions.rs, src/code_pair_iter.rs, src/object.rs, src/entity.rs")],
  ["Drawing::load", "Drawing::normalize", "Drawing::save*"])

NA = []
exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    for n in NA:
        f.write(json.dumps({k: v for k, v in n["prop"].items() if not k.startswith("_")}) + "\n")
checks = [dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
    technique="deterministic simulation with fault injection (seeded search over fault sequences and schedules, exact replay)",
    level="exploration",
    level_note=(p["_note"] + " " if p["_note"] else "") + "Seeded search: the property held in every simulated run made, not a proof. Trusts the simulator's model of streams, disk, clock, randomness and scheduling and its input generator; the library itself runs unmodified.")
    for p in P]
json.dump(dict(version=1, setup_cmd="bash build.sh", checks=checks,
    not_applicable=[dict(property=n["prop"]["id"], reason=n["reason"]) for n in NA],
    notes="No hooks in /repo: every seam is taken at the C library boundary, at the Read/Write traits and at the allocator of the simulator's own process."),
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
