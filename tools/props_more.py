prop("C08", "The same edits always make the same bytes",
  "Two processes that apply the same edits to a drawing and save it in the same format write identical files: nothing in the output depends on hash seeds, random numbers, the time, the thread, or addresses, apart from the dates and identifiers that a new drawing or a load makes up and the caller can set.",
  ["inputs", "histories", "configurations"], "every history of edits, loads and saves, every choice of hash keys, random numbers, clock and time zone in each process",
  "A test runs in one process with one set of hash keys and compares files with literals that have at most one hashed entry.",
  ["src/drawing.rs", "src/object.rs", "src/entity.rs", "build/object_generator.rs", "build/other_helpers.rs"],
  [("hashed collections are sorted before they are written or normalized", "src/object.rs, src/drawing.rs normalize_*")],
  ["Drawing::save", "Drawing::save_binary", "Drawing::save_dxb", "Drawing::normalize"])
prop("C09", "Dates in files are wall clock times, the same in every zone and at every time",
  "A local date is stored as the calendar day and time of day it shows (as a Julian date), a universal date as that of UTC; loading in the same or any other time zone, whatever its rules, skipped and repeated hours, and at any later time, shows the same day and time to the second wherever that zone has such a time. No date and no zone makes a save or load fail or panic, and repeated saving does not shift a date.",
  ["inputs", "configurations", "histories"], "every date, every time zone at saving and at loading (also ones with changes of clock, odd offsets and gaps), every current time",
  "The tests run in one zone at the current time and use a handful of dates.",
  ["src/helper_functions.rs", "src/header.rs", "build/header_generator.rs", "src/object.rs"],
  [("as_datetime_local, as_datetime_utc, as_double_local, as_double_utc, epoch", "src/helper_functions.rs")],
  ["Header dates ($TDCREATE, $TDUPDATE, $TDUCREATE, $TDUUPDATE)", "LayerIndex, SpatialIndex and SunStudy dates"])
prop("C10", "What an acknowledged save stored is what a later load finds",
  "When a text or binary save to a file returns Ok, a process that loads the file later finds every item of the drawing in its place and order (header variables, table items, blocks, entities with their attributes and vertices, objects, classes, thumbnail, extended data and extension groups), with the value of every field that the format and version have a place for. That holds over any number of restarts, edits, failed and retried saves, and conversions between formats and versions.",
  ["inputs", "histories", "fault_sequences"], "every drawing, format and version, every history of saves, failed saves, restarts, edits and conversions",
  "The tests round-trip a handful of items with a few fields set, in one version, in memory.",
  ["src/drawing.rs", "src/entity.rs", "src/object.rs", "src/block.rs", "src/header.rs", "src/code_pair_writer.rs", "src/code_pair_iter.rs", "src/x_data.rs", "src/extension_data.rs", "build/*.rs", "spec/*.xml"],
  [("paired reader and writer of every kind of item, generated from the same specification", "build/*.rs, spec/*.xml"), ("hand-written readers and writers", "src/entity.rs, src/object.rs, src/block.rs")],
  ["Drawing::save_file, Drawing::save_file_binary", "Drawing::load_file"], note="Which fields a version and format keep is taken from a survey of this tree (golden/fields.txt); fields it loses today are not claimed (known findings).")
prop("C11", "Loading and saving over and over settles and never drifts",
  "A drawing loaded from a file and saved again in the same format and version gives a file that, loaded and saved once more, comes out unchanged apart from the handle counter: repeated load and save cycles, also by new processes at other times, settle at once and never grow, lose, reorder or alter anything. Each such cycle is accepted.",
  ["inputs", "histories"], "every drawing, format and version, any number of cycles and restarts",
  "No test saves what it loaded more than once.",
  ["src/drawing.rs", "src/entity.rs", "src/object.rs", "src/block.rs", "src/code_pair_iter.rs", "src/code_pair_writer.rs"],
  [("normalize after load adds nothing twice", "src/drawing.rs"), ("escaping and un-escaping of text, rounding of numbers", "src/code_pair_writer.rs, src/helper_functions.rs, src/code_pair_value.rs")],
  ["Drawing::load", "Drawing::save", "Drawing::save_binary"])
prop("C12", "Handles are unique, stable and never given out twice",
  "After every operation on a drawing (adding and removing items of every kind, normalizing, saving, loading), each item of the drawing has a handle that is not zero, that no other item has, and that is below the next one to be given out. An item keeps its handle for as long as it lives, also through files that store handles, a handle once given out is never given to another item (short of clearing the whole drawing, which starts over), and looking up a handle finds exactly the item that has it, or nothing.",
  ["histories", "inputs"], "every history of additions, removals, normalizations, clears, saves and loads",
  "The tests check single additions and single loads.",
  ["src/drawing.rs", "src/drawing_item.rs", "src/handle_tracker.rs", "src/entity.rs", "src/block.rs", "build/table_generator.rs"],
  [("assignment of handles in add_* and assign handles while loading; next_available_handle", "src/drawing.rs, src/drawing_item.rs"), ("item_by_handle", "src/drawing.rs")],
  ["Drawing::add_*", "Drawing::remove_*", "Drawing::item_by_handle", "Drawing::item_by_handle_mut", "header.next_available_handle"],
  note="Files of other programs whose handle counter is missing or too low are outside the claim.")
prop("C13", "Concurrent and nested calls do not affect each other",
  "Loads, saves and edits of different drawings that run at the same time in one process, and ones that run inside a reader or writer that another load or save is using, give exactly the results each gives alone; a failure, panic or slow stream in one of them has no effect on another.",
  ["schedules", "inputs", "fault_sequences"], "every set of simultaneous or nested calls, every interleaving of their steps, with failing streams",
  "The tests run each call on its own and compare no interleavings.",
  ["src/drawing.rs", "src/code_pair_writer.rs", "src/code_pair_iter.rs", "src/helper_functions.rs"],
  [("no shared mutable state: everything a call uses belongs to it", "src/*.rs")],
  ["Drawing::load*", "Drawing::save*", "Drawing::normalize", "Drawing::add_*"])
prop("C14", "Memory, work and reads are bounded by the size of the input",
  "Loading, saving and normalizing take memory and work at most proportional to the size of the file, whatever lengths and counts the file states; a load reads its source once to the end of the file and not after it; and nothing is kept when the drawing is dropped, however often a process loads and saves.",
  ["inputs", "histories"], "every kind of item in every number, in each format, and every stated length or count",
  "The tests load small files and measure nothing.",
  ["src/drawing.rs", "src/code_pair_iter.rs", "src/dxb_reader.rs", "src/helper_functions.rs", "src/entity.rs", "src/object.rs"],
  [("single pass readers that grow their collections as items arrive", "src/code_pair_iter.rs, src/entity_iter.rs, src/object_iter.rs, src/dxb_reader.rs")],
  ["allocations and reads during Drawing::load, Drawing::save*, Drawing::normalize"])
prop("C15", "Every name that an item refers to exists in the drawing",
  "After adding an item to a drawing or loading a drawing, every layer, line type, text style, dimension style, multiline style and view that its entities, layers, blocks and objects name exists in it, and every block has its block record; after normalizing so do the standard items and the layer and coordinate systems the header names, and the tables are in order of name. No addition or load makes a second item of a name that is there or alters, renames or removes the one that is there, and normalizing again adds and removes nothing.",
  ["histories", "inputs"], "every history of additions, normalizations, saves and loads, every choice of names and kinds",
  "The tests check one reference at a time on a new drawing.",
  ["src/drawing.rs", "src/tables.rs", "src/entity.rs", "src/object.rs"],
  [("ensure_* in add_* and normalize_*", "src/drawing.rs")],
  ["Drawing::add_*", "Drawing::normalize", "Drawing::load", "Drawing::layers() and the other table iterators"])
prop("C16", "A line that cannot be read is an error that names that line",
  "If one line of a text file is damaged so that it can no longer be read as what its place calls for (a group code or number that is not a number at all, a 32- or 64-bit integer out of its range, a true or false that is not a number, hexadecimal data that is not), loading returns an error and never a drawing; where the error names a line, it is the damaged one or the other line of its pair. The error has a readable message.",
  ["inputs", "fault_sequences"], "every drawing and version, every line of its file, every such damage and way of delivery",
  "The tests damage one value of one small file.",
  ["src/code_pair_iter.rs", "src/helper_functions.rs", "src/dxf_error.rs", "src/code_pair_value.rs"],
  [("parse_* with the offset of the line, ? on every pair", "src/helper_functions.rs, src/code_pair_iter.rs")],
  ["Drawing::load", "DxfError"])
prop("C17", "DXB files keep the geometry, layers and colours of what they can hold",
  "Saving a drawing in the DXB format and loading it keeps, in order, every line, point, circle, arc, trace, solid, 3D face and polyline of the drawing (or of its one block, with the base point, if it has no entities) with its coordinates in the precision and dimensions DXB has, its layer (if each character of its name fits a byte other than zero) and its colour. That holds through repeated saves, failed and retried saves, restarts and conversions to other formats; kinds DXB has no place for are left out without disturbing the others.",
  ["inputs", "histories", "fault_sequences"], "every sequence of entities, layers and colours, every history of saves, restarts and conversions",
  "The tests store single entities in one layer and colour.",
  ["src/dxb_writer.rs", "src/dxb_reader.rs", "src/dxb_item_type.rs"],
  [("layer and colour changes are written and read as a running state", "src/dxb_writer.rs, src/dxb_reader.rs")],
  ["Drawing::save_dxb", "Drawing::save_file_dxb", "Drawing::load"])
prop("C18", "Text in the code page of the caller's choice is read as it was written",
  "Text of a file before R2007 loads as the characters its bytes stand for in the encoding the caller names, also where a byte of a character looks like a backslash, a brace or a byte order mark, and text of a later file as UTF-8, whatever the encoding named; the same name is then the same layer everywhere. The way the bytes are delivered makes no difference.",
  ["inputs", "fault_sequences"], "every text and code page, every version, every way of splitting the delivery",
  "The tests load one string in one code page.",
  ["src/drawing.rs", "src/code_pair_iter.rs", "src/helper_functions.rs"],
  [("decoding each line in the current encoding, switched by $ACADVER", "src/helper_functions.rs read_line, src/drawing.rs")],
  ["Drawing::load_with_encoding", "Drawing::load_file_with_encoding"])

prop("C19", "What a text file says decides what is loaded, not how it is laid out",
  "A text file that another program has laid out differently loads as exactly the same drawing: with line feeds in place of carriage returns and line feeds, or both mixed, with no line end after the last line or with a byte order mark at the start, with blanks around group codes and numbers, with numbers spelt in another way (signs, zeros, exponents, upper or lower case, also in the codes of escaped characters), with comments between any two group code and value pairs, and with sections, tables, header variables, entities and objects of unknown names, and any content, between the others. The way the bytes are delivered makes no difference either.",
  ["inputs", "fault_sequences"], "every drawing and version, every such layout of its file, every way of splitting the delivery",
  "The tests load a few short files laid out by hand.",
  ["src/code_pair_iter.rs", "src/code_pair_put_back.rs", "src/helper_functions.rs", "src/drawing.rs", "src/entity.rs", "src/object.rs", "src/block.rs"],
  [("trimming and parsing of lines, skipping of comments", "src/code_pair_iter.rs, src/code_pair_put_back.rs, src/helper_functions.rs"), ("swallow_section, swallow_table, unsupported entities, objects and header variables", "src/drawing.rs, src/entity.rs, src/object.rs")],
  ["Drawing::load", "Drawing::load_file"])

prop("C20", "Normalizing makes every value valid and leaves what is valid alone",
  "After a drawing is normalized, the sizes that have to be positive are positive (those of the header, text styles, views and view ports), no layer has the colour BYLAYER or BYBLOCK or lacks a line type, and no entity, block or setting of the header that needs a layer, style or file name has an empty one; each value that was not valid has its documented default. Every value that was valid, and every other value and item of the drawing, its order and its thumbnail are exactly as before. That holds at every point of a history of edits, additions, saves, loads and restarts.",
  ["histories", "inputs"], "every drawing, every value of every field, every history of edits, additions, normalizations, saves and loads",
  "The tests normalize a drawing with one value that is not valid at a time.",
  ["src/drawing.rs", "src/header.rs", "src/table.rs", "src/block.rs", "src/entity.rs", "src/helper_functions.rs"],
  [("normalize of each item, ensure_positive_or_default, default_if_empty", "src/header.rs, src/table.rs, src/block.rs, src/entity.rs, src/helper_functions.rs")],
  ["Drawing::normalize", "Drawing::header", "Drawing::layers(), styles(), views(), view_ports(), entities(), blocks(), objects()"])

prop("C21", "A DXB file of another program loads as what its items say",
  "A DXB file that uses the whole of the format loads as exactly the entities its items describe, in order: with coordinates as integers or as floating point numbers, switched anywhere, and any scale factor (which applies to integer coordinates, not to angles, bulges, colours or flags); lines and traces that go on from where the last one ended; bulges (as integers in units of 1/65536) and widths of vertices; and layer, colour, number mode and scale factor each holding from where they are set until they are set again. A base point at the start makes it a block. The end marker ends the drawing whatever follows it, and the way the bytes are delivered makes no difference.",
  ["inputs", "histories", "fault_sequences"], "every sequence of items and changes of state, every number, every way of splitting the delivery",
  "The tests load one short file in each number mode.",
  ["src/dxb_reader.rs", "src/dxb_item_type.rs", "src/entity_iter.rs", "src/helper_functions.rs"],
  [("the reader's running state: layer_name, current_color, scale_factor, is_integer_mode, last_line_point, last_trace_p3", "src/dxb_reader.rs")],
  ["Drawing::load", "Drawing::load_file"])
prop("C22", "A flag of an item is what it was last set to",
  "Every flag of the header, of a block, a class, a view port, an entity and an object reads as it was last set, whatever other flags of the item or of other items are set or cleared in between, in any order, and across saving and loading in any version of the format that has the flag, as text or binary. Setting a flag changes nothing else of the item, nor anything of a copy of the drawing, and setting the flags back gives the item as it was.",
  ["histories"], "every sequence of setting flags, copying, saving and loading, for every kind of item with flags, in every version and format",
  "The tests set one or two flags of few items, once.",
  ["src/block.rs", "src/class.rs", "src/enums.rs", "build/header_generator.rs", "build/entity_generator.rs", "build/object_generator.rs", "spec/HeaderVariablesSpec.xml", "spec/EntitiesSpec.xml", "spec/ObjectsSpec.xml"],
  [("the masks of the flag accessors and the words they are kept in", "src/block.rs, src/class.rs, src/enums.rs, spec/*.xml")],
  ["Header, Block, Class, ViewMode, entities and objects: the accessors of their flags", "Drawing::load", "Drawing::save*"])

def na(id, title, statement, over, text, why, files, mechanism, observe, reason):
    prop(id, title, statement, over, text, why, files, mechanism, observe)
    NA.append(dict(prop=P.pop(), reason=reason))
na("C90", "Conversions between raw numbers and colours, line weights and enumerations agree",
  "Turning a colour, line weight, unit or other enumeration value into its raw number and back gives the same value, and a raw number that stands for none is refused.",
  ["inputs"], "every value of every such type", "The tests sample a few values.",
  ["src/color.rs", "src/line_weight.rs", "src/enums.rs"], [("from_raw_value, raw_value, FromPrimitive", "src/color.rs, src/line_weight.rs")], ["Color, LineWeight, enums"],
  "Pure functions of one small number, without I/O, time, scheduling or history: there is nothing to simulate, and enumerating their inputs is another technique. Where they matter to a file they are exercised by C10 and C17.")
na("C91", "The serialized form of a drawing is complete",
  "With the serialize feature on, a drawing put through serde and back is the same drawing.",
  ["inputs"], "every drawing", "The tests serialize a few values.",
  ["src/lib.rs", "src/drawing.rs"], [("derive(Serialize, Deserialize)", "src/*.rs")], ["serde::Serialize for Drawing"],
  "A pure derived function of a value; no fault, schedule, clock or I/O seam of this library is involved (the streams belong to the serde format crate), so a simulator adds nothing to plain enumeration of values.")
na("C92", "A file for an old version of the format contains only what that version knows",
  "No group code, item or section that a version of the format does not define is written into a file of that version.",
  ["inputs"], "every drawing and version", "The tests check a few items.",
  ["spec/*.xml", "build/*.rs"], [("minVersion and maxVersion of every item and field", "spec/*.xml")], ["Drawing::save"],
  "A pure function of the drawing whose only oracle is Autodesk's specification per version, which is not available here; the simulator could only compare the code with its own tables.")
