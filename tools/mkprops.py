#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids, anchors and statements stay in one place)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["LnkParse3.lnk_file(...).get_json(True)"]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

L = "LnkParse3/"
HDR = [L + "lnk_header.py", L + "lnk_file.py", L + "decorators.py", L + "utils.py"]

prop("C01", "Header scalars equal the little-endian fields at their documented offsets",
     "For every file that begins with a complete 76-byte header, the report's file size, raw link flags, raw file attributes, raw hot key and three reserved words are the unsigned, and its icon index the signed, little-endian integers at their [MS-SHLLINK] 2.1 offsets, and the class identifier is the GUID at offset 4 in upper-case canonical text. "
     "A class identifier or reserved word that differs from its mandated value is still reported as found, and draws a warning; a mandated value draws none.",
     ["inputs"], "all 2^608 values of the 76 header bytes (header size 0x4C)",
     "The samples contain a few dozen headers, nearly all with zero reserved words, a non-negative icon index and the standard class id.",
     HDR, [("fixed-offset unpack", L + "lnk_header.py LnkHeader"), ("must_be", L + "decorators.py"), ("parse_uuid", L + "utils.py")],
     [("_raw", "the 76 header bytes", L + "lnk_header.py LnkHeader.__init__")])

prop("C02", "Flag names are exactly the set bits, in bit order",
     "For every value of the two 32-bit flag words, the reported link-flag names and file-attribute names are exactly the [MS-SHLLINK] 2.1.1 / 2.1.2 names of the bits that are set, each once and in increasing bit order; undefined bits add no name and change none.",
     ["inputs"], "all 2^32 link-flag words and all 2^32 file-attribute words",
     "Samples show about 20 distinct flag words out of 2^32; many single bits never occur in any of them.",
     HDR[:2], [("LINK_FLAG_MASK", L + "lnk_header.py"), ("FILE_FLAG_MASK", L + "lnk_header.py"), ("link_flags/file_flags", L + "lnk_header.py")])

prop("C03", "Show command and hot key are decoded by the documented tables",
     "The window style is SW_SHOWMAXIMIZED for show command 3, SW_SHOWMINNOACTIVE for 7 and SW_SHOWNORMAL for every other 32-bit value. "
     "The hot key reads '<modifier> - <key> {0xhhhh}' when the key byte and the modifier byte both have an entry in the documented tables (modifier one of UNSET, SHIFT, CONTROL, ALT), and otherwise just its two bytes as four hex digits in file order.",
     ["inputs"], "all 2^32 show commands and all 65536 hot-key words",
     "Samples use two show commands and almost only the unset hot key.",
     HDR[:1], [("WINDOW_STYLES", L + "lnk_header.py window_style"), ("HOTKEY_VALUES_*", L + "lnk_header.py hot_key")])

prop("C04", "FILETIME values denote the same instant, or are reported as absent",
     "Each of the three header times is null when its 64-bit field is zero; otherwise, when the unsigned FILETIME lies in years 1601 to 9999, it is a UTC timestamp denoting that instant to within one microsecond for years 1970 to 2100 and within 50 microseconds elsewhere. "
     "Any later FILETIME (beyond the rounding margin of 0.1 ms at the end of year 9999) is reported as null with a warning, never as a wrong date and never as a failure.",
     ["inputs"], "all 2^64 FILETIME values, for each of the three header times",
     "Samples hold about a hundred timestamps, all within two decades plus three invalid ones; rounding, epoch and range edges are unsampled.",
     [L + "utils.py", L + "lnk_header.py", L + "decorators.py"], [("parse_filetime", L + "utils.py"), ("@filetime", L + "decorators.py")])

prop("C05", "DOS date-times decode exactly or are reported as absent",
     "A file-entry item's modification time is null when its 32-bit DOS date-time is zero, is exactly the UTC year (1980 + 7 bits), month, day, hour, minute and two-second count encoded in it when those form a valid calendar date and time, and is null with a warning in every other case.",
     ["inputs"], "all 2^32 DOS date-time values",
     "Tests see a few hundred ordinary dates; leap days, month/day zero, hour 24+, minute 60+, second 60+ combinations are not sampled.",
     [L + "utils.py", L + "target/shell_fs_folder.py", L + "decorators.py"], [("parse_dostime", L + "utils.py")])

prop("C06", "Sections are located by flags and declared sizes, and sizes add up",
     "After the header, the target ID list, link information, strings and extra data blocks are each read from exactly where the declared extent of the preceding present section ends; a section is present exactly if its link flag is set, and link information that is to be ignored (ForceNoLinkInfo, or neither content flag set) is skipped but not reported. "
     "For a file all of whose declared extents fit, the reported total size is the end of the last extra block plus its (up to four-byte) terminator.",
     ["inputs"], "all combinations of section flags, all declared section sizes, any file length below 2^31 bytes; at most two extra blocks",
     "Samples exercise about ten flag combinations with mutually consistent sizes; none has ForceNoLinkInfo or unusable link information.",
     [L + "lnk_file.py", L + "lnk_targets.py", L + "lnk_info.py", L + "info_factory.py", L + "string_data.py", L + "extra_data.py"],
     [("index accumulation", L + "lnk_file.py LnkFile.process"), ("size()", "each section class")],
     [("index", "running offset of the next section", L + "lnk_file.py LnkFile.process")],
     ["LnkParse3.lnk_file(...).size", "LnkParse3.lnk_file(...).get_json(True)"])

prop("C07", "Item ID lists are walked item by item, each item using only its own bytes",
     "The items of the target ID list and of a shell-item extra block are reported in file order, one per ItemID, each starting exactly its predecessor's declared size later, up to the zero-size terminator or the end of the list's declared extent, and each kind chosen from its type byte by the documented class table. "
     "What is reported for an item depends only on the bytes inside its declared size, and an item of unknown type yields a placeholder giving its declared size plus a warning without disturbing its neighbours.",
     ["inputs"], "ID lists of up to 4 items with arbitrary declared sizes (zero, or at least 3) and type bytes, followed by arbitrary bytes",
     "Samples contain well-formed lists of known types only; bytes following an item are never varied.",
     [L + "lnk_targets.py", L + "target_factory.py", L + "target/lnk_target_base.py", L + "target/unknown.py", L + "extra/shell_item.py"],
     [("_id_lists walk", L + "lnk_targets.py"), ("SHELL_ITEM_CLASSES, 0x70 mask", L + "target_factory.py"), ("_raw_target extent", L + "target/lnk_target_base.py")],
     [("rest", "bytes not yet walked", L + "lnk_targets.py LnkTargets._id_lists")])

prop("C08", "Root-folder, volume and file-entry items are decoded field by field",
     "For every content of such an item, a root folder reports its sort-index value, the sort-index name (or 'Unknown' with a warning) and GUID; a volume item reports its low-nibble flags and either the name at offset 3 of the item (flag bit 0 set, at most 20 bytes) or the GUID at offset 4; a file entry reports size, attribute word, DOS time, kind name (for the documented low type bits) and its primary name, read as UTF-16 exactly when the type byte has bit 2 set. "
     "All offsets are those of the Windows shell item format.",
     ["inputs"], "all item contents; item sizes up to 64 bytes",
     "Samples cover a handful of sort indexes, two volume forms and no Unicode file entry.",
     [L + "target/root_folder.py", L + "target/my_computer.py", L + "target/shell_fs_folder.py", L + "target/lnk_target_base.py"],
     [("as_item", "each item class"), ("get_item_shell_fs_folder", L + "target/lnk_target_base.py")])

prop("C09", "Network, control-panel, CPL and delegate items are decoded field by field",
     "For every content of such an item, a network location reports its flags, location and, exactly when the content flag 0x80 or 0x40 is set, the description and comments that follow in that order; a control panel item its GUID at item offset 16; a control panel category its id and name (or 'Unknown' with a warning); a CPL item its signature, path, name and comments in the ANSI or Unicode layout; a delegate folder its signature, nested file entry and the two GUIDs that follow the declared inner data.",
     ["inputs"], "all item contents; item sizes up to 64 bytes (string-bearing parts up to 10 bytes at full generality)",
     "There is one sample or none per kind; optional parts, offsets and inner sizes are never varied.",
     [L + "target/network_location.py", L + "target/control_panel.py", L + "target/control_panel_category.py", L + "target/control_panel_cpl.py", L + "target/users_files_folder.py"],
     [("as_item", "each item class"), ("_is_unicode, offsets", L + "target/control_panel_cpl.py"), ("_delegate_offset", L + "target/users_files_folder.py")])

prop("C10", "Local link information is decoded by its own offsets",
     "When link information has the local-volume flag (whatever the network flag), the report gives its raw header fields, volume id size, drive type number and name (null beyond the table), serial number in hex and volume label offset, and the base path, path suffix and volume label text found at the declared offsets from the start of the link information (label offsets from the start of the volume id). "
     "Unicode base path and suffix appear exactly when the header size is at least 0x24 and their offset is non-zero; a label offset of 0x14 selects the Unicode label at the following offset, and then no ANSI label is reported.",
     ["inputs"], "all link-information contents and offsets whose fields lie inside the file; any file length below 2^31",
     "No sample has the extended header or a Unicode label; offsets are always the canonical ones.",
     [L + "lnk_info.py", L + "info/local.py", L + "info_factory.py", L + "lnk_file.py"],
     [("offset getters", L + "lnk_info.py"), ("Local", L + "info/local.py"), ("get_json link_info", L + "lnk_file.py")])

prop("C11", "Network link information is decoded by its own offsets",
     "When link information has only the network flag, the report gives the size, flags, raw provider type and name offsets of the relative-link structure at its declared offset, the provider's documented name exactly when its valid-type flag is set and the type is in the [MS-SHLLINK] table, and the net and device names found at their offsets from the start of that structure. "
     "A net-name offset above 0x14 selects the Unicode names and their offsets instead of the ANSI names; a name whose offset is zero, or an ANSI name that is empty, is not reported. Raw header fields and common path suffix are reported as for local link information.",
     ["inputs"], "all link-information contents and offsets whose fields lie inside the file; any file length below 2^31",
     "One sample (network_info) uses one provider and the ANSI layout.",
     [L + "info/network.py", L + "lnk_info.py", L + "lnk_file.py"],
     [("Network", L + "info/network.py"), ("NETWORK_PROVIDER_TYPES", L + "info/network.py")])

prop("C12", "String data fields follow flags, counts and the 260-character clip",
     "Exactly the strings whose flags are set are read, consecutively and in the order description, relative path, working directory, arguments, icon location, each from a 16-bit character count followed by that many characters (two bytes each when IsUnicode is set, else one). "
     "Of the first three at most 260 characters are taken and skipped over, the other two are taken whole; when the file ends inside the section, strings already read are kept and a string whose count cannot be read ends the section with a warning.",
     ["inputs"], "all flag combinations, all 65536 counts per string, any content, any file length below 2^31",
     "Samples have short strings, one of them padded; counts around 260 and truncated sections are not covered, nor are non-Unicode files with several strings.",
     [L + "string_data.py", L + "lnk_file.py", L + "text_processor.py"],
     [("StringData.read", L + "string_data.py"), ("has_* predicates", L + "lnk_file.py")],
     [("start", "offset of the next string", L + "string_data.py StringData.__init__")])

prop("C13", "Text fields decode to their NUL-terminated content and never fail",
     "An ANSI field yields exactly the bytes before its first NUL decoded in the caller's code page (cp1252 by default), else as UTF-8 if they are valid UTF-8, else in the code page with replacement characters and a warning. "
     "A Unicode field yields exactly the 16-bit units before its first NUL unit decoded as UTF-16LE, with replacement characters and a warning when malformed; no content makes either fail, and bytes after the terminator never matter.",
     ["inputs"], "all ANSI field contents of up to 6 bytes and Unicode field contents of up to 10 bytes, for code pages cp1252, cp1250, cp437, latin-1, ascii and utf-8",
     "Tests hold four decoding-error samples; the order of fallbacks and the positions of terminators are not varied.",
     [L + "text_processor.py"], [("read_strings / read_unicode_strings", L + "text_processor.py")])

prop("C14", "The caller's code page governs every ANSI string of the file",
     "Every ANSI string reported from any section - string data, link information, target items, shell items inside extra blocks, nested file entries and extra data blocks - is decoded with the code page passed by the caller (cp1252 when none is given), and no Unicode string is affected by it.",
     ["inputs", "configurations"], "any code page name (treated as an opaque value) and any file that contains one of each ANSI-bearing structure with arbitrary text",
     "No test passes a code page.",
     [L + "lnk_file.py", L + "lnk_targets.py", L + "target/lnk_target_base.py", L + "lnk_info.py", L + "string_data.py", L + "extra_data.py", L + "extra/lnk_extra_base.py", L + "extra/shell_item.py", L + "extra/metadata.py", L + "target/users_files_folder.py"],
     [("cp propagation", "constructor of every section class")])

prop("C15", "Extra data blocks are walked and dispatched by size and signature",
     "Extra data blocks are reported by walking from block to block by declared size until a size below 4 or the end of the data; each block is decoded according to its 32-bit signature from its own bytes only, blocks with undefined signatures are all listed, in file order, as unknown with the SHA-256 of the bytes after their size field, and a later block of a known kind replaces an earlier one. "
     "A block whose content cannot be decoded is left out with a warning without affecting any other block.",
     ["inputs"], "up to 3 blocks of arbitrary signature and declared size (at least 8), any content, any file length below 2^31",
     "Samples hold valid blocks in Windows' usual order; damaged blocks between good ones are not covered.",
     [L + "extra_data.py", L + "extra_factory.py", L + "extra/unknown.py", L + "extra/lnk_extra_base.py"],
     [("ExtraData.process / as_dict", L + "extra_data.py"), ("EXTRA_SIGS", L + "extra_factory.py")],
     [("rest", "bytes not yet walked", L + "extra_data.py ExtraData.process")])

prop("C16", "Fixed-layout extra blocks report each field from its documented place",
     "For every content of a console, console code page, tracker, special folder, known folder, environment, icon environment or shim block that is large enough, each reported number, GUID and text equals the [MS-SHLLINK] 2.5 field at its documented offset, width, signedness and encoding (of the console colour table, its first entry). "
     "A tracker length or version that differs from its mandated value is still reported, with a warning.",
     ["inputs"], "all contents of each block kind, any declared block size",
     "One sample per block kind at most, several kinds (shim, known folder offsets, code page, negative window origin) hardly or not at all.",
     [L + "extra/console.py", L + "extra/code_page.py", L + "extra/distributed_tracker.py", L + "extra/special_folder.py", L + "extra/known_folder.py", L + "extra/environment.py", L + "extra/icon.py", L + "extra/shim_layer.py"],
     [("as_dict", "each block class")])

prop("C17", "Property stores are decoded storage by storage and value by value",
     "A property store block reports its serialized storages in order up to the zero-size terminator, each with declared size, version, format GUID and its values up to the zero-size value, each starting exactly its predecessor's declared size later; values are named by integer id, or by name exactly when the format GUID is D5CDD505-2E9C-101B-9397-08002B2CF9AE. "
     "Each value reports its type's name, a VT_LPWSTR value its text, a VT_I2 value its signed 16-bit number, and a value of any other type, or with non-zero padding, null.",
     ["inputs"], "stores of up to 2 storages and 2 values with arbitrary sizes that fit their container, ids, types, names and contents, texts zero-terminated",
     "Samples hold string, FILETIME and CLSID values; VT_I2, padding, named values and unusual sizes are not covered.",
     [L + "extra/metadata.py"], [("property_store / serialized_property_values", L + "extra/metadata.py"), ("TypedPropertyValue.value", L + "extra/metadata.py")])

prop("C18", "Darwin descriptors unpack to product code, feature and component",
     "A Darwin block reports the ANSI and Unicode descriptors, the product code unpacked from the first 20 characters, the feature name between them and the '>' or '<' terminator (null when empty), and the component code unpacked from the 20 characters after '>' (null when there is none). "
     "A 20-character code of base-85 digits whose four groups each fit 32 bits unpacks to the GUID that Windows Installer packs into it.",
     ["inputs"], "all descriptors over the base-85 alphabet with one '>' or '<', feature names up to 3 characters; all descriptor variants",
     "Two samples with two GUIDs; digit order, group byte order and alphabet are pinned only at those points.",
     [L + "extra/darwin.py", L + "utils.py", L + "decorators.py"], [("parse_packed_uuid", L + "utils.py"), ("feature_name/component_id", L + "extra/darwin.py")])

prop("C19", "Data after the terminator is accounted for, and only when asked",
     "When terminal-block handling is on (the default) and more than the four-byte terminator (a value below 4) remains after the last extra block, the report has a terminal block giving as size the number of bytes from the terminator to the end of the file, and the SHA-256 of everything after the terminator, and the total size covers the whole file. "
     "When it is off, or when nothing follows the terminator, no terminal block is reported.",
     ["inputs", "configurations"], "any trailing data of any length below 2^31, terminator values 0 to 3, both settings, after 0 or 1 extra block",
     "Two samples with appended data.",
     [L + "extra_data.py", L + "extra/terminal.py", L + "lnk_file.py"], [("Terminal", L + "extra/terminal.py"), ("allow_terminal_blocks", L + "extra_data.py")])

prop("C20", "A shell link is self-delimiting inside a larger stream",
     "With terminal-block handling off, a link that ends in a four-byte zero terminator reports its own exact length as size and the same content whatever bytes follow it, so that links chained in one stream are recovered one by one by advancing by the reported size.",
     ["inputs", "configurations"], "any link built from the five sections with arbitrary declared sizes and contents (at most 2 extra blocks), any tail, any total length below 2^31",
     "One sample of nine chained links.",
     [L + "lnk_file.py", L + "extra_data.py", L + "lnk_targets.py", L + "string_data.py", L + "lnk_info.py"], [("size accounting", L + "lnk_file.py LnkFile.process")])

prop("C21", "No content after a complete header makes parsing or reporting fail",
     "For every byte string that begins with a complete 76-byte header (header size 0x4C), constructing the link object and producing its full report, its reduced report and its shortcut target all return normally, however truncated, inconsistent or meaningless the remaining bytes are.",
     ["inputs"], "arbitrary bytes after the header, per section: ID lists, link information, strings and extra blocks of any size and content within the stated bounds, cut off anywhere",
     "A dozen malformed samples; every unguarded field read is a separate way to fail.",
     [L + "lnk_file.py", L + "lnk_targets.py", L + "lnk_info.py", L + "info_factory.py", L + "string_data.py", L + "extra_data.py", L + "extra/shell_item.py", L + "extra/metadata.py", L + "extra/darwin.py", L + "target/*"],
     [("try/except + warnings.warn", "every walker")])

prop("C22", "Every walk makes progress, so parsing always terminates",
     "Parsing and reporting terminate for every input: each step of an ID list, extra block, property storage or property value walk consumes at least one byte of its section, so the number of items reported never exceeds the number of bytes available, whatever sizes the file declares.",
     ["inputs"], "walkers over sections of up to 16 arbitrary bytes (2^128 contents); every declared size",
     "Tests only contain sizes written by well-behaved producers.",
     [L + "lnk_targets.py", L + "extra_data.py", L + "extra/metadata.py", L + "extra/shell_item.py"],
     [("rest = rest[size:]", L + "lnk_targets.py, " + L + "extra_data.py"), ("start += size", L + "extra/metadata.py")])

prop("C23", "JSON output is valid JSON carrying the report unchanged",
     "Printing as JSON writes one valid JSON document, with sorted keys, whose content equals the structured report of the same detail level, timestamps being rendered as ISO 8601 UTC with whole seconds (fraction dropped) and nothing else altered.",
     ["inputs", "configurations"], "any file with any combination of sections and any timestamps, both detail levels",
     "Tests compare JSON text for fixed samples only, at one detail level but for one sample.",
     [L + "lnk_file.py"], [("print_json", L + "lnk_file.py")], None, ["LnkParse3.lnk_file(...).print_json(...)"])

prop("C24", "The reduced report is the full report minus layout details, nothing else",
     "For every file the reduced report equals the full report with only these removed: header size and reserved words; link-information size, header size and the four primary offsets, with the volume id size and label offset (local) or relative-link size and name offsets (network); the target list's size and index; and the modification time of each top-level target item.",
     ["inputs", "configurations"], "any file with any combination of sections",
     "One sample is tested at the reduced level.",
     [L + "lnk_file.py"], [("get_json(get_all)", L + "lnk_file.py")], None, ["LnkParse3.lnk_file(...).get_json(False)", "LnkParse3.lnk_file(...).get_json(True)"])

prop("C25", "The readable report shows every reported value under a readable key",
     "The human-readable output is a YAML rendering, indented under a title line, in which every value of the structured report of the same detail level appears under its key with underscores as spaces and first letter capitalised (all upper case for sections and upper-case keys), header values first, items under their class name; only the raw hot key is dropped, the two flag words are shown as the names joined by ' | ' followed by the raw value, and a raw value gives way where its decoded form has the same readable key.",
     ["inputs", "configurations"], "any file with any combination of sections, both detail levels; YAML serialisation itself is the library's",
     "Four samples are compared as text.",
     [L + "lnk_file.py"], [("print_lnk_file, make_keys_nice, nice_id", L + "lnk_file.py"), ("format_linkFlags/format_fileFlags", L + "lnk_file.py")], None, ["LnkParse3.lnk_file(...).print_lnk_file(...)"])

prop("C26", "The shortcut target is the quoted relative path followed by the arguments",
     "The shortcut target is the relative path, quoted by the Windows command-line rules so that it parses back to one argument, and the command-line arguments verbatim, joined by one space; a part that the file does not provide is left out. "
     "The JSON form is a document with that same string as shortcut_target.",
     ["inputs"], "all relative paths of up to 4 characters and arguments of up to 3 characters, present or absent, readable or cut off",
     "One sample is tested, without arguments.",
     [L + "lnk_file.py", L + "string_data.py"], [("lnk_command", L + "lnk_file.py")], None, ["LnkParse3.lnk_file(...).lnk_command", "print_shortcut_target"])

prop("C27", "Reporting is pure: no call changes what later calls report",
     "Whatever sequence of reporting calls (full or reduced report, JSON, readable, shortcut target, size) is made on one link object, or on others in the same process, each produces the same result as it would on a freshly parsed object, and modifying a returned report affects no later one.",
     ["histories", "inputs"], "all call sequences of length up to 3 over the reporting calls, on any file with any combination of sections",
     "Tests make one reporting call per object.",
     [L + "lnk_file.py", L + "lnk_targets.py", L + "extra_data.py", L + "string_data.py"], [("get_json builds fresh containers", L + "lnk_file.py")])

prop("C28", "The command line and every way of supplying data give the library's result",
     "The command-line tool prints for FILE exactly what the library prints for its bytes: shortcut target with -t (as JSON with -j too), JSON with -j, readable text otherwise, at full detail exactly with -a, decoding with the -c code page (cp1252 by default). "
     "A link built from an open file and one built from that file's bytes report the same.",
     ["inputs", "configurations"], "all 16 combinations of -t -j -a -c with arbitrary file content (any combination of sections)",
     "The command-line entry point has no test at all.",
     [L + "lnk_file.py"], [("main", L + "lnk_file.py"), ("LnkFile.__init__", L + "lnk_file.py")], None, ["LnkParse3.lnk_file.main"])

prop("C29", "Damage stays local: what precedes a cut is reported unchanged",
     "Cutting a file short at any point after the header leaves unchanged everything reported from header fields, from each string, extra block or target item that lies wholly before the cut, and from link information that lies wholly before the cut.",
     ["inputs", "fault_sequences"], "any file of the stated shapes and every cut position",
     "Truncation is not tested at all.",
     [L + "lnk_file.py", L + "lnk_targets.py", L + "string_data.py", L + "extra_data.py", L + "lnk_info.py"], [("per-section error handling", "every section class")])

prop("C30", "Sections are decoded independently of each other",
     "What the report says of a section (target list, link information, each string, each extra block) depends only on that section's own bytes and the caller's code page, and for strings on IsUnicode: it is the same whether the section is the only one of the file or stands among any others, before or after it. "
     "Header fields affect no section beyond the link flags for presence, IsUnicode and ForceNoLinkInfo, and no section affects the reported header.",
     ["inputs"], "every kind of section with free content of fixed layout, alone and among all other sections; every value of each header field",
     "Tests compare whole samples; no two of them share a section in different surroundings.",
     [L + "lnk_file.py", L + "lnk_targets.py", L + "lnk_info.py", L + "string_data.py", L + "extra_data.py", L + "extra/lnk_extra_base.py", L + "target/lnk_target_base.py"],
     [("LnkFile.process", L + "lnk_file.py"), ("get_json", L + "lnk_file.py")])

prop("C31", "A shell item is reported the same wherever it occurs",
     "The same ItemID bytes yield the same reported item in the target ID list, in a shell-item extra block (VistaAndAboveIDListDataBlock), and at any position in either, whatever items stand before or after it.",
     ["inputs"], "every kind of item with free content; alone, before and after another item, in the list and in the block",
     "Samples with shell-item blocks hold few items, none of which also occurs in the target list of another sample.",
     [L + "lnk_targets.py", L + "extra/shell_item.py", L + "target_factory.py", L + "target/lnk_target_base.py"],
     [("LnkTargets", L + "lnk_targets.py"), ("ShellItem", L + "extra/shell_item.py")])

prop("C32", "Well-formed links are read without a warning",
     "For a file whose sections hold documented values (sizes and offsets that fit, assigned signatures and item types, valid dates, texts the code page has), parsing and every report raise nothing and emit no warning, whatever the values are.",
     ["inputs"], "every kind of item, link information, string and block with free documented content, plain and Unicode",
     "The samples that raise warnings and those that do not are not separated by any test; the tests look at the report, not at warnings.",
     [L + "lnk_file.py", L + "lnk_targets.py", L + "extra_data.py", L + "decorators.py", L + "text_processor.py"],
     [("LnkFile.process", L + "lnk_file.py"), ("must_be", L + "decorators.py"), ("TextProcessor.read_string", L + "text_processor.py")])

prop("C33", "Damaged content costs only its own item, section or block",
     "When the declared sizes are intact but the content of one shell item, string, link information or extra block is arbitrary (too short for its layout, with wild offsets, sizes or types inside), everything else - the header, the items before and after it, the other sections, strings and blocks - is reported exactly as if that content were benign.",
     ["inputs", "faults"], "every kind of item, block and link information at several sizes with free content, between intact neighbours; strings with free content",
     "No sample has damaged content; which bytes break a reader halfway, after it has moved a position or changed a table, cannot be listed by hand.",
     [L + "lnk_targets.py", L + "lnk_file.py", L + "extra_data.py", L + "extra_factory.py", L + "info_factory.py", L + "decorators.py"],
     [("LnkTargets", L + "lnk_targets.py"), ("ExtraData", L + "extra_data.py"), ("LnkFile.process", L + "lnk_file.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
