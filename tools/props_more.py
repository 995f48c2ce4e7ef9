from props import S, prop  # noqa: F401

U = S + "ufo/"
prop("U20", "Master UFOs have the outlines of the source",
     "In the UFO of each master, each glyph has exactly the contours of the source glyph, in order, with the points at the coordinates of that master, their on-curve and off-curve types and smooth flags. Open contours begin with a move point; closed contours have none, and when their last curve ends at the starting point in every master, that point is not doubled. All masters get the same sequence of contours and point types.",
     ["inputs", "configurations"], "all outlines (lines, cubic and quadratic curves, open and closed), any number of masters, all conversion options",
     "Tests compare a handful of glyphs, mostly of single master fonts; closing rules for combinations of curve types and for masters which only coincide partly are not sampled.",
     [U + "paths.py", U + "builder.py"],
     [("conversion of nodes and closing of contours", U + "paths.py")],
     ["contours of each glyph in each master UFO"],
     "differential monitor against an independent model of the outlines", "real fonts and generated coherent fonts")

ALLFONTS = "all fonts, any number of masters, all conversion options"
prop("U21", "Glyph components, metrics, code points, marks and notes reach every master",
     "In the UFO of each master, each glyph has exactly the components of the source glyph, in order, referring to the same glyph with the offset and scale of that master, its advance width and height in that master, its code points (BMP and beyond, in order), the color of its mark, its note (except in minimal UFOs) and its own user data. Nothing of it appears in another glyph.",
     ["inputs", "configurations"], ALLFONTS,
     "Tests sample single glyphs; master-wise values, renamed base glyphs and combinations of optional parts are not sampled.",
     [U + "builder.py", U + "glyph.py", U + "paths.py"],
     [("glyph properties", U + "glyph.py"), ("master extraction", U + "paths.py")],
     ["components, metrics, code points, lib and note of each glyph in each master UFO"],
     "differential monitor against an independent model", "real fonts and generated coherent fonts")
prop("U22", "Anchors and guides are placed right in every master",
     "In each master UFO, each glyph has exactly the anchors of the source glyph, in order, with name and position in that master, and each glyph and the font have exactly the guides of the source: at the same position and angle in that master (horizontal, vertical and slanted), with the name and color of the guide properties. Minimal UFOs have no guides.",
     ["inputs", "configurations"], ALLFONTS,
     "Tests check a few guides of one font; angles, properties by index and direction, and masters are not combined.",
     [U + "guides.py", U + "builder.py", U + "paths.py"],
     [("guide conversion", U + "guides.py"), ("anchor positions of the master", U + "paths.py")],
     ["anchors and guidelines of each glyph, guidelines of the font info"],
     "differential monitor against an independent model", "guides compared as lines (angle modulo 180 or 360)")
prop("U23", "Every pair of glyphs keeps its kerning",
     "For every ordered pair of glyphs, looking up the kerning value in the kerning and groups of each master UFO by the UFO lookup rules (glyph-glyph, glyph-group, group-glyph, group-group) yields the value which the source means for that master: kerning of a key glyph applies to all glyphs of its class on that side, and kerning of other glyphs is an exception. Pairs without kerning have none.",
     ["inputs"], "all kerning and class definitions with coherent classes, any number of masters",
     "Tests compare the kerning dictionaries of a few small inputs and never look up all pairs.",
     [U + "kerning.py", U + "groups.py", U + "builder.py"],
     [("key glyph to group mapping", U + "kerning.py"), ("kerning groups per side", U + "groups.py")],
     ["kerning value looked up for every pair in each master"],
     "conservation monitor: lookup semantics on both sides for all pairs", "fonts with contradictory classes are not judged")
prop("U24", "Classes become the right groups and feature classes",
     "Kerning classes become UFO kerning groups of the sides that their flags say, with all members; classes without a side flag are left out. Other classes are moved to the feature code, or kept as groups when asked for; metrics classes stay groups. Kerning groups are added to the feature code when asked for. Members, their order (key glyph first), the order of groups and the key glyphs are kept in all masters; minimal UFOs drop members which don't exist.",
     ["inputs", "configurations"], "all class definitions, all combinations of the group options",
     "Tests check a few class strings; combinations of flags, missing glyphs, key glyphs and options are not covered.",
     [U + "groups.py", U + "builder.py"],
     [("class parsing and naming", U + "groups.py"), ("classes in the features", U + "builder.py")],
     ["groups, lib (order, key glyphs) and features of each master"],
     "differential monitor against an independent model", "contradictory classes (glyph twice on one side, same name twice) are not judged")
prop("U25", "PostScript hints are right for every master",
     "In each master UFO, the hint sets of a glyph are those of the source: stems (direction, position, width) of hints and links at the coordinates of that master, each stem once per set, split as the source's replacement points say, and each set is tied to the one point of the UFO glyph, by its name, where it begins. Edge (ghost) hints keep their special widths -20 and -21. Without PostScript hints requested, there are none.",
     ["inputs", "configurations"], ALLFONTS,
     "Tests check single glyphs with one master; links, masks and point names are not combined with masters and contours that lose or merge points.",
     [U + "pshints.py", U + "paths.py"],
     [("hint sets and point tags", U + "pshints.py"), ("naming of points", U + "paths.py")],
     ["hint lib of each glyph and names of its points"],
     "differential monitor against an independent model", "real fonts and generated coherent fonts")
prop("U26", "TrueType hinting survives the conversion",
     "In each master UFO, the visual TrueType hinting of each glyph has the same commands in order with the same parameters, stems and zones are referred to by names that exist in the font's hinting, and every point name in a command is the name of exactly one point of the UFO glyph, at the position of the source's node (metrics points excepted). Stems, zones, pixel limits, control values, font programs and glyph instructions have the values of the source.",
     ["inputs", "configurations"], ALLFONTS,
     "Tests check a few commands by their XML; the tie between names and points across contour closing, composites and masters is not observed.",
     [U + "tth.py", U + "paths.py", U + "instructions.py", U + "builder.py", S + "truetype.py"],
     [("command conversion and point names", U + "tth.py"), ("labels of points that are merged", U + "paths.py")],
     ["hinting lib of the glyphs and the font, point names"],
     "differential monitor against an independent model", "commands on points of nested composites are not judged")
prop("U27", "Font info has the values of the source in every master",
     "Each attribute of the UFO font info that has a source entry has exactly its value, master-wise where the source is master-wise: names, versions, metrics, italic angle, underline, OS/2 and head flags and classes (style map style included), gasp ranges, dates, name records, and, unless PostScript hints are left out, alignment zones, standard stems and blue values cut to the stored number of values.",
     ["inputs", "configurations"], ALLFONTS,
     "Tests compare the info of two fonts; bit fields, number of values and masters are not varied.",
     [U + "info.py", U + "builder.py", U + "time.py"],
     [("mapping of entries to attributes", U + "info.py"), ("master-wise values", U + "builder.py")],
     ["font info of each master UFO"],
     "differential monitor against an independent table", "real fonts and generated fonts with all info entries")
prop("U28", "The designspace places every master and instance",
     "Fonts with axes get a designspace with these axes (names, and mappings where the source has them), one source per master with the file name that its UFO is saved under and its location on every axis, and one instance per instance definition with its names and location; one file name and location each. Fonts without axes get none.",
     ["inputs", "configurations"], "all fonts with 0 to 4 axes (1 to 16 masters), any output name",
     "Tests check one multiple master font.",
     [U + "designspace.py", U + "builder.py"],
     [("locations and mappings", U + "designspace.py"), ("sources and instances", U + "builder.py")],
     ["axes, sources, instances and labels of the document"],
     "differential monitor against an independent model", "real and generated multiple master fonts")
prop("U29", "Each source glyph becomes one UFO glyph, in order",
     "Each master UFO has exactly one glyph per source glyph, and its glyph order lists them in source order, the same in all masters. Names are unique: the first glyph of a name keeps it, later glyphs of the same name get another one. Content, background and component references follow the glyph and not the name.",
     ["inputs"], "all fonts, with any duplicate names",
     "Tests have no duplicate names with references to them.",
     [U + "builder.py", U + "glyph.py"],
     [("unique names", U + "builder.py")],
     ["glyph names, order and content of each master UFO"],
     "monitor of identity and conservation by glyph index", "generated fonts with many duplicate names, real fonts")
prop("U30", "Conversion to UFO is repeatable and free of side effects",
     "Converting a VFB doesn't change it: its data and the file it writes afterwards are the same as without the conversion. Converting again (same or new builder, after a conversion with other options, after the first result was modified) yields the same UFOs and designspace, regardless of the hash seed of the process. Masters don't share data with each other or with the source.",
     ["inputs", "histories", "configurations"], "all fonts and options, all sequences of conversions, all hash seeds",
     "Tests convert each font once in one process.",
     [U + "builder.py", U + "paths.py", U + "info.py", U + "groups.py", U + "kerning.py"],
     [("copies per master", U + "builder.py"), ("extraction from the mm glyph", U + "paths.py")],
     ["source data before and after, results of repeated conversions, digests from other processes"],
     "history monitor: repeated conversions compared, aliasing probes, hash seed variation", "real and generated fonts")
prop("U31", "Feature code is kept, kerning classes get their UFO names",
     "The feature code of each master UFO has every line of the source's feature code in order. Only pair positioning statements change: references to kerning classes become the names of the UFO kerning groups (first side and second side), their values, comments and all other lines are kept as they are.",
     ["inputs"], "all feature code (one statement per line)",
     "Tests check a few lines.",
     [U + "features.py", U + "builder.py"],
     [("renaming in pair positioning", U + "features.py")],
     ["lines of the feature code of each master UFO"],
     "differential monitor, line-wise", "generated lines with comments and enum; empty lines may be dropped by the reader")
prop("U32", "Masks, images, bitmaps and user data of the source are kept",
     "In each master UFO, the background layer has exactly the masks of the source with their outlines and metrics in that master (none in minimal UFOs), the background image and the bitmaps of each glyph have the pixels, sizes and positions of the source, and user data of glyphs and font and the flags of metrics classes are kept.",
     ["inputs", "configurations"], ALLFONTS,
     "Tests cover single samples of these parts.",
     [U + "builder.py", U + "paths.py", U + "glyph.py"],
     [("mask extraction", U + "paths.py"), ("images and bitmaps in the lib", U + "builder.py")],
     ["background layer, glyph lib and font lib of each master UFO"],
     "differential monitor against an independent model", "real fonts and generated coherent fonts")
prop("U33", "Saved UFOs can be read and are what was converted",
     "Writing the conversion as UFO (normalized or not), zipped UFO or JSON creates exactly one file per master and the designspace beside them, which can be read again and have the content that was converted: glyphs, layers, info, groups, kerning, features and lib, and a designspace whose sources exist.",
     ["inputs", "configurations"], "all fonts, all output formats and options",
     "Tests mostly compare objects in memory and save a few fonts.",
     [U + "builder.py", U + "info.py"],
     [("saving", U + "builder.py")],
     ["files on disk, read back"],
     "round-trip monitor through the file system", "known finding: ufonormalizer writes double quotes in names of guides and anchors unescaped")
prop("U34", "Conversion options change what they stand for, and nothing else",
     "Compared with the same conversion without the option: leaving out PostScript hints only removes the hint sets, the names of hinted points and the PostScript hinting attributes of the font info; base64 only changes the encoding of the glyphs' TrueType hinting; minimal only removes notes, guides, masks and missing members of groups; adding kerning groups to the features only adds these classes to the feature code; keeping groups only moves the classes from the feature code to the groups.",
     ["inputs", "configurations"], "all fonts, all combinations of options",
     "Tests use single options with hand-picked outputs.",
     [U + "builder.py", U + "paths.py", U + "groups.py"],
     [("option checks", U + "builder.py"), ("option checks of the glyph", U + "paths.py")],
     ["all differences between two conversions"],
     "metamorphic monitor: difference of complete dumps judged by option", "real and generated fonts")
V = S + "vfb/"
prop("V13", "Every glyph is found by its name",
     "In a font object, each glyph of the file has one key: its name, or for a repeated name the name with #1, #2, ... Keys are in file order; membership, lookup, items and glyph order agree; each glyph object is tied to its own entry, links, hinting options and name, in every master. Unknown names raise KeyError. The order of lookups and whether the file was decoded before don't matter, nothing is added to the file by looking.",
     ["inputs", "histories"], "all fonts including repeated glyph names, all orders of lookups",
     "Tests look up single glyphs of a few fonts without repeated names.",
     [V + "vfb.py", V + "glyph.py", V + "info.py"],
     [("glyph index of the font", V + "vfb.py"), ("association of entries to glyphs", V + "vfb.py")],
     ["keys, membership, glyph objects and their entries"],
     "runtime monitor: each lookup compared with the entries of the file", "real and generated fonts")
prop("V14", "Glyphs draw exactly the outlines they store",
     "Drawing a glyph onto a segment pen or a point pen yields, for each master, exactly the stored contours in order (lines, cubic and quadratic curves, open and closed, starting at the stored starting point) and the components with offset and scale of that master under the keys of their base glyphs; pens see a valid sequence of calls. All drawing methods agree, and changes to the stored nodes are drawn.",
     ["inputs", "histories"], "all glyphs of all fonts and masters; contours which mix both kinds of curves in one segment are not judged",
     "Tests draw a few glyphs of single master fonts and never after a change.",
     [V + "glyph.py", V + "pens.py"],
     [("segments and points from nodes", V + "glyph.py")],
     ["calls which the recording pens receive"],
     "trace monitor: pen protocol and call sequence against an independent model of the nodes", "real and generated fonts")
prop("V15", "Outlines drawn into glyphs are stored for every master",
     "Outlines and components drawn with the segment or the point pen of a master are stored in that master of the glyph, rounded to integers, in the written file, whatever the order in which masters are drawn, and when drawn repeatedly or after the file was written. Masters which don't match (contours, points, components) are refused with an error. Other glyphs and the other data of the glyph stay as they were.",
     ["inputs", "histories"], "all outlines of lines and quadratic curves with any starting point, all orders of drawing",
     "Tests draw one shape into one master.",
     [V + "glyph.py", V + "pens.py"],
     [("merging of drawn masters", V + "glyph.py"), ("pens", V + "pens.py")],
     ["contours and components of each master read from the written file"],
     "round-trip monitor over random drawing histories", "generated fonts with up to 16 masters")
prop("V16", "Cubic outlines become quadratic within the allowed error",
     "The converter tool replaces each cubic contour of each glyph in each master by a quadratic one with the same corner points and straight lines, which nowhere deviates more than the allowed error (plus rounding) from the original; contours run in the direction asked for, masters stay compatible and open contours stay open. Everything else in the file is kept. If a font can't be converted, no file is written.",
     ["inputs", "configurations"], "all fonts with cubic outlines, any number of masters, all limits",
     "Tests convert two fonts with one limit and compare with stored output.",
     [S + "cu2qu.py", V + "glyph.py", V + "pens.py"],
     [("conversion of masters", S + "cu2qu.py")],
     ["outlines of the written file sampled against the original curves"],
     "numeric monitor: deviation between curves at sampled parameters", "hints are removed by the conversion; fonts with coinciding points in one master may be refused")
prop("V17", "Hints and links of a glyph resolve to the right stems",
     "The stems which the font object reports for a glyph are, for each master, those of its links (from node coordinates, ghost widths -21 and -20 for links to nothing) and hints with the positions and widths of that master, in order, and hint sets have the stems which the replacement points select. Asking doesn't change the glyph, and asking again gives the same answer.",
     ["inputs", "histories"], "all glyphs of all fonts and masters",
     "Tests resolve hints of one glyph.",
     [V + "glyph.py", S + "ufo/pshints.py"],
     [("link resolution", V + "glyph.py"), ("hint sets", V + "glyph.py")],
     ["stems reported, compared with hints, links and nodes in the file"],
     "differential monitor against an independent model", "links to missing nodes are not judged")
prop("C30", "The JSON export has the whole content of the file",
     "vfb2json writes one JSON file, named after the input (.vfb.json) beside it or in the folder asked for, with the header and, in order, the key and the complete decoded content of every entry (with no-decompile: size and hexadecimal bytes; with roundtrip: content, or canonical bytes; header only: no entries). The input stays unchanged. When the file can't be decoded, the tool fails and leaves no output, an existing one untouched.",
     ["inputs", "configurations", "faults"], "files with entries of all types, cut off and damaged files, all combinations of options",
     "Tests export a few files with default options and compare with stored output.",
     [S + "json.py", S + "cmdline.py", V + "vfb.py", V + "entry.py"],
     [("writing of the JSON file", S + "json.py"), ("options", S + "cmdline.py")],
     ["parsed JSON files, folders before and after, exit status"],
     "differential monitor against the independent model of the format, fault injection in the input", "NaN and infinite numbers become null; an incomplete last entry may be decodable")
prop("C31", "Tools write only the files they announce, all of them or none",
     "vfb3ufo and vfbcu2qu write exactly the output files that follow from input name, output path, folder option, format and number of masters (and the designspace). Without force overwrite, if any of these exists, they fail and change nothing; with it, the result is the same as in an empty folder, without stale parts. Other files and the input stay unchanged. Writing a VFB whose data can't be compiled leaves an existing file as it was.",
     ["inputs", "configurations", "faults"], "all fonts, formats, ways to name the output, and sets of existing files",
     "Tests write into clean folders.",
     [U + "builder.py", S + "cmdline.py", S + "cu2qu.py", V + "vfb.py"],
     [("overwrite check and master paths", U + "builder.py"), ("output path", S + "cmdline.py"),
      ("compile before opening the output", V + "vfb.py")],
     ["snapshots of the folders before and after", "injected compile failures"],
     "file system monitor: snapshots compared, fault injection", "zipped UFOs are only compared by kind (they contain the time)")
prop("C33", "vfbdiff shows every difference, and nothing for equal content",
     "The unified diff of two VFB files is empty exactly if their decoded content (header, entries in order) is equal, whatever its binary form; otherwise its hunks turn the sorted JSON lines of the first file into those of the second, with no different line left out. The HTML form has all different lines of both files. The files stay unchanged.",
     ["inputs"], "all pairs of files which can be decoded",
     "Tests compare one pair of files.",
     [S + "diff.py", V + "vfb.py"],
     [("line diff", S + "diff.py")],
     ["output of the tool"],
     "monitor that applies the hunks to independently made lines", "generated files with changed, added, removed, moved and recoded entries")
prop("C34", "yuri encodes and decodes numbers as files store them",
     "The yuri tool encodes every sequence of numbers to the hex string of their stored form (shortest, or 5 bytes with the long option; signed or unsigned) and decodes every hex string, in any case and spacing, to the numbers in it up to a zero byte. Encoding and decoding are inverse. Numbers out of range, strings which aren't hexadecimal, and incomplete or undefined bytes are errors, after the numbers before them.",
     ["inputs", "configurations"], "all numbers of 32 bits around all limits of the forms, all byte strings",
     "Tests call the tool with a few numbers.",
     [S + "value.py", S + "compilers/value.py", S + "parsers/value.py"],
     [("command line", S + "value.py"), ("number codec", S + "compilers/value.py")],
     ["output and exit status of the tool"],
     "differential monitor against an independent codec", "all numbers from -1200 to 1200, others sampled")
prop("C35", "The TrueType hinting export is complete and the same in all formats",
     "vfb2tth exports to JSON, TOML and YAML the same data: gasp ranges, pixel limits, head values, stems (width, direction, rounding by ppm from all stem tables), zones with their deltas, and the commands of each hinted glyph in order with their parameters, stems and zones referred to by unique names that exist in the export. The output is named after the input. Files that can't be decoded are reported and leave no output.",
     ["inputs", "configurations", "faults"], "all fonts, all formats",
     "Tests export one font to JSON.",
     [S + "tth.py", U + "tth.py", U + "glyph.py"],
     [("collection of the hinting", S + "tth.py"), ("commands", U + "tth.py")],
     ["parsed output files"],
     "differential monitor against an independent model, formats against each other", "of glyphs with the same name the last one is exported; links to missing stems are not judged")
prop("C32", "The options of vfb3ufo do what they say, in any combination",
     "vfb3ufo's command line options (PostScript hints, base64, minimal, groups, kerning groups, normalization, JSON, zip, Unicode strings), in short or long form and any order, give files with exactly the content of the library's conversion with these options, in the format asked for: normalized or as saved, JSON with or without line breaks, zipped. Silent mode prints nothing. A missing input is an error without output.",
     ["inputs", "configurations"], "all fonts, all combinations of options",
     "Tests run the tool with a few options and don't compare the output with the options.",
     [S + "cmdline.py", U + "builder.py"],
     [("options", S + "cmdline.py"), ("writing", U + "builder.py")],
     ["written files read again", "text printed by the tool", "exit status"],
     "differential monitor: files of the tool against a conversion by the library with the same options", "the conversion itself is decided by U20 to U34")
prop("H36", "Helper conversions lose nothing",
     "FontLab timestamps and dates convert into each other exactly, for all dates from 1970 to 2040 in any time zone, whatever the local time zone is (earlier dates become 1970-01-01). Splitting feature code into prefix and features keeps every line in order, with one feature per feature block outside of comments. Hint sets in the old XML form become the same hint sets in the new form, with stems normalized. Numbers, bit lists, bytes and hex strings convert both ways.",
     ["inputs", "configurations"], "all timestamps, feature code, hint sets, numbers, bytes",
     "Tests convert a few samples; feature code is not tested.",
     [U + "time.py", S + "parsers/text.py", U + "pshints.py", S + "helpers.py"],
     [("timestamps", U + "time.py"), ("feature code", S + "parsers/text.py"), ("old hint sets", U + "pshints.py")],
     ["results of the helpers"],
     "differential monitor against an independent model, in changing local time zones", "feature tags of lower case letters and digits")
prop("B13", "Leaving entries out when reading leaves out nothing else",
     "Reading a file with a set of entry types to be dropped yields exactly the other entries, in order, with the values and bytes they have in the whole file, and with the same context (masters, platform, encoding, stems), even when the entries that establish the context or the end marker are dropped; writing gives exactly these entries. The caller's set isn't changed, and later changes of it have no effect. Reading only the header yields the header and no entries, and needs nothing behind it.",
     ["inputs", "configurations"], "all files, all sets of entry types",
     "The tests don't read files with dropped entries.",
     [V + "vfb.py", V + "header.py", V + "entry.py"],
     [("read loop", V + "vfb.py")],
     ["entries, values and context after reading", "written bytes"],
     "differential monitor: partial against whole reading of the same bytes", "the whole reading is decided by B02 and B03")
