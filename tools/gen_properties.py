#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Reading any bytes is memory-safe and ends in subtitles or an exception",
  "Whatever bytes are given to any of the readers, through any of their input sources, reading ends in subtitles or a standard C++ exception; so do dumping and collecting what was read and writing what was collected as binary STL. On no input does any of these read or write out of bounds, use freed or null memory, overflow a signed integer, abort, leak memory or open files, or run without bound. The same holds when memory runs out at any allocation: an exception, or the same results as with enough memory.",
  ["inputs", "fault_sequences"], "Every byte sequence, as SubRip, SSA/ASS, WebVTT, text STL or binary STL input, from a string, a FILE* or a stream; failure of every allocation.",
  "The tests read a handful of well-formed files in an uninstrumented build; hostile bytes, truncations and out-of-range numbers are unbounded in number and most memory errors do not change a test's output.",
  ["src/subrip_reader.cc", "src/ssa_reader.cc", "src/web_vtt_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc", "src/iso6937.cc", "src/sub_time.cc", "src/util.cc", "src/colour.cc"],
  [("bounds tests in the tag scanners", "src/subrip_reader.cc SubripReader::convert_line"), ("fixed block reads into a 1024-byte buffer", "src/stl_binary_reader.cc InputReader"), ("table look-ups", "src/iso6937.cc"), ("SUB_ASSERT", "src/sub_assert.h")],
  observe=["public reader constructors", "sub::dump", "sub::collect", "sanitizer reports"])

p("C02", "SubRip cues keep their times, text, order and line numbers",
  "Reading a SubRip file yields, cue by cue and in file order, every line of text of every cue exactly as it is written once markup is removed, with the cue's start and end times to the millisecond. The lines of a cue are numbered from 0 downwards, a Unicode line separator (U+2028) also starts a new line, and right-to-left embedding characters (U+202B) are dropped. A byte order mark, CRLF line ends, further blank lines between cues, coordinates after the times, any counter and a missing final newline change nothing.",
  ["inputs"], "Every well-formed SubRip document: any number of cues, times up to hundreds of hours, lines of any length in any UTF-8 text.",
  "The tests compare a few short files; lines past buffer sizes, separators, odd line ends and large documents are combinations no fixed sample covers.",
  ["src/subrip_reader.cc", "src/util.cc"],
  [("line state machine", "src/subrip_reader.cc SubripReader::read"), ("time parser", "src/subrip_reader.cc SubripReader::convert_time"), ("line sources", "src/util.cc get_line_string, get_line_file")],
  observe=["SubripReader(...).subtitles()", "sub::collect"])

p("C03", "SubRip markup gives every run of text exactly the style in force there",
  "In a SubRip cue every run of text carries exactly the bold, italic, underline and colour state produced by the tags before it in that cue, in either tag syntax (<b> or {b}) and any letter case of the tag's name or attribute, or by the override in braces ({\\b1}, {\\b0}) of the same effect, and tags themselves never appear in the text. Nested font tags (#rrggbb, #rrggbbaa or rgba() with components of 0 to 255) restore the enclosing colour when they close, font tags without a colour change nothing, an unmatched closing font tag leaves the text in the default colour, and no style leaks into the next cue. An alignment or position override in braces at the very start of a cue ({\\anN} or {\\pos(x,y)}, in a 288 by 288 space) sets the reference point and position of all the lines of that cue, and of no other.",
  ["inputs"], "Every arrangement of b/i/u/font tags (nested, unbalanced, adjacent, spanning lines), colour notations (#rrggbb, #rrggbbaa, rgba()), and leading overrides.",
  "Tests check a dozen fixed tag strings; correctness over arbitrary nesting, unbalanced tags and multi-line spans is a universally quantified claim.",
  ["src/subrip_reader.cc", "src/colour.cc", "src/ssa_reader.cc"],
  [("tag scanner and colour stack", "src/subrip_reader.cc SubripReader::convert_line"), ("run flushing", "src/subrip_reader.cc maybe_content"), ("override parser", "src/ssa_reader.cc SSAReader::parse_tag")],
  observe=["SubripReader(...).subtitles()"])

p("C04", "SSA/ASS events keep their times, text and resolved style",
  "Every dialogue event of an SSA/ASS script yields its text in order, complete with commas, trimmed at its ends and split at line breaks (\\n, \\N) and override blocks, with hard spaces (\\h) as no-break spaces and other backslashes kept, with its start and end times to the centisecond. Each piece carries the font, size, colour, background colour, effect, bold, italic and underline that result from the event's named style (or the default style when the name is unknown), as changed by the override tags (\\i, \\b, \\u, \\fn, \\fs, \\c) before it in the event. Columns may come in any order in which the style comes before margins and the text is last; a later Format line of a section holds from there on. Comments, unknown keys, unknown override tags, other event types and unknown sections contribute nothing and disturb nothing.",
  ["inputs"], "Every script over the supported grammar: any column order in the Format lines, any number of styles and events, both section name variants, decimal and &H colours, every supported override tag.",
  "The tests read a few literal scripts in one column order; arbitrary orders, style sets and tag sequences are unbounded.",
  ["src/ssa_reader.cc"],
  [("section state machine and column mapping", "src/ssa_reader.cc SSAReader::read"), ("Style", "src/ssa_reader.cc Style"), ("override tags", "src/ssa_reader.cc SSAReader::parse_tag"), ("text splitter", "src/ssa_reader.cc SSAReader::parse_line")],
  observe=["SSAReader(...).subtitles()", "SSAReader::parse_line"])

p("C05", "SSA/ASS text is placed by its alignment, margins, line breaks and position tags",
  "Each piece of an SSA/ASS event is placed relative to the screen edge or centre named by its style's alignment or by an override tag at the event's start, at the margins in force (a non-zero event margin overriding the style's), as a fraction of the script's declared resolution. Successive lines of an event are 1.2 times the style's font height apart, with the last line of a bottom-aligned event at the margin, the first line of a top-aligned event at the margin, and a vertically centred event centred without margins. A position tag at the event's start, before or after an alignment tag, places the event's first line at the given point, on the screen or beyond, measured from the top left, with the vertical margin added below it, and the further lines below that.",
  ["inputs"], "All alignments x margins x resolutions x font sizes x numbers of line breaks, with and without alignment and position overrides.",
  "Tests check a few literal layouts at one or two resolutions; the placement formula must hold over the whole product of settings.",
  ["src/ssa_reader.cc", "src/vertical_position.cc", "src/horizontal_position.cc"],
  [("vertical layout", "src/ssa_reader.cc SSAReader::parse_line"), ("horizontal layout", "src/ssa_reader.cc SSAReader::Context::update_horizontal_position"), ("margins", "src/ssa_reader.cc SSAReader::read")],
  observe=["SSAReader(...).subtitles()"])

p("C06", "WebVTT cues keep their times and text; everything else is skipped",
  "Reading a WebVTT file yields every cue's text lines verbatim, in order, numbered from 0 within the cue, with the cue's start and end times, written with or without hours, to the millisecond. Notes, cue identifiers, cue settings, header text and other blocks between cues yield nothing, even when a note holds something that looks like a cue. A Unicode line separator starts a new line, and a byte order mark, CRLF line ends or a missing final newline change nothing.",
  ["inputs"], "Every well-formed WebVTT document: any interleaving of cues, identifiers and notes; any UTF-8 text and line lengths.",
  "One test reads two short literals; interleavings of notes, identifiers, long lines and separators are not sampled.",
  ["src/web_vtt_reader.cc", "src/util.cc"],
  [("state machine", "src/web_vtt_reader.cc WebVTTReader::read"), ("time parser", "src/subrip_reader.cc SubripReader::convert_time")],
  observe=["WebVTTReader(...).subtitles()"])

p("C07", "Text STL files keep every subtitle's times, lines and styles",
  "Reading a text-format STL file yields every subtitle line of the file, up to and including the last one whether or not a newline ends it, with its in and out times exactly as written. Text, everything after the second comma, is split into lines at '|', numbered from 0, and each run carries the bold, italic and underline state given by the '$' settings and the '^' toggles before it, with the current font name and size; a '^' followed by anything else, or by nothing, shows nothing and changes nothing. Comment lines (//) and unrecognised settings yield no subtitles and do not disturb their neighbours.",
  ["inputs"], "Every text STL document: any settings, comments, spacing around the separators, number of lines per subtitle and arrangement of toggles.",
  "One test reads one sample file; empty pieces, trailing separators, spacing variants, multiple lines and a missing last newline are not sampled.",
  ["src/stl_text_reader.cc"],
  [("line parser", "src/stl_text_reader.cc STLTextReader::STLTextReader"), ("run flushing", "src/stl_text_reader.cc STLTextReader::maybe_push"), ("settings", "src/stl_text_reader.cc STLTextReader::set")],
  observe=["STLTextReader(...).subtitles()"])

p("C08", "Binary STL blocks are decoded into the right text, style, row and times",
  "Reading a binary EBU STL file yields, for every subtitle block that is not a comment and in file order, its text decoded from ISO 6937 and split into rows at the new-line code, with the in and out time codes at the file's frame rate and its justification; text that continues in extension blocks belongs to the same subtitle as its first block. Unused-space codes, and the comment and user-data blocks that come between, are no part of it. Every run carries the italic and underline state (kept across rows and ended with the subtitle) and the colour (white again on each row) set by the control codes before it. The row of each line is the block's vertical position plus the line's index, out of the declared number of rows, where subtitles reaching below the declared rows are moved up together to fit.",
  ["inputs"], "Every well-formed file: any number of blocks, any printable and control codes, any vertical position, justification, frame rate and declared row count.",
  "Only the writer's output is re-read by tests that can run here (the sample files are private), so decoding of control codes, colours, justification, comments and row correction is untested.",
  ["src/stl_binary_reader.cc", "src/iso6937.cc", "src/stl_util.cc"],
  [("block parser", "src/stl_binary_reader.cc STLBinaryReader::read"), ("little-endian fields", "src/stl_binary_reader.cc InputReader::get_int"), ("frame rate from the disk format code", "src/stl_util.cc")],
  observe=["STLBinaryReader(...).subtitles()"])

p("C09", "A written binary STL file is well-formed and says what it was asked to say",
  "A written binary STL file consists of one 1024-byte header and the declared number of 128-byte blocks, with every header field in its place, padded, within its width and equal to the value it was given, and the counts in it equal to what the file contains. Every subtitle appears once, in order, in blocks whose extension numbers count up and end with 255, with valid time codes (frames below the frame rate declared in the header) within half a frame of the subtitle's times, the row of its topmost line kept within the 23-row screen, and its justification. Its text consists of ISO 6937 bytes with balanced italic and underline codes, one or more new-line codes between rows, unused-space padding, and as the header's maximum row length the longest line's number of characters (at most 99); what cannot be held (a text of more than 241 blocks, times of 256 hours) is refused.",
  ["inputs"], "Every list of collected subtitles and every legal set of header values and frame rates (including rates the format cannot name).",
  "The runnable test compares one small file; field overflow, rounding at frame boundaries, multi-block text and unusual rates need whole input ranges.",
  ["src/stl_binary_writer.cc", "src/stl_binary_tables.cc", "src/stl_util.cc"],
  [("header layout", "src/stl_binary_writer.cc write_stl_binary"), ("block layout", "src/stl_binary_writer.cc make_tti_blocks"), ("vertical placement", "src/stl_binary_writer.cc vertical_position")],
  observe=["bytes of the file written by write_stl_binary, parsed by an independent EBU Tech 3264 parser"])

p("C10", "What is written to binary STL is read back the same",
  "Subtitles written to a binary STL file and read back come back with the same number of subtitles, lines, text (for text that ISO 6937 can express), italic and underline runs and horizontal justification, with times within half a frame and the rows equal to the written ones as far as these fit the 23-row screen. Header values come back as given, padded to their field width. Writing what was read back gives the same file again byte for byte, from the first time if ISO 6937 expresses all of the text, and otherwise from the second.",
  ["inputs"], "Every list of subtitles with text in the ISO 6937 repertoire, any text length, styles, positions and rates.",
  "No runnable test writes and then reads; the round trip must hold for all texts and all times, including those that fill blocks exactly or cross frame and second boundaries.",
  ["src/stl_binary_writer.cc", "src/stl_binary_reader.cc", "src/iso6937.cc", "src/collect.h"],
  [("writer", "src/stl_binary_writer.cc"), ("reader", "src/stl_binary_reader.cc"), ("codec", "src/iso6937.cc")],
  observe=["write_stl_binary then STLBinaryReader and sub::collect"])

p("C11", "The ISO 6937 codec is exact, total and independent of history",
  "Every character of the ISO 6937 repertoire, plain or accented, is encoded to bytes that decode to that character, in any context, and every assigned byte or accent pair decodes to its standard character. Encoding any wide string and decoding any byte string succeeds without ever producing NUL characters or altering neighbouring characters: what has no equivalent is dropped or replaced by a plain substitute. The result for a string depends on that string alone, not on what was converted before.",
  ["inputs", "histories"], "All bytes, all byte pairs, all characters of the repertoire in all pairings, random longer strings, after any history of conversions.",
  "The tests convert a few sentences; 65536 byte pairs, unassigned codes and the effect of earlier conversions on shared tables are not sampled.",
  ["src/iso6937.cc", "src/iso6937_tables.cc"],
  [("code tables", "src/iso6937_tables.cc make_iso6937_tables"), ("decoder", "src/iso6937.cc iso6937_to_utf16"), ("encoder", "src/iso6937.cc utf16_to_iso6937")],
  state=[("code tables", "process-wide maps filled on first use", "src/iso6937_tables.cc")],
  observe=["iso6937_to_utf16", "utf16_to_iso6937"])

p("C12", "Times are ordered, converted, added and scaled as exact time would be",
  "Comparison of two times is the comparison of the instants they denote, whatever their frame rates, and is a total order consistent with equality; comparing for equality, ordering within the same second or converting a time of unknown rate against one of known rate is refused with an exception. Converting a time to frames or milliseconds gives the nearest value, splitting into hours, minutes, seconds and frames reassembles to the same time, and the sum of two times is the exact sum to the nearest unit of the finer rate. Scaling gives the product to the nearest unit with the fraction always less than a second; sums and products at a rate which is not a whole number are refused.",
  ["inputs"], "All times from 0 to hundreds of hours at all common integer and fractional frame rates, all pairs of rates, and scale factors from 0 to 4.",
  "The tests check some twenty literal values; truncation at particular fractions and mixed-rate comparison only fail on inputs they do not contain.",
  ["src/sub_time.cc", "src/rational.cc"],
  [("comparison operators", "src/sub_time.cc"), ("frames_at", "src/sub_time.cc Time::frames_at"), ("add and scale", "src/sub_time.cc")],
  observe=["public functions of sub::Time, against 128-bit exact rational arithmetic"])

p("C13", "Collecting loses nothing, invents nothing and orders by start time",
  "Collecting raw subtitles keeps every piece of text exactly once with all of its style, font, colour, effect, position, time and fade attributes. The resulting subtitles are ordered by start time, pieces that start together keep their original order, and consecutive pieces share a subtitle exactly when their times and fades are equal and share a line, placed across the screen where its first piece is, exactly when their vertical positions are also equal. The input is not changed, and the result does not depend on the container type asked for.",
  ["inputs"], "Every list of raw subtitles: any order, duplicates, overlapping times, equal starts, optional fields set or unset.",
  "No unit test drives collection directly with arbitrary orders and fields; conservation and stability are claims about all lists.",
  ["src/collect.h", "src/subtitle.cc", "src/raw_subtitle.cc", "src/vertical_position.cc"],
  [("stable sort and grouping", "src/collect.h sub::collect"), ("same_metadata", "src/subtitle.cc"), ("field copying", "src/subtitle.cc constructors")],
  observe=["sub::collect<std::vector<Subtitle>>", "sub::collect<std::list<Subtitle>>"])

p("C14", "The result does not depend on how the same bytes are delivered",
  "Giving the same content to a reader as a string, as an open file, as a pipe that delivers it in small pieces or as a stream, in a memory or disk file, yields identical subtitles, or errors of the same type, line number and text. For well-formed documents in the text formats, LF and CRLF line ends, a leading byte order mark and the presence of the final newline make no difference to the subtitles. Lines of any length are one line.",
  ["inputs", "configurations"], "Every document, well-formed or not, in every format x every input source x line end and byte order mark variants.",
  "Tests use one source per document and short lines; disagreement shows only for particular line lengths, chunk boundaries or line ends.",
  ["src/util.cc", "src/subrip_reader.cc", "src/ssa_reader.cc", "src/web_vtt_reader.cc", "src/stl_binary_reader.cc"],
  [("line sources", "src/util.cc get_line_string, get_line_file"), ("block sources", "src/stl_binary_reader.cc StreamInputReader, FILEInputReader"), ("BOM removal", "src/util.cc remove_unicode_bom")],
  observe=["each pair of reader constructors"])

p("C15", "Independent readers and writers can run concurrently",
  "Any number of threads can each read, collect, dump, convert and write their own subtitles at the same time, from the very first use of the library in the process, without data races. Every thread gets exactly the result it would get alone.",
  ["schedules", "inputs"], "All interleavings of reads, writes and conversions of separate documents on separate threads, including first use racing with first use.",
  "All tests are single-threaded; races on lazily filled process-wide tables are schedule dependent.",
  ["src/iso6937.cc", "src/iso6937_tables.cc", "src/stl_binary_tables.cc", "src/stl_binary_writer.cc"],
  [("one-time table construction", "src/iso6937.cc"), ("per-object tables", "src/stl_binary_tables.cc")],
  state=[("code tables", "process-wide maps filled on first use", "src/iso6937_tables.cc")],
  observe=["ThreadSanitizer reports", "per-thread results compared with the serial ones"])

p("C16", "Malformed input is refused with an error that points at the fault",
  "A SubRip file with a malformed time line or colour is refused with an error that carries the number of the offending line in the file and recent lines of the file, ending in the offending one or at most two lines further on; a WebVTT file without its header, or with a malformed time line, and a binary STL file that is cut short at any byte or has an unknown code in its header or blocks, are refused with that format's error type. Nothing well-formed is refused, and time fields that are not numbers, or do not have the right number of parts, are never accepted, in SubRip, WebVTT, SSA/ASS or text STL. A file whose reading fails part of the way is refused, not taken for a shorter one.",
  ["inputs", "fault_sequences"], "Every position of every malformation in every document; every truncation length of a binary file.",
  "Tests check two malformed files; that the right line is reported must hold for every position and file length, and every cut for every byte.",
  ["src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/stl_binary_reader.cc", "src/stl_binary_tables.cc", "src/exceptions.cc"],
  [("line counting and context", "src/subrip_reader.cc SubripReader::read"), ("time parser", "src/subrip_reader.cc SubripReader::convert_time"), ("short read test", "src/stl_binary_reader.cc"), ("unknown code test", "src/stl_binary_tables.cc file_to_enum")],
  observe=["exceptions thrown by the public constructors"])

p("C17", "Results do not depend on the process's locale",
  "Reading, collecting, dumping and writing give the same subtitles, metadata and bytes whatever C locale and global C++ locale the process has set. Fractional numbers in files always use a full stop, numbers written never gain digit grouping, and non-ASCII text is never altered.",
  ["configurations", "inputs"], "All documents under locales with comma decimals, digit grouping, single-byte and UTF-8 character sets, set through C, C++ or both.",
  "The test process runs in the C locale only.",
  ["src/raw_convert.cc", "src/locale_convert.cc", "src/stl_binary_reader.cc", "src/stl_binary_writer.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc"],
  [("decimal point conversion", "src/raw_convert.cc make_local"), ("number formatting", "src/stl_binary_writer.cc put_int_as_string")],
  observe=["every public read/write function, compared with its result in the C locale"])

p("C18", "Opening and dumping a file by name picks the right reader and leaks nothing",
  "Opening a subtitle file by name gives, according to its extension in any letter case and for STL files its content, the same subtitles and metadata as using the right reader on its bytes, no reader for an unknown extension, and an error for an unreadable or malformed file; whether it succeeds or fails, no file stays open. A dump, from the library or the command line tool, prints the metadata and then each subtitle exactly once in order with its number, times, lines, position and text, with every style opened (italic, underline) being closed. The tool ends with a status other than 0 when it cannot read its file.",
  ["inputs", "fault_sequences"], "All file names, all contents (well-formed, malformed, truncated, empty, missing) and repeated use.",
  "The factory and the tool are exercised on one file each, on success only; descriptors left open on failure are not looked for.",
  ["src/reader_factory.cc", "src/util.cc", "tools/dumpsubs.cc"],
  [("extension and content test", "src/reader_factory.cc reader_factory"), ("formatter", "src/util.cc dump")],
  observe=["reader_factory", "sub::dump", "the dumpsubs process", "/proc/self/fd"])

p("C19", "A failed write is reported, never passed off as a complete file",
  "Writing a binary STL file returns normally only if the complete file has reached the file system. If the file cannot be created, or any byte of it cannot be written, the caller gets an exception. Nothing is leaked when that happens.",
  ["fault_sequences", "crash_points"], "Every point of failure: missing or unwritable directory, a directory in the way, and running out of space or an I/O error after any number of bytes.",
  "Tests only write where writing succeeds.",
  ["src/stl_binary_writer.cc"],
  [("output stream checks", "src/stl_binary_writer.cc write_stl_binary")],
  observe=["write_stl_binary under injected write failures", "bytes on disk"])

p("C20", "Subtitles read from any format can be written as binary STL",
  "Subtitles read from SubRip, WebVTT or SSA/ASS, or from binary STL, and collected can be written to a binary STL file which, read back, has the same subtitles in the same order with the same text (for text ISO 6937 can express), italic and underline, and times within half a frame. Each source line is on a row of its own, in the same order from top to bottom, within the 23-row screen. Subtitles whose times have no frame rate, as from text STL, are refused with an exception, not written wrongly.",
  ["inputs"], "Every well-formed document in every source format at every writable frame rate.",
  "No test converts between formats; combinations of positions that one reader produces and the writer must place are untested.",
  ["src/stl_binary_writer.cc", "src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/ssa_reader.cc", "src/collect.h"],
  [("vertical placement", "src/stl_binary_writer.cc vertical_position"), ("row separators", "src/stl_binary_writer.cc make_tti_blocks")],
  observe=["reader -> collect -> write_stl_binary -> STLBinaryReader -> collect"])

p("C21", "Every result is a function of the input alone",
  "Reading, collecting, dumping or writing the same input gives the same result every time: in a fresh process or after any other work in the same one, and whatever the stack and heap memory held before. No result or written byte derives from uninitialised memory, and no call changes its arguments or the objects returned earlier.",
  ["histories", "inputs"], "All sequences of library calls, with memory pre-filled with different patterns, before each observed call.",
  "Tests run each input once in a fresh process; stale memory usually happens to be zero there.",
  ["src/stl_binary_reader.cc", "src/stl_binary_writer.cc", "src/ssa_reader.cc", "src/iso6937.cc", "src/raw_subtitle.h", "src/horizontal_position.cc"],
  [("constructors initialising every field", "src/raw_subtitle.h, src/subtitle.h, src/horizontal_position.cc"), ("zeroed header buffer", "src/stl_binary_writer.cc")],
  observe=["results of all public functions", "valgrind memcheck reports"])

p("C22", "Positions, sizes and colours mean the same in every representation",
  "A vertical position's distance from the top of the screen, whatever its reference and units, agrees with its definition, orders positions accordingly, is available whenever a position on the screen is given, and is 0 otherwise. Font sizes in points and as a proportion of a screen height convert to each other to within rounding, and hexadecimal colours give each component exactly. Two positions with a reference and given in the same terms, two sizes, colours or whole subtitles compare equal exactly when all that defines them is equal (horizontal positions to within a thousandth).",
  ["inputs"], "All references x line/proportional values x screen sizes, all 2^24 colours, all field-wise differences between two otherwise equal values.",
  "The tests check a few literal positions; equality and conversions must hold for all values.",
  ["src/vertical_position.cc", "src/horizontal_position.cc", "src/font_size.cc", "src/colour.cc", "src/subtitle.cc", "src/effect.cc", "src/vertical_reference.cc"],
  [("fraction_from_screen_top", "src/vertical_position.cc"), ("points/proportional", "src/font_size.cc"), ("from_rgb_hex, from_rgba_hex", "src/colour.cc"), ("equality operators", "src/subtitle.cc")],
  observe=["public functions of these types"])

p("C23", "Binary STL header fields and codes are read and described exactly",
  "Every header field of a binary STL file is returned from its own byte range, text verbatim and numbers by value, and the metadata lists each under its name with the same value. Every code for language, language group, display standard, time code status and disk format is recognised as the value the EBU specification gives it, each to a different value, and describes itself; languages are written with the code they are read with. An undefined code is refused.",
  ["inputs"], "All header contents: all codes in every table, all numeric field values, arbitrary text bytes in text fields.",
  "The only test which reads real headers needs files that are not in the repository; the tables have 130 entries.",
  ["src/stl_binary_tables.cc", "src/stl_binary_reader.cc", "src/stl_util.cc"],
  [("code tables", "src/stl_binary_tables.cc"), ("field offsets", "src/stl_binary_reader.cc STLBinaryReader::read"), ("metadata", "src/stl_binary_reader.cc STLBinaryReader::metadata")],
  observe=["public fields and metadata() of STLBinaryReader", "STLBinaryTables"])

p("C24", "The work done grows in proportion to the input",
  "The work and the memory needed to read, collect, dump or write subtitles grow roughly in proportion to the size of the input, whether it has many short subtitles, few long lines or much markup. Doubling a well-formed input of any of these shapes never quadruples the cost.",
  ["inputs"], "Families of documents of doubling size in every format: many cues, very long lines, many tags, many styles, many lines per cue.",
  "Test inputs are all small, where quadratic work cannot be told from linear.",
  ["src/util.cc", "src/subrip_reader.cc", "src/ssa_reader.cc", "src/stl_binary_writer.cc", "src/collect.h"],
  [("line splitting", "src/util.cc get_line_string"), ("tag scanning", "src/subrip_reader.cc has_next"), ("field reassembly", "src/ssa_reader.cc SSAReader::read")],
  observe=["counts of the blocks of code executed, bytes moved and heap peak per input size"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
