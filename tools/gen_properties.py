#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

U = "api/src/cmp/unicode/"
I = "api/src/cmp/io/"
p("C01", "Converting text between encodings preserves every code point",
  "For every sequence of Unicode scalar values, convert_string and to_string/to_u8string/to_u16string/to_u32string/to_wstring produce, from a string in any supported character type, exactly the code units the Unicode Standard prescribes for those code points in the target encoding. Converting to any other encoding and back therefore returns the original string unchanged, and a pointer to a null-terminated string, a view and a string object all give the same result.",
  ["inputs"], "every sequence of Unicode scalar values (all 1,112,064 of them individually, and sequences of any length), every source character type, every target string type, every kind of source text object",
  "Tests convert a few short literals; the encoding boundaries (1/2/3/4-byte UTF-8, surrogate pairs, the planes whose low 16 bits look like surrogates) are never enumerated.",
  [U+"algorithms.cpp", U+"algorithms.ipp", U+"by_code_point.cpp", U+"examiners.ipp", U+"impl/impl.cpp"],
  [("convert_string / to_*string", U+"algorithms.ipp"), ("insert_code_point", U+"algorithms.cpp"), ("UTF-8/16 decoding", U+"by_code_point.cpp")])
p("C02", "Iterating by code point visits exactly the encoded code points, both ways",
  "For every well-formed text, walking by_code_point from begin to end (or in reverse from crbegin to crend) yields exactly its code points in order, and stepping or jumping (++, --, +=, -=, +, -) in any combination from any position always lands on the code point at the corresponding index. Iterators compare equal exactly when they stand at the same position, a default-constructed range is empty, the standard algorithms and views give the same code points, and iterating never reads outside the text.",
  ["inputs", "histories"], "every well-formed text in char, char8_t, char16_t, char32_t and wchar_t, every sequence of in-range iterator moves",
  "Tests iterate a handful of strings forward; mixed walks with backward steps and jumps over variable-length sequences are an unbounded space.",
  [U+"by_code_point.cpp", "api/include/cmp/unicode/by_code_point.hpp", U+"impl/impl.cpp"],
  [("const_iterator advance/retreat/reference", U+"by_code_point.cpp"), ("sequence length tables", U+"impl/impl.cpp")])
p("C03", "Malformed text is reported, never decoded or read out of bounds",
  "For every ill-formed UTF-8 or UTF-16 text (truncated, overlong, stray or missing trailing units, encoded or lone surrogates, values above U+10FFFF), decoding it forwards through by_code_point or converting it to another encoding throws invalid_unicode_encoding or iterated_past_end instead of producing code points, after everything before the first ill-formed sequence was decoded correctly; UTF-32 and wide text with values that are not Unicode scalar values is rejected with invalid_code_point when it is converted to UTF-8 or UTF-16. No operation on such text, backward iteration included, reads outside it, terminates the program or otherwise invokes undefined behaviour, and dereferencing an iterator at the end of the text throws iterated_past_end.",
  ["inputs"], "every ill-formed code unit sequence in every encoding, in forward iteration, dereference, backward iteration and conversion",
  "The space of malformed sequences is combinatorial and out-of-bounds reads of a few bytes go unnoticed without instrumentation.",
  [U+"by_code_point.cpp", U+"impl/impl.cpp", U+"algorithms.ipp", U+"algorithms.cpp"],
  [("finish_sequence", U+"by_code_point.cpp"), ("initialize_utf8_sequence / initialize_utf16_sequence", U+"impl/impl.cpp")])
p("C04", "validate_string finds the end of the longest well-formed prefix",
  "For every text in every supported encoding, validate_string returns the position just past the last code unit of the longest well-formed prefix made of whole code points; in particular it returns the end of the text if and only if the whole text is well-formed Unicode. It never throws and never reads outside the text.",
  ["inputs"], "every sequence of code units of any length in char8_t, char16_t, char32_t and wchar_t text",
  "Tests try a few valid and invalid literals; correctness concerns all bit patterns and all truncation points.",
  [U+"algorithms.ipp", U+"by_code_point.cpp", U+"examiners.ipp"],
  [("validate_string", U+"algorithms.ipp"), ("is_code_point_valid", U+"examiners.ipp")])
p("C05", "Code-point string operations agree with the decoded text",
  "starts_with and ends_with answer, for every combination of well-formed strings in any two encodings, what the same question about their decoded code point sequences gives, and string_size returns the number of code units of a string object, view or null-terminated string. insert_code_point, append_code_point and prepend_code_point add exactly the given code point's encoding at the given place and change nothing else, and reject values that are not Unicode scalar values in UTF-8 and UTF-16 strings with invalid_code_point, leaving the string unchanged.",
  ["inputs"], "every pair of well-formed texts in any two encodings, every code point, every insertion position on a code point boundary",
  "Tests compare few literals; equality across encodings and suffix matching over variable-length sequences need all lengths and alignments.",
  [U+"algorithms.ipp", U+"algorithms.cpp"],
  [("starts_with / ends_with / string_size", U+"algorithms.ipp"), ("insert_code_point", U+"algorithms.cpp")])
p("C06", "Character examiners classify every code point as documented",
  "For every code unit and code point, the examiners (fits_in_7_bits, is_standalone_byte, is_leading_byte, is_trailing_byte, is_surrogate, is_leading_surrogate, is_trailing_surrogate, is_code_point_valid, is_whitespace, is_radix_digit) answer exactly according to their documented character sets, including every value above U+10FFFF and every value whose low bits resemble a member of the set.",
  ["inputs"], "all 2^8 / 2^16 code units and all char32_t values (all up to U+10FFFF plus samples above)",
  "Tests probe a dozen characters; only enumeration settles boundaries and truncation aliases.",
  [U+"examiners.ipp", "api/include/cmp/unicode/examiners.hpp"],
  [("examiners", U+"examiners.ipp")])
p("C07", "Formatting an integer yields exactly its value in the chosen format",
  "For every value of every integer type and every integer_format (radix 2 to 36, sign status, thousands separator), format_integer yields the canonical digits of the value in that radix with uppercase letters, a minus sign exactly when it is negative (a plus sign for positive values with always_show), and a separator exactly between groups of three digits counted from the right. The result is the same in every target string type and no value, including the smallest of each signed type, causes undefined behaviour.",
  ["inputs"], "every value of each integer type (exhaustive for 8 and 16 bits), all radices, sign statuses, separators and target string types",
  "Tests use a few values around thousands; extreme values, all radices and group boundaries are not covered.",
  [U+"formatters.ipp", U+"formats.cpp"],
  [("format_integer", U+"formatters.ipp"), ("append_digit / insert_digit", U+"impl/impl.cpp")])
p("C08", "Parsing an integer accepts exactly the format and returns its exact value",
  "For every text, parse_integer<T> either returns the exact value the text denotes in the given integer_format or throws parse_failed: it inverts format_integer for every value of T, and, among well-formed Unicode texts, accepts an optional minus sign (a plus sign too when the format always shows signs) followed by digits of the radix in either case, grouped in threes from the right exactly when the format has a separator; it rejects everything else, including empty text, misplaced separators, negative text for unsigned types, and values T cannot represent. It never returns a wrapped or truncated value.",
  ["inputs"], "every text in every string type, every integer type, every integer_format",
  "The rejected language is infinite and the overflow boundary differs for every type and radix.",
  [U+"parsers.ipp", U+"parsers.cpp"],
  [("parse_integer", U+"parsers.ipp"), ("parse_failed", U+"parsers.cpp")])
p("C09", "Floating-point text round-trips and respects the chosen format",
  "For every finite value that is zero or whose magnitude lies between 2^-100 and 2^63, format_floating_point writes its sign, its integer part exactly, and a fraction whose digits are those of the value (up to the precision of its type in radices where it has no exact expansion) under the given radix, radix character, a different thousands separator and a place limit of at least one place (exactly_equal pads, up_to truncates). parse_floating_point of that text under the same format returns the value up to the digits shown (exactly, for power-of-two radices without a place limit), and text that does not conform to the format (bad digits, misplaced separators, several signs or radix characters, wrong number of places) throws parse_failed.",
  ["inputs"], "every finite float/double/long double that is zero or between 2^-100 and 2^63 in magnitude, every floating_point_format whose separators differ, every text",
  "Tests check a few positive values; negative values, all radices and place limits are an unbounded space.",
  [U+"formatters.ipp", U+"parsers.ipp", U+"formats.cpp"],
  [("format_floating_point", U+"formatters.ipp"), ("parse_floating_point", U+"parsers.ipp")])
p("C10", "Format objects keep what they are given and booleans parse only as written",
  "Every format object reports through its getters exactly what its constructor or the last setter received, rejects a radix outside 2 to 36 with invalid_radix at construction, and copies compare and behave alike. format_bool and parse_bool invert one another in every bool_format and string type, and parse_bool throws parse_failed for every other text, without undefined behaviour.",
  ["inputs", "histories"], "every format configuration, every setter sequence, every text passed to parse_bool",
  "Tests construct few formats; aliasing between fields or near-miss boolean texts are not sampled.",
  [U+"formats.cpp", U+"parsers.cpp", U+"parsers.ipp", U+"formatters.ipp"],
  [("formats", U+"formats.cpp"), ("parse_bool", U+"parsers.ipp"), ("format_bool", U+"formatters.ipp")])
p("C11", "A file behaves as one byte array whatever its buffer capacity",
  "For every sequence of reads, writes, seeks (set_position from begin, current or end, go_back, go_forward), flushes, position and end-of-file queries on an open file, every byte read, every count returned, every position reported and the final file content equal those of a plain unbuffered byte array with one cursor (seeking before the beginning stops there, seeking past the end is allowed, and a write there fills the gap with zeros). The buffer capacity (including zero, and smaller than a single request) and the way transfers are split into calls never change any of these observations.",
  ["histories", "configurations"], "every operation history on a file opened for reading, writing or both; every buffer capacity",
  "Defects of buffering appear only for particular interleavings of reads, writes and seeks relative to the buffer boundary.",
  [I+"file.cpp", I+"impl/unix_like/unix_like_file.cpp", I+"input_resource.cpp", I+"output_resource.cpp", I+"io_buffer.cpp", I+"seekable_io_resource.ipp"],
  [("read_buffered", I+"input_resource.cpp"), ("write_buffered/flush", I+"output_resource.cpp"), ("set_position", I+"seekable_io_resource.ipp"), ("read_raw/write_raw", I+"impl/unix_like/unix_like_file.cpp")])
p("C12", "Written bytes reach the file in order, once, by flush, close or destruction",
  "After flush, close, destruction, reopening, or moving a file and finishing with the new object, or after flushing or destroying a stream on top of it, the file on disk contains every byte written so far exactly once and in order, and nothing else was changed. Until then only a prefix of the written bytes may be visible, and nothing is written again by later flushes, closes or destructors.",
  ["histories", "crash_points"], "every write history, buffer capacity and point at which the file is observed, closed, reopened, moved or destroyed",
  "The content has to be inspected from outside at every step of arbitrary histories, not only at the end of one.",
  [I+"output_resource.cpp", I+"impl/unix_like/unix_like_file.cpp", I+"output_stream.ipp", I+"io_buffer.cpp"],
  [("flush", I+"output_resource.cpp"), ("file::close / ~file / moves", I+"impl/unix_like/unix_like_file.cpp"), ("~output_stream", I+"output_stream.ipp")])
p("C13", "Short or interrupted system calls never lose, repeat or corrupt data",
  "If the operating system completes reads and writes on files and on the standard streams only partially, or interrupts them with EINTR, at any point and any number of times, the bytes delivered to the program and the bytes stored are the same as if every call had completed in full. If a read or an unbuffered write fails for good, the reported count covers only bytes really transferred, a later call continues right after them, and no memory outside the given buffers is touched.",
  ["fault_sequences", "schedules"], "every pattern of short transfers and EINTR returns in read and write calls, every transfer size and buffer capacity",
  "Regular files practically always transfer in full, so tests never meet a partial or interrupted call.",
  [I+"impl/unix_like/unix_like_file.cpp", I+"impl/unix_like/unix_like_uin.cpp", I+"impl/unix_like/unix_like_uout.cpp"],
  [("read_block / write_block", I+"impl/unix_like/unix_like_file.cpp"), ("stdin_resource::read_raw", I+"impl/unix_like/unix_like_uin.cpp"), ("stdout_resource::write_raw", I+"impl/unix_like/unix_like_uout.cpp")])
p("C14", "File objects own one descriptor, obey their access mode and open policy",
  "A file object holds exactly one open descriptor while is_open is true and none otherwise, across any sequence of construction, open, reopen, close, move and destruction, and never closes a descriptor it does not own. Reading a write_only file or writing a read_only one throws invalid_access_mode without touching file or buffer; opening with if_not_there::fail never creates a file and reports failure when it is missing, opening with create creates it, readable and writable by its owner, and opening never truncates existing content.",
  ["histories"], "every sequence of lifecycle operations on any number of file objects and paths, every access mode and open policy",
  "Descriptor leaks, double closes and moved-from objects stay invisible to tests that look only at file content.",
  [I+"impl/unix_like/unix_like_file.cpp", I+"file.cpp"],
  [("open / close / moves", I+"impl/unix_like/unix_like_file.cpp"), ("access mode checks", I+"file.cpp")])
p("C15", "Container resources behave as one byte array over their container",
  "For every container of trivially copyable elements and every sequence of reads, writes, seeks, flushes and queries on an opaque or transparent container resource, bytes read, counts, positions, end-of-content answers and the container's final bytes equal those of a plain byte array with one cursor, whatever the buffer capacity. Writing past the end grows the container just enough, reading past the end returns only what is there, a transparent resource always refers to the caller's container, and copies or moves of an opaque resource own their content independently. A container resource that was given no buffer capacity is unbuffered: what is written is in the container at once.",
  ["histories", "configurations"], "every container and element size, every operation history, every buffer capacity",
  "Growth, partial elements and buffer boundaries interact; tests exercise one short history per class.",
  [I+"impl/ctr_essence.ipp", I+"opaque_container_io_resource.ipp", I+"transparent_container_io_resource.ipp"],
  [("ctr_essence read_raw/write_raw/set_position_raw", I+"impl/ctr_essence.ipp")])
p("C16", "Binary streams transfer every value exactly in the chosen byte order",
  "For every sequence of arithmetic values written to a data output stream with any endianness (changed at any time), the resource receives each value's bytes in that byte order and nothing else, and reading them back with the same types and explicitly chosen endianness returns identical values on any resource and buffer capacity. A data input stream asked for more bytes than remain throws read_past_end and never produces a value from missing bytes. Blocks of bytes written (or reverse-written) and read through the streams arrive complete, in order, with their exact count. Without an endianness given, data output and input/output streams use big endian and data input streams the native one.",
  ["inputs", "histories"], "every sequence of integral and floating-point values, both endiannesses, every resource and buffer capacity",
  "Tests write a few values in one endianness; byte order errors cancel out in same-endianness round trips.",
  [I+"data_input_stream.ipp", I+"data_output_stream.ipp", I+"input_stream.ipp", I+"output_stream.ipp", I+"general.cpp"],
  [("data_input_stream >>", I+"data_input_stream.ipp"), ("data_output_stream <<", I+"data_output_stream.ipp"), ("invert_endianness", I+"general.cpp")])
p("C17", "Text output streams encode everything written exactly",
  "For every sequence of insertions into a text output stream (characters, strings in any encoding, booleans, integers, floating-point numbers, byte order marks), the bytes delivered to the resource are exactly the encoding of the inserted text, with numbers in their default formats and booleans as 1 and 0, in the stream's current encoding form and endianness. This holds for every resource and buffer capacity and when encoding form or endianness change between insertions; a stream that was given no endianness uses big endian.",
  ["inputs", "histories"], "every insertion sequence of well-formed text and values, every encoding form, endianness, resource and buffer capacity",
  "Each source type x encoding x endianness is its own code path; tests visit some of them with ASCII text.",
  [I+"text_output_stream.ipp", I+"output_stream.ipp", U+"algorithms.cpp"],
  [("operator <<", I+"text_output_stream.ipp"), ("write_code_point_in_*", I+"text_output_stream.ipp")])
p("C18", "Text input streams decode, split and parse the stored text exactly",
  "For every well-formed text stored in UTF-8, UTF-16 or UTF-32 with either endianness, a text input stream (after read_bom, which recognises the byte order mark, switches the endianness accordingly, and otherwise returns the first code point) delivers through read_all, read_line, append_line, append_all and >> exactly its code points, lines without their LF or CRLF terminators, whitespace-separated words, and the numbers and booleans those words denote, into a target string of any encoding. Ill-formed UTF-8 or UTF-16 text makes the reading operation throw and text cut off in the middle of a code unit sequence throws too, so no code point is ever invented. A stream that was given no endianness expects big endian.",
  ["inputs", "histories"], "every stored text, every encoding form, endianness, resource, buffer capacity and order of reading operations",
  "Code points straddling buffer boundaries, BOM variants and CRLF splits only appear in specific combinations.",
  [I+"text_input_stream.ipp", I+"input_stream.ipp", U+"impl/impl.cpp"],
  [("read_code_point / read_bom / read_filtered_code_point", I+"text_input_stream.ipp"), ("append_line / operator >>", I+"text_input_stream.ipp")])
p("C19", "The end of the data is reported exactly, never early, late or invented",
  "On every file and container resource and every stream over it, is_at_end is true exactly when no byte is left to read, a read returns exactly the minimum of the bytes requested and the bytes left, and a request at the end returns zero and leaves the caller's memory and the position untouched. A loop that reads while not at the end therefore consumes every byte exactly once and terminates.",
  ["inputs", "histories"], "every content size (including zero), request size, buffer capacity and resource kind",
  "Off-by-one errors appear only when content size, request size and buffer capacity meet in particular ratios.",
  [I+"input_resource.cpp", I+"io_buffer.cpp", I+"file.cpp", I+"impl/ctr_essence.ipp", I+"impl/unix_like/unix_like_uin.cpp"],
  [("is_at_end", I+"file.cpp"), ("read_buffered", I+"input_resource.cpp"), ("ctr_essence::is_at_end", I+"impl/ctr_essence.ipp")])
p("C20", "Standard streams deliver all text in order and prompts before input",
  "Everything inserted into uout (and uerr) arrives on standard output (standard error) in order and exactly once, at the latest when it is flushed, when the process exits normally, or before a read from uin blocks, so a prompt is always visible before its answer is awaited. uin, read as UTF-8 text or as raw bytes, delivers the process's standard input byte for byte however it is chunked by the pipe, terminal or file behind it.",
  ["histories", "schedules"], "every sequence of outputs, flushes and reads, every chunking and timing of the input, any amount of data",
  "It is observable only from outside the process with controlled pipe timing; the repository has manual tests only.",
  [I+"uio.cpp", I+"impl/common/common_uio.cpp", I+"impl/unix_like/unix_like_uin.cpp", I+"impl/unix_like/unix_like_uout.cpp"],
  [("stdin_resource / stdout_resource", I+"impl/unix_like/"), ("tie", I+"input_resource.cpp")])
p("C21", "Independent objects can be used from different threads at once",
  "Threads that use their own strings, format objects, resources, files and streams, and only share constant data, get exactly the results they would get running alone. The library has no hidden shared mutable state: no data race occurs between operations on distinct objects.",
  ["schedules"], "every interleaving of threads operating on distinct objects of every part of the core, unicode and io packages",
  "Tests are single threaded and a race shows up only under particular schedules.",
  [U+"algorithms.ipp", U+"formatters.ipp", U+"parsers.ipp", I+"io_buffer.cpp", I+"impl/unix_like/unix_like_file.cpp"],
  [("no static mutable state", "api/src/cmp")])
p("C22", "Header-only and compiled builds behave identically",
  "A program using the core, unicode and io packages behaves identically whether the library is compiled separately or included header-only, in optimised and unoptimised builds and with different compilers. Header-only inclusion in several translation units of one program links and shares the standard stream objects, which global objects of the program can use while they are initialized and destroyed in either form.",
  ["configurations", "inputs"], "every build configuration crossed with every input of a workload spanning all three packages",
  "The test suite is built in one configuration only.",
  ["api/include/cmp/core/config.hpp", "api/src/cmp/unicode/definitions.cpp", "api/src/cmp/io/definitions.cpp", "api/src/cmp/core/definitions.cpp"],
  [("CMP_CONFIG_HEADER_ONLY / CMP_CONDITIONAL_INLINE", "api/include/cmp/core/config.hpp")])
p("C23", "A test module runs every test once and reports every failure",
  "For every list of test functions and every pattern of outcomes, run_tests calls each function exactly once and in order every time it is called, returns the number that failed in that run, and prints for each test its number, name, verdict and number of successful stages, then for each failed test the stage it failed on. The message queue delivers messages first-in first-out, is emptied when a test ends, and dummy objects post exactly one message per construction, copy, move and destruction.",
  ["inputs", "histories"], "every number of tests and stages up to 65,535, every outcome pattern and message sequence, first and repeated runs",
  "The framework that judges the tests is itself never tested with failing tests or many tests.",
  ["api/src/cmp/core/test_module.ipp", "api/include/cmp/core/test_module.hpp"],
  [("run_tests / end_test / zero_pad", "api/src/cmp/core/test_module.ipp")])
p("C24", "Windows receive exactly their own events and close only when allowed",
  "Every key press and release, resize and close request that the toolkit delivers to a native window reaches exactly the window object that currently owns it (also after moves), once, with the right type and key, and a close request to a window that has been shown destroys the native window if and only if the handler left should_close true. A window is opened with the size, title and mode asked for, keeps the last title set and whether it was last shown or hidden (also through moves), can be opened again once it was closed, and opening an open window returns false and changes nothing. run returns once no window is left and meanwhile updates every open window with the time since its previous update and since it was opened, and opening, closing, moving or destroying window objects in any order never leads to use of a destroyed window.",
  ["histories"], "every sequence of open, show, hide, set_title, move, close and toolkit events over any number of windows",
  "There are no automated GUI tests; association errors need several windows and particular orders of events.",
  ["api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp", "api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp", "api/src/cmp/desktop_gui/general.cpp"],
  [("window_associations", "api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp"), ("run", "api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp"), ("translate_key_code", "api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp")])
p("C25", "Core numeric helpers and the application object are exact",
  "count_digits returns the number of digits of every integer in every radix, cmp_equal answers whether two floating-point values agree when rounded down at the given number of decimal places and is symmetric and reflexive on finite values, cmp_not_equal is always its negation, invert_endianness reverses exactly the given bytes, and get_opposite_endianness swaps big and little. The application object returns exactly the argument count, argument vector and copyright notice it was given and, while it is the only one, is the instance app() refers to from its construction to its destruction.",
  ["inputs"], "every integer, radix, pair of floating-point values, number of places and byte block length",
  "Tests use a few positive values; sign, extreme values and long blocks are not sampled.",
  ["api/src/cmp/core/general.ipp", I+"general.cpp", "api/src/cmp/core/application.cpp"],
  [("cmp_equal / cmp_not_equal / count_digits", "api/src/cmp/core/general.ipp"), ("invert_endianness", I+"general.cpp"), ("get_opposite_endianness", I+"general.ipp"), ("application", "api/src/cmp/core/application.cpp")])
p("C26", "User-defined resources keep every byte and ties through the buffering",
  "For every class derived from input_resource, output_resource or io_resource that implements read_raw, write_raw or both, every buffer capacity and every sequence of requests, read delivers exactly the bytes read_raw handed out, each once and in order however short its answers are, and the bytes handed to write_raw are those passed to write, each once and in order, all of them after flush. When the input resource is tied to an output resource, everything written to the latter has been handed to its write_raw before the former's read_raw is called. The same holds for files and container resources, tied or tied to, and a resource that is copied, moved or assigned in the middle of its work goes on where it was. Data and text streams on such resources transfer the same values and text as on any other, and a buffer turns many small requests into few calls of read_raw and write_raw.",
  ["inputs", "histories"], "every buffer capacity, request size, pattern of short answers and order of reads, writes, flushes and ties",
  "The tests only use the library's own resources, which never answer short, and no test ties resources.",
  [I+"input_resource.cpp", I+"output_resource.cpp", I+"io_buffer.cpp", I+"io_resource.cpp", I+"input_stream.ipp", I+"output_stream.ipp"],
  [("read / read_buffered / tie", I+"input_resource.cpp"), ("write_buffered / flush", I+"output_resource.cpp")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
