#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from spec import SPEC

S, I, IC = "include/scn/scan.h", "src/scn/impl.h", "src/scn/impl.cpp"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))


prop("P01", "The outcome depends on the characters, not on the source that delivers them",
     "For any text, format string and argument types, scanning gives the same success or error code, the same values and the same number of consumed characters whether the text is a string view, a list or deque of characters, a wide string with the same content, or a FILE. "
     "For a FILE it does not matter how the bytes are split between reads, nor how the stream is buffered.",
     ["inputs", "configurations", "fault_sequences"],
     "all texts over small alphabets of significant characters up to a length bound, all formats of a list, all argument types, all divisions of the bytes into reads, all source kinds",
     "The unit tests scan almost only string literals; the few FILE tests use one regular file whose content fits in one buffer, so segment boundaries inside a value, a whitespace character, or a nested scan are never reached.",
     [S, I, IC, "include/scn/fwd.h"],
     [("basic_scan_buffer / forward iterator over segments", S), ("is_segment_contiguous, contiguous and segmented reader pairs", I), ("file buffer fill/sync", IC)],
     ["return value of scn::scan", "range() of the result", "what a reader of the FILE sees next"])

prop("P02", "A FILE is left exactly behind what a scan consumed; no character is lost",
     "Whatever sequence of scans, getc and ungetc is applied to a FILE, every step sees the stream as a text with one read position: a successful scan (scan, input, prompt) moves it just behind the last character consumed, and a failed one restores it to where it was. "
     "No character is lost, duplicated or reordered; a failing read acts as the end of the text at that point and loses nothing that was read before it.",
     ["histories", "inputs", "fault_sequences"],
     "all histories of up to 4 operations from {scan of several types and formats, getc, ungetc} over one stream, for buffered, unbuffered, cookie, memory, temporary and stdin streams, with a read error at each position",
     "The tests do one or two scans on one file and never mix them with other stdio calls; lost or repeated characters only show in the calls that follow.",
     [S, I, IC],
     [("basic_scan_file_buffer::fill / sync / putback", IC), ("scan_value/vscan sync of the FILE source", IC)],
     ["results of later stdio calls on the same FILE", "values of later scans"])

prop("P03", "Scanning can be resumed from the returned range",
     "Scanning several fields with one call gives the same values, errors and end position as scanning them one after another, each from the range returned by the call before. "
     "The returned range always begins right behind the last consumed character and ends where the source ended; results can be split at every field boundary, for every kind of range and for every argument count.",
     ["inputs", "histories"],
     "all texts over small alphabets up to a length bound x all format pairs and triples from a list x all ways to split them into calls x source kinds",
     "Tests check the remaining range in a handful of examples; the equivalence concerns every cut of every multi-field format.",
     [S, I, IC],
     [("scan_result::range and borrowed_tail_subrange", S), ("vscan_impl / scan_context iterator handling", I)],
     ["values and range() of chained calls"])

prop("P04", "Any input with any format string is processed safely and terminates",
     "No combination of input bytes (including ill-formed UTF-8), runtime format string and argument types leads to an out-of-bounds access, undefined behaviour, a failed internal assertion, an exception or non-termination: the call returns values or an error. "
     "A successful result never consumes characters outside the source.",
     ["inputs", "configurations"],
     "all format strings and all inputs over alphabets of significant tokens up to a length bound, for every supported argument type and for contiguous, segmented and FILE sources, under AddressSanitizer, UBSan and library assertions",
     "Unit tests run without sanitizers on valid-looking data; the fuzz targets sample, and compile neither the segmented sources nor all types.",
     [S, I, IC, "include/scn/ranges.h", "include/scn/chrono.h"],
     [("SCN_EXPECT/SCN_ENSURE contracts", "include/scn/fwd.h"), ("UTF-8 decoding", I), ("format string parser", S)],
     ["sanitizer reports, assertions, uncaught exceptions, time without progress"])

prop("P05", "Integers are read exactly, with overflow reported, never wrapped",
     "For every integer type, base and prefix, a scan yields the mathematical value of the longest prefix of the text that is a numeral of the chosen base, when the type can hold it, and consumes exactly that numeral. "
     "A value that does not fit is reported as positive or negative overflow, a text that is no numeral (or a minus sign for an unsigned type) as an invalid value, and an exhausted source as end of input; the target is then not produced.",
     ["inputs", "configurations"],
     "all strings of digits, signs, prefixes and terminators up to a length bound, for all integer types, all bases, narrow and wide; all numerals within a window of every type's limits in every base, with leading zeros and at every length around the 8-digit blocks",
     "Tests pick a few dozen numerals per type; the block-wise digit reader and the overflow test depend on length, base and value combinations that are not sampled.",
     [I, IC],
     [("parse_integer_value, parse_decimal_integer_fast_impl, check_integer_overflow", IC), ("parse_integer_prefix", I)],
     ["value, error code and range() of scn::scan"])

prop("P06", "All ways to read a value agree",
     "scan_int, scan_int_exhaustive_valid (on valid numerals), scan_value, scan with {}, an explicit presentation type or a compile-time format, scan with default values, with the classic locale, input and the wide variants give the same value, error and end position for the same text, type and base; and so do the corresponding entry points for every other argument type. "
     "Every base from 2 to 36 is read by scan_int with the digits 0-9, a-z and A-Z.",
     ["inputs", "configurations"],
     "all strings over digits, signs, spaces and letters up to a length bound x all bases x all integer types x all entry points",
     "Each entry point has its own few examples and is never compared with the others.",
     [S, I, IC],
     [("scan_int / scan_int_exhaustive_valid", S), ("default-argument fast path scan_value", IC)],
     ["value, error code and remaining range of each entry point"])

prop("P07", "Floating-point values are the correctly rounded value of the longest numeral",
     "Reading a float, double or long double takes the longest prefix of the text that is a numeral of the format allowed by the presentation type (decimal with or without exponent, hexadecimal, infinity, NaN), and gives its correctly rounded value with the right sign. "
     "Out-of-range values are reported as positive or negative overflow or underflow, and text without a numeral (an unterminated nan( included) as an invalid value.",
     ["inputs", "configurations"],
     "all strings over digits, point, exponent letters, signs and the letters of inf, nan and 0x up to a length bound, for all three types and all presentation types, plus all numerals around the limits and halfway points of each type",
     "The tests check a few constants; which prefix is taken in mixed input such as '1e+', '0x', 'infi', '1.e5' depends on combinations the tests do not enumerate.",
     [I, IC],
     [("float reader state machine", I), ("strtod/fast_float/from_chars back end", IC)],
     ["value bits, error code and range() of scn::scan"])

prop("P08", "Strings receive exactly the selected characters, whatever the target type",
     "A word ends before the next Unicode whitespace, a set conversion ends before the first character outside the set (or inside, for an inverted set), and a character-count conversion takes exactly that many characters (fewer only at the end of the source); std::string, std::wstring and views receive exactly these characters, transcoded when source and target differ. "
     "A view refers to the characters inside the source itself; empty words (unless an alignment is given) and empty set matches are errors, and nothing else is consumed.",
     ["inputs", "configurations"],
     "all strings over alphabets of set members, non-members, whitespace, multi-byte and ill-formed sequences up to a length bound x all set expressions from a grammar up to a size bound x targets x sources",
     "Tests try one or two sets per class; ranges, inversion, non-ASCII literals and classes combine, and matching is done in blocks whose boundaries are not sampled.",
     [S, I, IC],
     [("word/character set/character readers", I), ("character set parsing", S), ("transcoding", I)],
     ["value, error code and range() of scn::scan"])

prop("P09", "Unicode text is decoded, classified and never split",
     "Every Unicode scalar value is read, matched as a literal, and recognised or not as whitespace the same way in UTF-8 and in wide text, at every offset in the source, and ill-formed sequences are rejected by code-point reads and never taken for whitespace or part of another character. "
     "The values produced from well-formed text are well-formed.",
     ["inputs"],
     "all 1,112,064 scalar values, all 1-, 2- and 3-byte sequences and all significant 4-byte sequences, at all offsets of an 8-byte block",
     "Tests use a dozen code points; the SIMD-within-a-register whitespace and ASCII scans behave differently per offset and per byte.",
     [I, IC, S],
     [("utf8 decoding tables, is_cp_space, find_classic_space_narrow_fast", I)],
     ["values and range() of scn::scan for char32_t, string, literals and whitespace"])

prop("P10", "Width, precision, fill and alignment delimit a field exactly",
     "A precision is the greatest number of columns that a field, with its fill, may take, and a width the least: text beyond the precision is left in the source, and a field that stays below the width fails with the corresponding error. "
     "Fill characters are removed on the side(s) given by the alignment and only there; columns are counted by the documented width of each character, skipped leading whitespace included.",
     ["inputs", "configurations"],
     "all strings over value characters, fill, whitespace and wide characters up to a length bound x all combinations of alignment, fill, width 0-5 and precision 0-5 x argument types",
     "Tests try single combinations on single strings; interactions of fill, width and precision are a product space.",
     [I, S],
     [("skip_fill, take_width_view, scan_arg alignment handling", I)],
     ["value, error code and range() of scn::scan"])

prop("P11", "Exactly the valid format strings are accepted, at run time as at compile time",
     "A format string is accepted exactly if it follows the documented grammar for the argument types given: braces and specifications well-formed, argument indices in range, automatic and manual indexing not mixed, every argument used exactly once, and options applicable to the type. "
     "The compile-time check and the run-time check give the same verdict, and a rejected format string consumes nothing and reports an invalid format string.",
     ["inputs", "configurations"],
     "all format strings over the grammar's characters up to a length bound x argument types and counts, including argument lists beyond every internal limit",
     "Tests list a few dozen malformed strings; the grammar's language is infinite and the two checkers are only compared by example.",
     [S, I, IC],
     [("parse_format_string, format_handler, format_specs_checker", S), ("compile-time basic_scan_format_string", S)],
     ["error code of scn::scan with runtime_format", "constant evaluation of the format checker"])

prop("P12", "Literal text and whitespace in the format match as documented",
     "Outside replacement fields, a non-whitespace character of the format must be the next character of the source, whitespace in the format matches any amount of Unicode whitespace including none, and doubled braces stand for one brace. "
     "A mismatch fails with an invalid literal and no values, and fields skip leading whitespace exactly for the types for which that is documented.",
     ["inputs"],
     "all formats of up to 4 elements (literals, spaces, braces, fields) x all texts of up to 5 tokens",
     "Tests combine one literal with one text at a time.",
     [S, I, IC],
     [("format_handler::on_literal_text", IC), ("skip_classic_whitespace", I)],
     ["values, error code and range() of scn::scan"])

prop("P13", "Booleans, characters and pointers are read exactly as written",
     "A bool accepts exactly 0/1 and/or true/false as the presentation type allows, a character type takes exactly the next code unit or code point without skipping whitespace, and a pointer is a hexadecimal number with optional 0x prefix. "
     "Anything else is an invalid value, out-of-range values are overflows, and only the characters of the value are consumed.",
     ["inputs", "configurations"],
     "all strings over the relevant letters, digits and separators up to a length bound x presentation types x narrow and wide",
     "Tests check a dozen literals.",
     [I, IC],
     [("bool_reader, char readers, pointer reader", I)],
     ["value, error code and range() of scn::scan"])

prop("P14", "The global C and C++ locale never changes a result; L uses the given locale",
     "Without the L option the result of a scan does not depend on the process's C locale, the global C++ locale or a locale argument, and no scan changes any of them. "
     "With L, decimal point, digit grouping and truth names are those of the locale passed, or of the global locale if none is passed, and the positions of the group separators are not judged; dates are read as std::get_time reads them. Values nested in ranges and scanners of user types see the same locale.",
     ["inputs", "configurations"],
     "all strings over digits, both separators and points up to a length bound x all installed kinds of numpunct locales x argument types",
     "Tests use one locale and a few numerals.",
     [I, IC, S],
     [("localized_number_formatting_options, check_thsep_grouping", I), ("scan with locale argument", S), ("strtod back end", IC)],
     ["value, error code and range(); setlocale(LC_ALL, nullptr) and std::locale() afterwards"])

prop("P15", "Ranges and tuples are read element by element with their brackets",
     "A sequence, set, map, pair or tuple is read as its opening bracket, its elements in order separated by commas (key and value by a colon), and its closing bracket, with optional whitespace between the parts, and holds exactly the elements read; the field's specification applies to every element of a sequence or set. "
     "Any other text is an error, and nothing after the closing bracket is consumed.",
     ["inputs", "configurations"],
     "all token sequences over brackets, separators, elements and spaces up to a length bound x container types x specifications",
     "Tests read a few well-formed containers.",
     ["include/scn/ranges.h", S],
     [("range_scanner, tuple scanner", "include/scn/ranges.h")],
     ["values, error code and range() of scn::scan"])

prop("P16", "Dates and times are validated field by field",
     "Each conversion specifier of a chrono or tm format reads exactly its documented field: number of digits, range, name or sign, with literals matched as given, and the result holds exactly the calendar fields read. "
     "Out-of-range fields and specifiers that contradict each other are errors (whether a day exists in its month is not checked), and nothing outside the field is consumed.",
     ["inputs", "configurations"],
     "for every specifier all digit strings up to its width plus one, all names and prefixes of names, and all pairs of specifiers",
     "Tests cover some specifiers with one valid and one invalid value each.",
     ["include/scn/chrono.h", IC],
     [("tm_reader, setter and datetime_components", IC)],
     ["members of the result, error code and range() of scn::scan"])

prop("P17", "Regular expression fields match like the chosen regex engine",
     "A regex field matches the pattern at the current position (leading whitespace is not skipped) with the given flags, yields the matched text (or all groups, with their participation and names), and consumes exactly the match; no match is an error that consumes nothing. "
     "Malformed patterns and flags are rejected as invalid format strings.",
     ["inputs", "configurations"],
     "all patterns from a grammar up to a size bound x all texts up to a length bound x flags x result types",
     "Tests use about a dozen patterns.",
     ["include/scn/regex.h", I, S],
     [("regex reader", I), ("regex pattern parsing in format specs", S)],
     ["matches, error code and range() of scn::scan"])

prop("P18", "Concurrent scans are atomic per FILE and independent otherwise",
     "When several threads scan from the same FILE, each scan happens as if alone: every interleaving yields the values and the rest of some serial order of the calls, with no character lost, repeated or split between calls. "
     "Scans from different sources never influence each other.",
     ["schedules", "histories"],
     "all interleavings, at the granularity of reads and stream locking, of two or three threads with up to three scans each, for all splits of the text into reads",
     "There is no concurrent test at all.",
     [S, I, IC],
     [("stdio file lock held during a scan", IC), ("no process-wide state in the number readers", IC)],
     ["results of the scans and what remains in the FILE"])

prop("P19", "User-defined scanners, discarding and nested scans compose with built-in ones",
     "A user-defined type is read by its scanner exactly where its field stands, sees the format specification of that field and the rest of the source, and what it returns (position, value, error) is what the caller gets; nested scans inside it and stream extraction operators behave as if applied to the rest of the source. "
     "A discarded field consumes exactly what a kept one would.",
     ["inputs", "histories"],
     "all texts over small alphabets up to a length bound x formats with custom fields in each position x source kinds",
     "Tests use one custom type on one valid input.",
     [S, "include/scn/istream.h", "include/scn/xchar.h", I],
     [("custom argument handle", S), ("nested context range", I), ("istream scanner", "include/scn/istream.h"), ("scn::discard", S)],
     ["values, error code and range() of scn::scan"])

prop("P20", "The result object keeps its value or error through every operation",
     "A result holds either values or an error, and copying, moving, assigning, swapping, accessing and transforming it preserve exactly that content, run each contained object's constructors and destructors exactly once, and never leave it empty. "
     "Values returned are those scanned, in argument order, for every argument count, with given default values only replaced on success.",
     ["histories", "inputs"],
     "all sequences of up to 4 operations on two results of every kind of content (trivial, move-only, counting)",
     "Tests construct and read results but do not compose operations.",
     [S],
     [("scan_expected storage and special members", S), ("scan_result", S)],
     ["has_value, value, error, live-object counts"])

LEVEL_NOTE = ("Decided on everything enumerated (exhaustive within the stated bounds, on the real code built from the "
              "working tree); says nothing beyond the bounds. Trusts the compiler, libc and the independent oracle in mc/.")

TECH = {
    "P01": "bounded-exhaustive explicit enumeration of inputs, formats and read-split schedules on the real code, differential oracle",
    "P02": "stateless exploration of all stdio/scan histories up to a depth on the real code against an explicit string-with-position model, with read faults injected at every point",
    "P18": "stateless model checking: all schedules of scanning threads at controlled switch points on the real code, linearizability oracle",
}


def main():
    with open(V / "properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in SPEC:
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick",
                               thorough_cmd=f"python3 check.py {i} thorough",
                               technique=TECH.get(i, "bounded-exhaustive explicit-state enumeration of executions of the real code against an independent executable model"),
                               level="model_checking",
                               level_note=LEVEL_NOTE))
        else:
            na.append(dict(property=i, reason="no check yet"))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo are needed: every property is observed through the public API, custom FILE cookies and interposed libc calls. Checks build impl.cpp and one harness of mc/ from /repo's working tree into /verif/build.")
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
