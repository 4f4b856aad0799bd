"""What each check builds and how its space is described."""
BASE_FLAGS = [
    "-std=c++17", "-O1", "-g1", "-w", "-flto",
    "-DSCN_DISABLE_FAST_FLOAT=1", "-DSCN_REGEX_BACKEND=0",
]
# the same in C++20, where the library uses other branches of its headers
BASE20 = ["-std=c++20"] + BASE_FLAGS[1:]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]

SPEC = {
    "P01": dict(
        harness="p01_sources.cpp",
        rule="every token sequence up to the bound x format x type, run on a "
             "string_view, a list, a deque, wide views and FILEs under every "
             "division of the bytes into reads (all 2^(n-1) cut masks of short "
             "inputs, all single and double cuts of long ones), default, "
             "unbuffered and small-buffered; numbers, strings, characters, dates, ranges, "
             "tuples, nested, discarded and operator>> fields",
    ),
    "P02": dict(
        harness="p02_file.cpp",
        rule="every history of scans (through every entry point), getc and ungetc up to "
             "the bound on one FILE of each kind, against a string with a position; a read "
             "error injected at every position; long values put back after a failure",
    ),
    "P05": dict(
        harness="p05_ints.cpp",
        rule="all strings over digits, letters, prefixes, signs and a space up "
             "to the bound; all numerals within a window of every power of two, "
             "power of ten and multiple of 2^64 in every base; every byte value "
             "at every position of a digit string; all values of the 8- and "
             "16-bit types; numerals of every length up to 300 (1100) digits; "
             "characters that share a digit's or sign's low byte, wide characters "
             "of every value up to U+1FFFF and outside Unicode; each type x presentation, narrow and wide, against "
             "a 128-bit arithmetic model",
    ),
    "P06": dict(
        harness="p06_entry.cpp",
        rule="scan_int in bases 0, 2-36 on all short strings over the decisive "
             "characters and around all limits, scan_int_exhaustive_valid on all "
             "shapes of valid numerals, both against a model; every generic "
             "entry point (compile-time, run-time, indexed, default values, "
             "locale, scan_value, vscan, input, prompt, FILE, wide) for every "
             "type on all short texts, against each other; all kinds of "
             "whitespace, prefixes in both cases, long numerals and lookalikes; "
             "every presentation type over arguments that held other values",
    ),
    "P07": dict(
        harness="p07_floats.cpp",
        rule="all strings up to the bound over the characters of decimal and "
             "hexadecimal numerals, inf, nan and signs; all exponents around "
             "and beyond the range; the values next to every limit, their "
             "halfway points and long digit strings; three types x all "
             "presentation types, narrow, wide and non-contiguous, against a "
             "hand-written grammar with isolated rounding; lookalikes of every "
             "significant character",
    ),
    "P08": dict(
        harness="p08_strings.cpp",
        rule="all texts up to the bound over letters, whitespace, multi-byte, "
             "ill-formed and odd bytes; every byte at every position of words; "
             "all set expressions up to a size over members, ranges, inversion "
             "and non-ASCII ends; all character counts; targets string, wstring, "
             "string_view, wstring_view from narrow, wide, list and FILE sources",
    ),
    "P03": dict(
        harness="p03_compose.cpp",
        variants=[{}, dict(base=BASE20)],
        rule="all texts up to the bound x all pairs and triples of fields with "
             "all separators x all ways to cut the format into calls, on views, "
             "strings, lists, deques, wide views and FILEs under several read "
             "divisions, one call against the chain of calls; argument counts "
             "1 to 34, 62 to 66 and 70; every kind of range (string, vector, forward_list, list, "
             "subrange, sentinel-terminated, arrays; narrow and wide); in C++17 and C++20",
    ),
    "P04": dict(
        harness="p04_safety.cpp", flags=SAN, stall=120,
        rule="all format specifications up to the bound over every token of the "
             "grammar (and raw brace sequences; unterminated ones too) x nasty inputs x 29 argument "
             "types; all texts up to the bound over significant and ill-formed "
             "tokens x formats x types on exact-size views, lists, wide views, "
             "wide deques and FILEs; the limits of all integer types in all bases and "
             "entry points; with ASan, UBSan and all assertions on",
    ),
    "P16": dict(
        harness="p16_chrono.cpp",
        variants=[{}, dict(base=BASE20)],
        rule="every conversion specifier on all texts up to the bound, all "
             "numbers 0-9999 in all paddings, all names in every case, every "
             "prefix and every one-byte change, composites under every single "
             "insertion, replacement and cut, field limits in combination, all "
             "formats of up to three parts for ten types, subseconds, time "
             "points (values and errors) and localized names; each character replaced by one with the "
             "same low byte, every byte in every text and format, ill-formed characters; "
             "in C++17 and C++20, against a hand-written field model",
    ),
    "P10": dict(
        harness="p10_fields.cpp",
        rule="all texts up to the bound over value characters, fill, whitespace "
             "and double-width characters x all alignments, fills, widths and "
             "precisions x 11 kinds of fields; runs of fill, value, fill and "
             "tail with all limits around their lengths; the columns of every "
             "code point; narrow, wide, list and FILE sources, against a "
             "column-level model",
    ),
    "P13": dict(
        harness="p13_basic.cpp",
        rule="bool on all texts over its letters and digits up to the bound, all "
             "one-byte changes of the names, all presentations; char, wchar_t and "
             "char32_t on all byte pairs, all code points and ill-formed "
             "sequences, and with integer presentations on all short texts and "
             "all values around the limits; pointers on all short texts and "
             "around every power of two; lookalikes of every character of a "
             "value; view, list, FILE, wide and wide deque",
    ),
    "P12": dict(
        harness="p12_literals.cpp",
        rule="all formats up to the bound over literals, doubled braces, "
             "whitespace and fields of six kinds x all texts up to the bound; "
             "every ASCII literal against every byte; literals against "
             "characters with the same low byte on seven pages; every whitespace and "
             "near-whitespace character; long literals with every place of the "
             "first difference; view, list, FILE and wide, against a model",
    ),
    "P15": dict(
        harness="p15_ranges.cpp",
        variants=[{}, dict(base=BASE20)],
        rule="all token sequences up to the bound over brackets, separators, "
             "elements and spaces for some 30 container (multi- and unordered "
             "ones, bounded ones, own brackets and separators), pair, tuple and nested "
             "types and element specifications; well-formed texts under every one or "
             "two insertions, deletions, replacements and cuts; every byte at every place; "
             "lengths up to 70 and tuples of up to 20; "
             "view, list, FILE, wide view and deque, and as a later field, in C++17 and C++20, against a recursive model",
    ),
    "P17": dict(
        harness="p17_regex.cpp",
        variants=[{}, dict(flags=["-USCN_REGEX_BACKEND", "-DSCN_REGEX_BACKEND=1",
                                  "-DSCN_REGEX_BOOST_USE_ICU=1"],
                           link=["-lboost_regex", "-licui18n", "-licuuc", "-licudata"])],
        rule="all token sequences up to the bound over the operators of regular "
             "expressions (groups, named groups, classes, anchors, escapes) x "
             "flags x texts, up to 24 groups, into strings, views and (new or used) "
             "match lists, narrow and "
             "wide, first and later field, for std::regex and for Boost.Regex "
             "with ICU, against the engine applied to the rest of the text",
    ),
    "P09": dict(
        harness="p09_unicode.cpp",
        rule="every scalar value as a value, in words, as whitespace, literal, "
             "set member and range end, fill, and for its columns, in UTF-8 and "
             "wide text; the whitespace characters and their neighbours at every "
             "offset and distance to the end, contiguous and with reads cut "
             "through them; every sequence of one and two bytes, three and four "
             "bytes with all decisive bytes; every ill-formed wide character",
    ),
    "P11": dict(
        harness="p11_format.cpp",
        # the run-time check, and the compile-time check in eight parts
        variants=[{}] + [dict(harness="p11_ct.cpp", noimpl=True,
                              base=["-std=c++20", "-O0", "-w"] + BASE_FLAGS[5:],
                              flags=[f"-DCHUNK={k}", "-DCHUNKS=8"],
                              thorough_flags=["-DMC_THOROUGH=1"]) for k in range(8)],
        rule="at run time: all specifications of up to 4 tokens for ten types, "
             "every byte value in every position, every code point as fill, literal "
             "and set member, ill-formed wide characters, numbers around every limit, "
             "all strings of up to 7 of the characters {}:01<da, all sequences "
             "of up to 4 fields, up to 129 arguments with every index changed, "
             "narrow, wide and from a deque; at compile time: some 250,000 of "
             "these strings given to the consteval check itself, its refusal "
             "observed by substitution failure; both against one grammar model",
    ),
    "P14": dict(
        harness="p14_locale.cpp",
        rule="without L: all token sequences up to the bound for 15 types and "
             "formats and date formats, in 22 environments (C locale, global C++ "
             "locale, thread locale, locale argument), against the classic "
             "environment, with the state of all locales compared afterwards; "
             "with L: all texts up to the bound over digits, separators, points "
             "and other punctuation for ten locales, all limits with all "
             "placements of separators, narrow and wide, from a view, deque and "
             "FILE, with the locale passed or global, nested in containers and "
             "user types, against a model with the locale's characters; dates with E "
             "and O specifiers in all installed locales against std::get_time (value and end); localized "
             "fractions of seconds; the "
             "locale that a user scanner sees in its context",
    ),
    "P19": dict(
        harness="p19_custom.cpp",
        rule="user types that inherit, nest, delegate or are discarded against the "
             "built-in fields they stand for, on all texts up to the bound and with all "
             "specifications of two tokens, alone, "
             "beside other fields (all orders of built-in and user fields with and "
             "without specifications), in containers and tuples and as late arguments; a "
             "recording scanner with every answer (position, error, parse failure) "
             "in 15 formats; operator>> with all programs of up to 4 (5) of 17 "
             "stream operations and states against std::istringstream; view, deque, list, "
             "FILE and wide",
    ),
    "P20": dict(
        harness="p20_result.cpp",
        variants=[{}, dict(base=BASE20)],
        rule="all sequences of up to 4 of some 40 operations (construct, copy, move, "
             "swap, assign, emplace, convert, access as const and rvalue, monadic) on two results from every "
             "initial state, for 13 kinds of content and error, with every fault "
             "point for throwing contents (up to 3 (4)); scans with 0 to 26 arguments in 9 type "
             "rotations with every place of failure, with initial values, locale, "
             "manual indexing and vscan; single-value results through copies, "
             "moves, swaps and monadic operations; all in C++17 and C++20",
    ),
    "P18": dict(
        harness="p18_threads.cpp",
        # instrumented with gcc's calls for TSan, linked with a runtime of our own
        base=["-std=c++17", "-O1", "-g1", "-w", "-DSCN_DISABLE_FAST_FLOAT=1",
              "-DSCN_REGEX_BACKEND=0", "-fsanitize=thread", "-fno-builtin",
              "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
        nolink=["-fsanitize=thread"],
        aux=[("ctl_rt.cpp", ["-std=c++17", "-O1", "-w", "-fno-threadsafe-statics",
                             "-fno-tree-loop-distribute-patterns"])],
        link=["-ldl", "-Wl,-z,now"],
        stall=300,
        rule="all schedules (at most 2 (3) preemptions) of two threads with one or "
             "two calls and of three threads with one call on one FILE, all tuples "
             "of 21 operations (18 for three calls) x texts x divisions into reads x buffers, read "
             "errors at every position: the outcome must be that of a serial order; "
             "all pairs of 46 scans of independent sources, in two C locales: each "
             "must return what it returns alone; decision points are locks, reads, "
             "user code, process-wide state and every access to memory that two "
             "threads use without a common lock",
    ),
}
