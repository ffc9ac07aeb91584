#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept in Python only because JSONL is unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

STR, DEC, INT, HDR = "source/string.cxx", "source/string_decode_utf8.cxx", "source/string_internal.hxx", "interface/string.hxx"

prop("C01", "UTF-8 validation accepts exactly the library's UTF-8",
 "isUtf8 of a NUL-terminated string is true exactly when the string is a sequence of shortest-form 1- to 6-byte encodings of code points 1..0x7fffffff other than surrogates, or of surrogate pairs written as two 3-byte sequences (high half, then low half), optionally followed by one sequence that the end of the string cut off (a lead byte and fewer, well-formed, continuation bytes than it announces). Over-long forms, orphaned or reversed surrogate halves, stray continuation bytes, 0xFE and 0xFF anywhere make it false; null and empty are true.",
 ["inputs"], "every finite string of bytes, of any length",
 "The tests hold a few dozen literal strings; there are 2^32 four-byte strings alone, and sequences of up to six bytes in every position of longer strings.",
 [STR, DEC, INT], [("decodeUtf8", DEC), ("isUtf8 scan loop", STR), ("getRangeFlag", INT)], ["return value of isUtf8(const char*), isUtf8(const std::string&)"])

prop("C02", "Target ranges are enforced code point by code point",
 "isUtf8, isUtf16, isUcs2 and isUcs4 with a target range are true exactly when the source is valid in its own encoding and every decoded code point lies in the target range: ASCII up to 0x7f, UCS-2 up to 0xffff, UTF-16 and Unicode up to 0x10ffff, UTF-8 up to 0x7fffffff, UCS-4 anything, surrogates never. isUcs2 refuses any surrogate half and isUtf16 any unpaired one (but for a high half that ends the string, which is ignored); a target range outside the enumeration makes each of them false, even for empty or null strings.",
 ["inputs"], "every string of 8-, 16- or 32-bit units, every target range including values outside the enumeration",
 "Tests check a few strings per range; the range limits apply to 2^32 code units and to every combination of encoding, target and position.",
 [STR, INT, HDR], [("rangeTypeToRangeFlag, getCharEncodableRangeFlags", INT), ("isUtf16, isUcs2, isUcs4", STR)], ["return values of isUtf8, isUtf16, isUcs2, isUcs4"])

prop("C03", "Conversions from UTF-8 decode exactly or return nothing",
 "toUcs4, toUtf16 and toUcs2 of a UTF-8 string return precisely the sequence of its decoded code points in the target encoding (a surrogate pair written as two 3-byte sequences is one code point), ignoring only a cut-off last sequence. If anything in the string is broken, or any code point does not fit the target (above 0x10ffff for UTF-16, above 0xffff for UCS-2), the result is empty, never partial.",
 ["inputs"], "every string of bytes", "Tests convert fewer than a hundred strings; the mapping is over 2^31 code points and all broken byte sequences in all positions.",
 [STR, DEC, INT], [("toUcs4/toUtf16/toUcs2(const char*)", STR), ("decodeUtf8", DEC), ("rawEncodeUtf16", INT)], ["returned strings"])

prop("C04", "Conversions from UTF-16 and UCS-4 encode exactly or return nothing",
 "toUtf8 and toUcs4 of UTF-16, and toUtf8, toUtf16 and toUcs2 of UCS-4, return precisely the encoding of the source's code points, UTF-8 always in shortest form with no surrogates, ignoring only a high surrogate that ends a UTF-16 string. If the source has an orphaned or reversed surrogate half (any surrogate, for UCS-4) or a value the target cannot hold (0x80000000 and up for UTF-8), the result is empty, never partial.",
 ["inputs"], "every string of 16-bit or 32-bit units", "There are 2^32 single-unit UCS-4 strings and 2^32 two-unit UTF-16 strings; tests cover a few.",
 [STR, INT], [("toUtf8/toUcs4(const char16_t*)", STR), ("toUtf8/toUtf16/toUcs2(const char32_t*)", STR), ("encodeUtf8, rawEncodeUtf16", INT)], ["returned strings"])

prop("C05", "Chains of conversions lose nothing and settle at once",
 "Starting from any text, every chain of successful conversions among UTF-8, UTF-16, UCS-2 and UCS-4 leaves the sequence of code points unchanged, so that coming back to an encoding after any detour gives the same units as the first conversion to it did. What a conversion produces is always accepted by the target encoding's own is-function, contains no cut-off sequence, and different code point sequences never give equal results. A broken string, or a UCS-4 string with a value of 0x80000000 or more, is no text: no chain leads anywhere from it.",
 ["histories", "inputs"], "every text and every sequence of conversions applied to it", "Tests convert in one step; no test runs round trips, let alone longer histories, over the whole code space.",
 [STR, DEC, INT], [("decodeUtf8 / encodeUtf8", DEC), ("rawDecodeUtf16 / rawEncodeUtf16", INT)], ["returned strings of successive conversions"])

prop("C06", "What is accepted re-encodes; what is refused converts to nothing",
 "If isUtf8, isUtf16 or isUcs4 accepts a string for a target range (UTF-8, UCS-2, UTF-16 or UCS-4), the matching to-function encodes every complete code point of it in that target, returning a non-empty string whenever there is at least one. If it refuses the string for that target even with a cut-off last sequence, if there is one, taken away, the to-function returns an empty string.",
 ["inputs"], "every source string, every pair of source encoding and target range that has a conversion", "The two families of functions are separate code; tests check each with its own literals, never one against the other.",
 [STR, INT, HDR], [("getCharEncodableRangeFlags vs. isUtf16Encodable", STR), ("is- and to- scan loops", STR)], ["is-function return value next to to-function result"])

prop("C07", "Only a cut-off last sequence is ignored, and only at the end",
 "A multi-unit sequence that the NUL terminator cuts off (a UTF-8 lead byte followed by fewer continuation bytes than it announces, the first half or part of a surrogate pair spelled in UTF-8, or a last high surrogate in UTF-16) changes no result of an is-, to- or toLower function for what precedes it: the same string without those last units gives the same answer, provided the lead byte can still introduce a code point of the target range (otherwise is-functions refuse it). The same units followed by anything but their proper continuation make the whole string broken.",
 ["inputs"], "every valid string, every proper prefix of every multi-unit sequence appended to it, every unit following it", "Tests cut a handful of strings; the cut may be after any number of bytes of any of 2^31 sequences, and what precedes it matters to accumulated state.",
 [STR, DEC], [("decodeUtf8 returning 0 at the terminator", DEC), ("break / return true in scan loops", STR)], ["results for s, s+cut and s+cut+x"])

prop("C08", "Length-terminated scans see exactly their bytes, and no more",
 "isUtf8 and unicodeLength with a length n > 0 read none of the memory beyond the first n units, whatever it holds, and when those units contain no NUL they answer what the string of exactly these n units is (isUtf8: as the NUL-terminated form; unicodeLength: the number of complete code points, 0 if broken); a last sequence cut off by the length is ignored (a last ED B0..BF, which can only begin an orphaned half, may count as broken). A NUL between two code points before the end makes isUtf8 false and unicodeLength 0, except that a NUL in first place makes isUtf8 true.",
 ["inputs"], "every buffer, every length, every content of the memory that follows", "Tests pass literals, which always have a terminator behind them, so reading too far or depending on what follows cannot show.",
 [STR], [("lengthLeft bookkeeping", STR), ("isFirstHalfUtf16AsUtf8 / isSecondHalfUtf16AsUtf8 look-ahead", STR)], ["return values; memory accesses (guard page behind the buffer)"],
 [("lengthLeft", "units not yet scanned", STR)])

prop("C09", "unicodeLength counts code points",
 "unicodeLength of a UTF-8, UTF-16 or UCS-4 string is the number of code points in it, 0 for null, empty and broken ones; it is never more than the number of code units. For UTF-8, values above 0x10ffff count as broken; a cut-off last sequence is not counted.",
 ["inputs"], "every string of 8-, 16- or 32-bit units", "Tests measure a few literals.",
 [STR], [("unicodeLength loops", STR)], ["return value of unicodeLength"])

prop("C10", "Predicates are the conjunction of the conditions they were built from",
 "A predicate built by validIf or validIfNot and narrowed by any sequence of andIf and andIfNot calls holds for a character exactly when every one of those conditions holds for it, in whatever order and however often they were given; contradictory conditions hold for none, kIsNone and values outside the enumeration add no condition. Narrowing a predicate never affects other copies, evaluating it never changes it, and predicates built from the same set of consistent conditions compare equal, from different sets unequal.",
 ["histories", "inputs"], "every history of building, copying, narrowing, comparing and evaluating predicates; every character of each width", "Tests try a dozen fixed combinations on a few characters; the combinations are unbounded sequences.",
 ["source/encoding_check_predicate.cxx", HDR, INT], [("m_mask / m_value", HDR), ("andIf, andIfNot", "source/encoding_check_predicate.cxx"), ("charToEncodingTypeMask", INT)], ["operator(), operator== after each step"],
 [("m_mask", "conditions under test", HDR), ("m_value", "wanted outcome of each", HDR)])

prop("C11", "Scans apply a predicate to every decoded code point, in any encoding",
 "isUtf8, isUtf16, isUcs2 and isUcs4 given a predicate are true exactly when they would be without it and the predicate holds for each complete code point of the string (not for its code units), so the same text in different encodings gets the same answer. A predicate without conditions changes nothing.",
 ["inputs"], "every string, encoding, target range and predicate", "Tests use a few BMP strings with a few predicates; code points beyond the BMP in UTF-16 were never tried.",
 [STR, "source/encoding_check_predicate.cxx"], [("isNullPred / pred(c) in the scan loops", STR)], ["return values of the is-functions with predicate"])

prop("C12", "Character classes follow the selected Unicode version exactly",
 "For each supported Unicode version 7 to 16, 'assigned' holds exactly for the code points that version's UnicodeData assigns other than surrogates and private use, 'private' exactly for the three private-use areas, 'control' exactly for general category Cc, and 'whitespace' exactly for White_Space; the 16-bit and 32-bit forms agree on all of 0..0xffff, and values above 0x10ffff are in no class.",
 ["inputs", "configurations"], "every 16- and 32-bit value, for each of the ten Unicode versions the library can be configured for", "The test for assigned code points leaves out some values and only tests each version in its own build; ten hand-written tables have about 700 ranges each.",
 ["source/bits7/char_is_unicode.cxx", "source/bits16/char_is_unicode.cxx", INT], [("isUnicodeAssigned, isUnicodePrivate, isControlChar, isWhitespaceChar", "source/bits*/char_is_unicode.cxx")], ["validIf(t)(c)"])

prop("C13", "Lower-casing a code point follows the selected Unicode version exactly",
 "For each supported Unicode version 7 to 16 and every 32-bit value, toLower of the one-character UCS-4 string is that version's simple lower-case mapping (UnicodeData field 13), and the value itself where there is none; with a Turkic language only U+0049 differs, giving U+0131. Lower-casing twice is the same as once.",
 ["inputs", "configurations"], "every 32-bit value, for each of the ten Unicode versions, Turkic or not", "Tests check the letters their author thought of, partly with mistakes; the mapping is over 0x110000 code points in ten hand-written tables.",
 ["source/bits7/char_to_lower.cxx", "source/bits16/char_to_lower.cxx"], [("toLower, turkicToLower", "source/bits*/char_to_lower.cxx")], ["toLower(ucs4String(1, c), lang)"])

prop("C14", "Lower-casing a string maps each code point, whatever the encoding",
 "toLower of a UCS-4 string has the same length and maps each character on its own, independent of its neighbours; toLower of a UTF-8 or UTF-16 string is the conversion of the lower-cased code points back to that encoding, empty if the source is broken (or, for UTF-16 and UTF-8, contains nothing complete). Dotless-i behaviour is selected exactly by the language codes az, aze, azb, azj, kk, kaz, tt, tat, tr and tur; every other string, a null pointer included, selects the ordinary mapping.",
 ["inputs"], "every string in each encoding, every language string", "Tests use the ten codes and two others, and single-script strings.",
 ["source/string_tolower.cxx", STR], [("isTurkicLang", "source/string_tolower.cxx"), ("toLower overloads", "source/string_tolower.cxx")], ["toLower(s, lang)"])

prop("C15", "Windows code pages convert byte for byte to UTF-8",
 "toUtf8 of a NUL-terminated string in CP1252 or CP1250 is the UTF-8 encoding of each byte's code point in that code page, and empty if any byte is undefined there. From kSrcUnicode it is the string itself if that is valid UTF-8 and empty otherwise; an unknown source encoding, a null pointer and an empty string give an empty string.",
 ["inputs"], "every string of bytes, every source encoding value", "Tests check the tables once, in one string order, and no mixture of defined and undefined bytes in every position.",
 ["source/string_toutf8.cxx"], [("cp125280_9F, cp125080_FF", "source/string_toutf8.cxx")], ["toUtf8(src, srcType)"])

prop("C16", "split and join are inverse, for every character type and delimiter",
 "split gives the maximal delimiter-free pieces of a string in order, empty ones included (one more than there are delimiters; none for the empty string), and join concatenates pieces with one delimiter between each two. join of split gives back the string for every delimiter, NUL included, and split of join gives back the pieces whenever none contains the delimiter and they are not just one empty piece.",
 ["inputs"], "every string (NULs included) and list of strings over every integral character type, every delimiter", "Tests split a few ASCII strings at commas.",
 ["interface/string_splitjoin.hxx"], [("breaks list", "interface/string_splitjoin.hxx"), ("join append loop", "interface/string_splitjoin.hxx")], ["returned vectors and strings"])

prop("C17", "Trimming removes exactly the blank characters at the ends",
 "trim removes the longest prefix and suffix of spaces (or of characters in the given set) and nothing else, so that a second trim changes nothing; trimAscii7WhiteSpace does so for tab, LF, CR and space. trimWhiteSpace does so, alike for the same text in UTF-8, UTF-16 and UCS-4, for tab, LF, CR and all of Unicode's space separators (U+0020, U+00A0, U+1680, U+2000-200A, U+202F, U+205F, U+3000); in UTF-8, valid text keeps every other code point.",
 ["inputs"], "every string and every set of characters to trim, over each character type", "Tests trim a few strings with blanks of one kind.",
 ["interface/string_trim.hxx"], [("trim loops", "interface/string_trim.hxx"), ("white space literals", "interface/string_trim.hxx")], ["the string after the call"])

prop("C18", "wchar_t functions are the functions of the encoding wchar_t holds",
 "With 32-bit wchar_t, conversions from and to wide strings equal those from and to the UCS-4 string of the same values (to and from UCS-4 itself: the same values if all are Unicode scalar values, else empty), is-functions of wide strings accept exactly scalar values up to 0x10ffff (0xffff for isUcs2), and isWstring accepts exactly what is valid in its own encoding up to 0x10ffff. With 16-bit wchar_t the same holds with UTF-16 in place of UCS-4; a null pointer converts to an empty string in both.",
 ["inputs", "configurations"], "every string of each type, for both sizes of wchar_t", "Tests run for the compiler's 32-bit wchar_t only, with a few literals; the 16-bit half of the header is never compiled here.",
 [HDR], [("wchar_t adapters under WCHAR_MAX", HDR)], ["return values of the wchar_t overloads, isWstring, toWstring"])

prop("C19", "TCHAR functions follow the narrow or wide build that TCHAR is",
 "In Windows builds, toTstring gives, for narrow TCHAR, the string itself if all of it is ASCII (empty otherwise) and, for wide TCHAR, its UTF-16 encoding (empty if broken or beyond 0x10ffff); isUtf16, isUcs2, isUcs4 of narrow strings are isUtf8 for that target and toUtf8 of a narrow string is the string if valid. Pointer and string forms agree, null pointers give empty strings, and isTstring accepts exactly what is valid in its own encoding up to 0x10ffff.",
 ["inputs", "configurations"], "every string of each type, for narrow and wide TCHAR", "This part of the header is compiled on Windows only; no test here reaches it.",
 [HDR], [("TCHAR adapters under WIN32, _MBCS, _UNICODE", HDR)], ["return values of the TCHAR overloads, isTstring, toTstring"])

prop("C20", "Calls depend on nothing but their arguments, in any thread and order",
 "Every function's result depends only on its arguments: not on earlier or concurrent calls, on the address or alignment of the source, on the memory behind its terminator, or on whether it is passed as a pointer or as a basic_string (of which the part before the first NUL counts). No call changes its source, data race free under concurrent use, and null pointers are taken as empty strings.",
 ["schedules", "histories", "inputs"], "every history of calls, every interleaving of calls by several threads", "Tests call each function once, in one thread, on one literal.",
 [STR, "source/string_tolower.cxx", "source/string_toutf8.cxx", "source/encoding_check_predicate.cxx", HDR], [("no mutable global state", STR), ("c_str() delegation of basic_string overloads", STR)], ["results of repeated, interleaved and concurrent calls"])

prop("C21", "The UTF-8 cursor decodes one code point and stops on its last byte",
 "decodeUtf8 (the internal header shared with other ANSAK modules) returns the code point at the cursor and leaves the cursor on its last byte; at a sequence cut off by the terminator it returns 0 with the cursor on the NUL; at a broken one it returns 0 and sets the cursor to null. It reads nothing beyond the first byte that decides this.",
 ["inputs"], "every byte sequence", "Tests check some dozens of sequences.",
 [DEC, "interface/internal/string_decode_utf8.hxx"], [("decodeUtf8", DEC)], ["return value and cursor"],
 [("p", "cursor", DEC)])

prop("C22", "The Unicode data tool lists exactly the assigned lines, in order",
 "mkUnicodeTestData turns a UnicodeData file into an array with one entry per line, in file order, holding the line's code point, leaving out surrogate and private-use lines, and closes it with 0xFFFFFFFF; it writes no array for an empty file. It exits with 1 for a wrong number of arguments, 2 for a missing input and 3 if the output cannot be created, without touching any file; with 4 if the input cannot be read, holds a line of more than ten characters without ';', or the output cannot be written completely; and with 0 only if all of the array is in the output file.",
 ["inputs"], "every UnicodeData file, with any number and mixture of lines; every amount of room for the output", "The tool is only run on the ten files in the repository, and its output is only used as test data: what it drops is not tested.",
 ["mkUnicodeTestData/mkUnicodeTestData.cxx", "interface/string_splitjoin.hxx"], [("process", "mkUnicodeTestData/mkUnicodeTestData.cxx")], ["output file, exit status"])

prop("C23", "Unicode versions only ever add, and each build reports its own",
 "Building for Unicode version N (7 to 16) gives a library that reports \"N.0.0\" and answers for that version; from each version to the next, no assigned code point is lost, classes of assigned code points other than 'assigned' never change, and a lower-case mapping, once a code point has one, never changes. Everything that does not depend on character data is the same in all versions.",
 ["configurations", "inputs"], "every pair of successive supported versions, every code point", "Each test build knows one version only; nothing compares them.",
 ["CMakeLists.txt", "source/bits7/char_is_unicode.cxx", "source/bits16/char_is_unicode.cxx", "source/bits7/char_to_lower.cxx", "source/bits16/char_to_lower.cxx"], [("ANSAK_UNICODE_SUPPORT", "CMakeLists.txt"), ("supportedUnicodeVersion", "source/bits*/char_is_unicode.cxx")], ["getUnicodeVersionSupported, validIf(t)(c), toLower across builds"])

prop("C24", "Configure, make, install, remove and clean touch exactly their own files",
 "Whatever sequence of configuring, editing and make targets (Makefile; make.py on Windows) came before: a successful all, test, install or package is made from the current sources with the configured Unicode version; install puts exactly the three public headers and the library, for each architecture and configuration its own, under the configured prefix and uninstall removes exactly those; clean and scrub remove build products (scrub also the configuration) and neither sources nor what is installed; a failed configure or make without configuration changes nothing; files of others under the prefixes, in the home directory and among CMake's modules stay as they are; an installer package holds that layout, FindANSAK.cmake and an uninstaller that deletes all of it.",
 ["histories", "configurations"], "every sequence of operations, every prefix, version and compiler, with and without other files present", "The tests never run the deployment scripts; what goes wrong does so only in certain orders (clean before configure, edit after clean, uninstall beside other files).",
 ["Makefile", "configure", "make.py", "configure.py", "project.py", "NSIS/ansak-string.nsi"], [("clean, install, uninstall", "Makefile"), ("Maker", "make.py"), ("main", "configure.py")], ["exit status and the file system after each operation"])

prop("C25", "The installed library is found and used as its documentation says",
 "find_package(ANSAK) finds the library in the place the CMake variable ANSAK_DIR names, else in the one the environment variable ANSAK_DIR names, else in the system's places: ANSAK_FOUND is true, ANSAK_STRING_LIB is exactly that place's library (on Windows the one of the project's architecture and build type), ANSAK_INCLUDE its include directory, which is added to the project's include directories unless ANSAK_ISOLATE is set; ANSAK_LIB_FOUND and ANSAK_SQLITE_FOUND are true exactly when header and library of that module are there (and SQLite3 was found), and then their variables name those libraries. Without the string library or its header the configuration fails. Running CMake again changes nothing. A program that includes the public headers in any order and in several translation units builds and runs with the library, whether installed by make install, by CMake, or as a sub-directory, and sees the Unicode version it was built for.",
 ["configurations", "histories"], "every combination of places, their contents, variables and platforms", "No test uses the library from outside of its own build.",
 ["FindANSAK.cmake", "CMakeLists.txt", "packaging.cmake", "interface/string.hxx"], [("find_package(ANSAK)", "FindANSAK.cmake"), ("install", "packaging.cmake"), ("install", "Makefile")], ["CMake variables, include directories and exit status; programs built with the library"])

prop("C26", "Running out of memory is reported, and changes nothing",
 "Wherever in a call an allocation fails, once or from then on, the call either throws std::bad_alloc or, where it can do without, gives its normal result; it never gives an empty or shortened result in place of the right one, and does not end the program. When it throws, its arguments are as they were, also the string that a trim function works on; nothing it had allocated is kept; and later calls, of this function or another, with the same argument or another, give what they would have given without it. While memory is plentiful no call throws.",
 ["crash_points", "histories", "inputs"], "every call, every allocation in it that may fail, every call after it", "No test makes an allocation fail, and an empty result is also what a broken text gives.",
 ["source/string.cxx", "source/string_tolower.cxx", "source/string_toutf8.cxx", "interface/string_trim.hxx", "interface/string_splitjoin.hxx", "interface/string.hxx"], [("CharacterAdder and returned strings", "source/string_internal.hxx"), ("trimWhiteSpace(utf8String&)", "interface/string_trim.hxx"), ("toLower over toUcs4 and back", "source/string_tolower.cxx")], ["exceptions, results, arguments and outstanding allocations after each call"])

prop("C27", "Packages hold the configured version's library, whatever came before",
 "After any sequence of configuring, editing and package targets, make package, deb, rpm and arch leave packages of the current sources for the configured Unicode version in the build directory: a tar file and the distribution's own kind (RPM on CentOS, Fedora and RedHat, else DEB, also where lsb_release is missing or says something else), with Unix Makefiles or a multi-configuration generator. Each holds exactly the three public headers and the library where make install puts them, and a program builds with them; its name tells Unicode version and library version, so that packages of different Unicode versions are different ones and do not replace each other; and it depends on nothing that does not exist. arch converts the configured version's package and no other; a target whose tool is missing, or a make without configuration, makes nothing; the sources stay as they are.",
 ["histories", "configurations"], "every sequence of operations, every Unicode version, distribution and set of packaging tools", "The tests never make a package; what goes wrong does so on another distribution, or only after another package was made.",
 ["packaging.cmake", "Makefile", "configure", "CMakeLists.txt"], [("package, rpm, deb, arch", "Makefile"), ("CPACK_*", "packaging.cmake"), ("SRCS", "configure")], ["packages in the build directory, their contents and control data, exit status"])

prop("C28", "The library works before main, in it, and until the program has ended",
 "Every function gives the same when it is called by the constructor of a static object before main begins, in main, in a function registered with atexit, by the destructor of a static or thread-local object, or by a thread that still runs while the program ends; whichever objects are made and destroyed first, and whether or not the library was used in an earlier phase. getUnicodeVersionSupported gives the version in all of them, and no call crashes or uses memory that has been freed.",
 ["histories", "schedules"], "every call, every phase of the program it is made in, every set of phases in which calls were made before", "Test frameworks make their calls in main; the order in which static objects are made and destroyed never matters there.",
 ["source/string_internal.hxx", "source/bits16/char_is_unicode.cxx", "source/string.cxx", "source/string_toutf8.cxx", "source/string_tolower.cxx", "source/encoding_check_predicate.cxx"], [("supportedUnicodeVersion", "source/string_internal.hxx"), ("constant tables, no objects with constructors", "source/*.cxx")], ["results of calls in each phase, exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
