#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/Ystring/"
S = "src/Ystring/"

EXACT = ("abstract interpretation of the LLVM IR of the current source (value sets, linear "
         "equalities and inequalities, trace partitioning without joins); every outcome partition is "
         "compared with the specification's input classes")
TABLE = ("abstract interpretation of the LLVM IR with the code point as one symbol over all 2^32 values; "
         "binary searches in constant tables split its value set, and every partition is compared with UnicodeData.txt 16.0.0")
REL = ("relational abstract interpretation of the LLVM IR (linear equalities and inequalities, value sets, "
       "loop invariants by widening, ranking functions) with contracts for the UTF-8 primitives")
MON = ("relational abstract interpretation of the LLVM IR with a typestate/ghost monitor over the output and the "
       "decoded code points, contracts for the UTF-8 primitives")
NOTE = ("Sound up to the trusted base: clang's IR, the abstract interpreter's transfer functions and joins, the models of "
        "libstdc++ functions and the entry wrappers. An obligation that cannot be proved is reported as a violation. "
        "Inputs are bounded only by a length of 2^62 bytes.")

P = []


def prop(id, title, statement, text, why, files, mech, technique, over=("inputs",), note=NOTE, level="proof", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, level=level, na=na))


T_EVERY = "The tests decode a handful of strings; the statement is about every byte sequence, every start and every end of the range."

prop("C01", "Forward decoding accepts exactly the well-formed sequences",
     "Decoding forward at any position yields the code point encoded by the lead byte and all the continuation bytes it calls for (one to four bytes, standard UTF-8 bit layout), and advances past exactly those bytes. When the range is empty, starts with a byte that cannot start a sequence, is cut short, or has something else in place of a continuation byte, the invalid-character value is returned and the position does not move.",
     "all byte contents, all positions and all range lengths", T_EVERY,
     [I + "DecodeUtf8.hpp"], [("decode_next", I + "DecodeUtf8.hpp")], EXACT)

prop("C02", "Backward decoding is the mirror image of forward decoding",
     "Decoding backward from any position yields the code point whose well-formed sequence (as accepted by forward decoding) ends exactly there, and moves back by exactly its length. When no such sequence ends there within the range, the invalid-character value is returned and the position does not move.",
     "all byte contents, all positions and all range lengths, including long runs of continuation bytes", T_EVERY,
     [I + "DecodeUtf8.hpp"], [("decode_prev", I + "DecodeUtf8.hpp")], EXACT)

prop("C03", "Encoding writes the shortest form, or nothing",
     "Encoding any code point up to U+10FFFF writes exactly its shortest UTF-8 form and reports that number of bytes, whether to a buffer, to an output iterator or by appending to a string. Larger values, and buffers that are too small for the whole sequence, result in 0 and nothing is written; appending a larger value to a string is refused with the library's exception.",
     "all 2^32 code point values and all buffer sizes", "Tests try a few code points and buffer sizes; the boundaries between lengths and every short buffer matter.",
     [S + "EncodeUtf8.hpp", S + "Algorithms.cpp", S + "Utf32.cpp"],
     [("encode_utf8", S + "EncodeUtf8.hpp"), ("get_utf8_encoded_length", S + "EncodeUtf8.hpp"), ("append", S + "Algorithms.cpp")], EXACT)

prop("C04", "Skipping always progresses and follows sequence boundaries",
     "Skipping one code point, forward or backward, on any range with at least one byte moves the position by at least one byte, never leaves the range and reports success; on an empty range it does nothing and reports failure. When a well-formed sequence starts (or ends) at the position, exactly that sequence is skipped, also when skipping shortens a view.",
     "all byte contents, all positions and all range lengths", T_EVERY,
     [I + "DecodeUtf8.hpp"], [("skip_next", I + "DecodeUtf8.hpp"), ("skip_prev", I + "DecodeUtf8.hpp"),
                              ("remove_utf8_codepoint", I + "DecodeUtf8.hpp"), ("remove_last_utf8_codepoint", I + "DecodeUtf8.hpp")], EXACT)

prop("C05", "Strict decoding rejects every malformed sequence with an exception",
     "The checked decoding functions, from the front and from the back, of ranges and of views, report the end of the text without an exception, return the code point and move past exactly its bytes when a well-formed sequence is there, and throw the library's exception in every other case. When they throw, the range or view given to them is unchanged.",
     "all byte contents and all range lengths", T_EVERY,
     [I + "DecodeUtf8.hpp"], [("safe_decode_next", I + "DecodeUtf8.hpp"), ("safe_decode_prev", I + "DecodeUtf8.hpp"),
                              ("pop_utf8_codepoint", I + "DecodeUtf8.hpp"), ("pop_last_utf8_codepoint", I + "DecodeUtf8.hpp")], EXACT)

T_TAB = "Tests look up a few dozen code points; errors in the packed tables or in the search are local to single values or ranges."
prop("T01", "Character classes agree with UnicodeData for every code point",
     "For every code point, the character class is the general category that UnicodeData.txt 16.0.0 gives it, including the ranges it lists by their first and last members, and unassigned when it is not listed. Values above U+10FFFF are unassigned.",
     "all 2^32 values of the argument", T_TAB, [S + "CharClass.cpp", S + "CharClassTables.hpp", I + "CharClass.hpp"],
     [("get_char_class", S + "CharClass.cpp"), ("COMPLETE_CHAR_CLASSES", S + "CharClassTables.hpp")], TABLE)
prop("T02", "Simple case mappings agree with UnicodeData for every code point",
     "For every value, the uppercase, lowercase and titlecase mapping of a single code point is the simple mapping in UnicodeData.txt 16.0.0 (titlecase falls back on uppercase), and the value itself when it has none.",
     "all 2^32 values of the argument", T_TAB,
     [S + "ConvertCase.cpp", S + "LowerCaseTables.hpp", S + "UpperCaseTables.hpp", S + "TitleCaseTables.hpp", S + "CharMappingTypes.hpp"],
     [("to_upper, to_lower, to_title of a code point", S + "ConvertCase.cpp")], TABLE)
prop("T03", "Code point predicates are exactly their unions of general categories",
     "Each predicate on code points that is defined by character classes (letters, marks, numbers, punctuation, separators, symbols, cased letters, upper and lower case, control, format, surrogate, graphical, visible, alphanumeric) holds for exactly the code points whose general category belongs to its documented union.",
     "all 2^32 values of the argument, 15 predicates", T_TAB, [I + "CodepointPredicates.hpp", S + "CharClass.cpp"],
     [("is_* predicates", I + "CodepointPredicates.hpp")], TABLE)
prop("T04", "Newline, whitespace and hex digit sets are exact",
     "The newline predicate holds for exactly U+000A to U+000D, U+0085, U+2028 and U+2029; the whitespace predicate for exactly those, tab, space and the separators above U+007F; the hexadecimal digit predicate for exactly 0-9, A-F and a-f. The list of ASCII whitespace has exactly tab, line feed, vertical tab, form feed, carriage return and space; the list of common whitespace exactly tab, line feed, carriage return and space.",
     "all 2^32 values of the argument", T_TAB, [I + "CodepointPredicates.hpp", S + "CharClass.cpp"],
     [("is_newline, is_whitespace, is_hex_digit", I + "CodepointPredicates.hpp"), ("ASCII_WHITESPACE, COMMON_WHITESPACE", I + "Algorithms.hpp")], TABLE)

T_SAFE = "Memory errors depend on exact offsets, truncated sequences and extreme arguments; tests try few of them and an out-of-bounds read seldom fails a test."
SAFE = "never read or write outside the text they are given or their own buffers, never read uninitialised values, shift or divide outside the defined range, "
def safe(id, title, what, files, mech):
    prop(id, title, what + " " + SAFE + "and always terminate. If an exception leaves them, it is the library's own (or reports that memory ran out).",
         "all contents (valid UTF-8 or not), lengths, offsets within the text and counts", T_SAFE, files, mech, REL)


safe("S01", "Searching is memory safe, terminates, throws only the library's exception",
     "The search functions (substrings, newlines, code point sets, predicates; from the front and from the back; exact and case-insensitive; prefix and suffix tests)",
     [S + "Algorithms.cpp", S + "AlgorithmUtilities.cpp", S + "Char32Set.cpp", I + "Algorithms.hpp"],
     [("find_*, ci::find_*", S + "Algorithms.cpp"), ("CodepointSet", S + "Char32Set.cpp")])
safe("S02", "Position functions are memory safe, terminate, throw only library exceptions",
     "The functions that count, index and cut out characters and code points (with any positive or negative index)",
     [S + "Algorithms.cpp", S + "AlgorithmUtilities.cpp", S + "Subrange.cpp"],
     [("get_char_*, get_codepoint_*", S + "Algorithms.cpp")])
safe("S03", "Trimming and joining are memory safe, terminate, throw only library exceptions",
     "The functions that trim and join text",
     [S + "Algorithms.cpp", I + "Algorithms.hpp"], [("trim*", S + "Algorithms.cpp"), ("join", I + "Algorithms.hpp")])
safe("S04", "Editing is memory safe, terminates, throws only the library's exception",
     "The functions that append, insert, replace by position, reverse text and replace invalid UTF-8",
     [S + "Algorithms.cpp", S + "AlgorithmUtilities.cpp"], [("insert_*, replace_*, reverse", S + "Algorithms.cpp")])
safe("S05", "Case functions are memory safe, terminate, throw only library exceptions",
     "The functions that convert the case of text and compare text or code points without regard to case",
     [S + "ConvertCase.cpp", S + "AlgorithmUtilities.cpp", S + "Algorithms.cpp", I + "CaseInsensitive.hpp"],
     [("to_upper, to_lower, to_title", S + "ConvertCase.cpp"), ("next_case_insensitive_mismatch", S + "AlgorithmUtilities.cpp")])
safe("S06", "Composition and UTF-32 conversion are memory safe and terminate",
     "The functions that compose text, decompose a code point and convert between UTF-8 and UTF-32",
     [S + "Normalize.cpp", S + "Utf32.cpp"], [("to_composed, decompose", S + "Normalize.cpp"), ("to_utf32, from_utf32", S + "Utf32.cpp")])
safe("S07", "Escaping and unescaping are memory safe, terminate, throw library exceptions",
     "The functions that escape text as JSON, look for characters to escape or escape sequences, and unescape one character or a text",
     [S + "Escape.cpp", S + "Unescape.cpp"], [("escape_json", S + "Escape.cpp"), ("unescape_next", S + "Unescape.cpp")])
safe("S08", "Splitting and replacing are memory safe and terminate",
     "The split functions and their case-insensitive forms, TokenIterator, and the replacement of substrings and code points, also without regard to case",
     [S + "Algorithms.cpp", "include/Ystring/TokenIterator.hpp"], [("split", S + "Algorithms.cpp"), ("replace, case_insensitive::replace", S + "Algorithms.cpp"), ("find_last_n", S + "AlgorithmUtilities.cpp"), ("TokenIterator", "include/Ystring/TokenIterator.hpp")])


prop("T05", "Canonical decomposition of every code point agrees with UnicodeData",
     "Decomposing a single code point yields the recursive application of the canonical mappings to two code points in UnicodeData.txt 16.0.0 (mappings to a single code point and Hangul syllables are outside the library's scope), and the code point itself when it has none, for every 32-bit value.",
     "all 2^32 values of the argument", T_TAB, [S + "Normalize.cpp", S + "NormalizationTables.hpp"],
     [("decompose", S + "Normalize.cpp")], TABLE)
prop("T06", "Composition joins exactly the canonical pairs",
     "Composing a text of two well-formed code points joins them into the composed code point for exactly the pairs of canonical two-code-point mappings in UnicodeData.txt 16.0.0, and returns the text unchanged for every other pair.",
     "all pairs of code points", "There are about 2^41 pairs; tests try a handful. A truncated key or a wrong table range shows only for single pairs.",
     [S + "Normalize.cpp", S + "NormalizationTables.hpp"],
     [("to_composed", S + "Normalize.cpp")], TABLE)

prop("P01", "Concurrent calls do not interfere, and results depend on arguments only",
     "No function of the library writes to storage with static duration, other than its one-time initialisation (which depends on no call's arguments), thread-local storage and atomic objects, and none consults or changes what all calls share outside it: the locale, the environment, the time, random numbers, standard streams or files. Calls on separate objects are therefore free of data races, and a result depends on nothing that another call did.",
     "all interleavings of any number of calls, all histories of earlier calls", "Tests call the functions one at a time in one order; a cache or a reused buffer with static duration gives right results then.",
     [S + "Algorithms.cpp", S + "AlgorithmUtilities.cpp", S + "Char32Set.cpp", S + "CharClass.cpp", S + "ConvertCase.cpp", S + "Escape.cpp", S + "Normalize.cpp", S + "Unescape.cpp", S + "Utf32.cpp"],
     [("get_char_class", S + "CharClass.cpp"), ("case mappings", S + "ConvertCase.cpp"), ("composition tables", S + "Normalize.cpp")],
     "interprocedural flow-insensitive effect (escape and mutation) analysis of every function in the LLVM IR from every use of storage with static duration; allow-list of external functions",
     over=("schedules", "histories"), note="Sound up to clang's IR, writes through pointers kept in other objects than locals, and the effects assumed of the allowed external functions (allocation, memory, strings, exceptions, the caller's stream).")

T_WALK = "The result depends on the whole text, on where malformed bytes are and on every position argument; tests use a few short texts."
ALLTEXT = "all contents (valid UTF-8 or not), lengths, offsets within the text and counts"


def fun(id, title, statement, files, mech, text=ALLTEXT, why=T_WALK):
    prop(id, title, statement, text, why, files, mech, MON)


fun("F01", "Case conversion of text maps every code point, in order",
    "Converting text to lower or upper case returns the concatenation of the encoded simple mappings of its code points, in order; in upper case, sharp s (U+00DF) becomes SS. Converting to title case uses the titlecase mapping (Ss for sharp s) for every letter that does not follow a letter, the lowercase mapping for letters that do, and leaves everything else as it is. Malformed UTF-8 makes them throw the library's exception.",
    [S + "ConvertCase.cpp"], [("to_lower, to_upper, to_title", S + "ConvertCase.cpp")])
fun("F02", "JSON escaping replaces exactly the characters it must",
    "Escaping text as JSON returns the text with every quotation mark, backslash and control character below U+0020 replaced by its escape sequence (two characters where there is such, otherwise \\u00XX with its value in uppercase hexadecimal digits), and every other byte unchanged and in order, whether or not it belongs to valid UTF-8.",
    [S + "Escape.cpp"], [("escape_json", S + "Escape.cpp")])
fun("F03", "UTF-32 conversion keeps every code point, in order",
    "Converting UTF-8 to UTF-32 yields exactly the code points of the text, in order, and throws the library's exception for malformed UTF-8. Converting UTF-32 to UTF-8 yields the concatenated encodings of its values, in order; values above U+10FFFF yield nothing.",
    [S + "Utf32.cpp"], [("to_utf32, from_utf32", S + "Utf32.cpp")])
fun("F04", "Replacing invalid UTF-8 keeps valid sequences and replaces the rest",
    "Replacing invalid UTF-8 returns all well-formed sequences of the text unchanged and in order, with each malformed stretch (the bytes skipped as one) replaced by the encoded replacement; a replacement above U+10FFFF is left out. Given a string, it replaces the string itself by that (which is the string unchanged when it is well-formed) and returns it.",
    [S + "Algorithms.cpp"], [("replace_invalid_utf8", S + "Algorithms.cpp")])
fun("F05", "Searching for code points finds the first (last) match and its range",
    "The searches for a code point that is in a list or set (exactly or regardless of case) or satisfies a predicate return the range and value of the first match from the offset, or of the last match before it, and report that there is none only when no code point of that part of the text matches. They throw only when they meet malformed UTF-8 on the way.",
    [S + "Algorithms.cpp", I + "Algorithms.hpp"], [("find_*_of, find_*_where", S + "Algorithms.cpp")])
fun("F06", "Newline searches find the first (last) newline, with CR LF as one",
    "Searching for a newline returns the range of the first one from the offset, or the last one before it: line feed, vertical tab, form feed, carriage return, next line, line separator and paragraph separator are newlines, and a carriage return followed by a line feed is a single one.",
    [S + "Algorithms.cpp"], [("find_first_newline, find_last_newline", S + "Algorithms.cpp")])
fun("F07", "Validation, containment and counts take all of the text into account",
    "A text is reported to be valid UTF-8 exactly when it is a concatenation of well-formed sequences; to contain a code point exactly when one of its code points is that one; its number of code points is that of its well-formed sequences and skipped malformed bytes, and its number of characters is that of its code points which do not follow in the same character (a mark belongs to what it follows).",
    [S + "Algorithms.cpp", S + "AlgorithmUtilities.cpp", I + "Algorithms.hpp"],
    [("is_valid_utf8", S + "Algorithms.cpp"), ("contains", S + "Algorithms.cpp"), ("count_*", S + "Algorithms.cpp")])
fun("F08", "Positions of characters and code points are exact from both ends",
    "The position and the range of character or code point number n are where n of them have been passed from the start, or from the end for negative numbers, and the one next to an offset is exactly the one that starts or ends there; a character is a code point with all the marks that follow it. What does not exist is reported as such.",
    [S + "Algorithms.cpp", S + "AlgorithmUtilities.cpp"], [("get_char_*, get_codepoint_*", S + "Algorithms.cpp")])
fun("F09", "Substrings by character or code point are cut at the right places",
    "The substring from number start to number stop, of characters or code points, starts and stops exactly where those numbers of units have been passed from the start (or, for negative numbers, from the end); numbers beyond the text count as its ends, and a start after the stop gives an empty substring.",
    [S + "Algorithms.cpp", S + "AlgorithmUtilities.cpp"], [("get_*_substring", S + "Algorithms.cpp")])
fun("F10", "Insertions and replacements by position leave all other text unchanged",
    "Inserting at, or replacing between, positions given as numbers of characters or code points (from either end) returns the text before, the inserted text, and the text after, each complete and unchanged; numbers beyond the text count as its ends.",
    [S + "Algorithms.cpp", S + "AlgorithmUtilities.cpp"], [("insert_*, replace_*", S + "Algorithms.cpp")])
fun("F11", "Reversing and joining keep all parts and put them in order",
    "Reversing returns all characters of the text (code points with their marks) in the opposite order, each unchanged. Joining returns all the given texts in order, with the delimiter between every two of them.",
    [S + "Algorithms.cpp", I + "Algorithms.hpp"], [("reverse", S + "Algorithms.cpp"), ("join", I + "Algorithms.hpp")])
fun("F12", "Trimming removes all matching code points at the ends and nothing else",
    "Trimming the start, the end or both removes all code points there that match the predicate or belong to the list (by default the common whitespace characters), up to the first one that does not, and leaves the rest as it is.",
    [S + "Algorithms.cpp", I + "Algorithms.hpp"], [("trim*", S + "Algorithms.cpp")])
fun("F13", "Case-insensitive comparison agrees with the uppercase mappings",
    "Comparing two texts regardless of case gives the order of the uppercase mappings of the first code points that differ in them, with a prefix before what it is a prefix of; equality and order agree with that; and a text starts (ends) with another exactly when all of the latter's code points are matched in that way.",
    [S + "Algorithms.cpp", S + "AlgorithmUtilities.hpp", S + "AlgorithmUtilities.cpp"], [("ci::compare, equal, less, starts_with, ends_with", S + "Algorithms.cpp")])
fun("F14", "Case-insensitive searches return the first (last) match and its range",
    "Searching for a text regardless of case returns the range of the first place from the offset, or the last place before it, where all its code points are matched, and reports that there is none only when no place of that part of the text matches.",
    [S + "Algorithms.cpp", S + "AlgorithmUtilities.hpp"], [("ci::find_first, ci::find_last", S + "Algorithms.cpp")])
fun("F15", "Exact searches return the first (last) occurrence",
    "Searching for a text returns the first place from the offset, or the last one that ends before it, where all its bytes occur, and reports that there is none only when there is none; a text starts (ends) with another exactly when it is at least as long and its first (last) bytes are the same.",
    [S + "Algorithms.cpp", S + "AlgorithmUtilities.hpp"], [("find_first, find_last, starts_with, ends_with", S + "Algorithms.cpp")])
fun("F16", "Splitting returns all parts between separators, in order",
    "Splitting a text returns, in order, the parts between the separators that a search from the end of the previous separator finds (a text, code points, line ends or what the caller's finder says, also without regard to case), and at last the text after the last separator. Once as many parts as wanted splits are returned, the whole rest is the last part. Empty parts are left out if that is asked for, do not count as splits then, and are returned otherwise. A maximum of no splits returns the whole text.",
    [S + "Algorithms.cpp", "include/Ystring/Algorithms.hpp", "include/Ystring/TokenIterator.hpp"],
    [("split, split_lines", S + "Algorithms.cpp"), ("split_where", "include/Ystring/Algorithms.hpp"), ("TokenIterator::next", "include/Ystring/TokenIterator.hpp")])
fun("F17", "TokenIterator gives every part, its token and the remainder",
    "For whatever the caller's finder returns, the iterator steps through all parts of the text exactly once, in order: each starts where the previous token ends and ends where the finder's token starts, the last one at the end of the text; token() is what the finder found, remainder() all text after it, both empty after the last part, and the iterator is true exactly when there is a token.",
    ["include/Ystring/TokenIterator.hpp"], [("TokenIterator", "include/Ystring/TokenIterator.hpp")])
fun("F18", "Replacing replaces exactly the wanted occurrences, in place",
    "Replacing a text (also without regard to case, or one code point with another) returns the text with its occurrences, each searched for from the end of the previous one, replaced and every byte between them unchanged: at most as many as the maximum says, the first ones; when the maximum is negative, the last ones, each searched for before the start of the previous one, at most as many as its absolute value. Fewer are replaced only when there are no more. Nothing is replaced when the text to replace is empty. Replacing code points throws the library's exception exactly when one of the values is above U+10FFFF.",
    [S + "Algorithms.cpp", S + "AlgorithmUtilities.cpp", S + "AlgorithmUtilities.hpp"],
    [("replace, replace_codepoint, case_insensitive::replace", S + "Algorithms.cpp"), ("find_last_n", S + "AlgorithmUtilities.cpp"), ("search_last", S + "AlgorithmUtilities.hpp")])

prop("T07", "Code point sets and case-insensitive relations are exact",
     "A set contains a code point exactly when one of its ranges does, or none when it is negated; regardless of case, the uppercase mapping is looked for between those of a range's ends. A span of code points contains exactly its elements, regardless of case those with the same uppercase mapping. Adding a range, a code point or several to a set makes it contain exactly these in addition (for sets whose ranges are in order). Two code points are equal, or one less than the other, regardless of case, exactly when their uppercase mappings are; comparing two code points gives the sign of that order.",
     "all sets and spans of any length, all 2^32 code point values", "Sets in the tests have a few ranges; the statement is about every number of ranges, in any order, and every value.",
     [S + "Char32Set.cpp", I + "CodepointSet.hpp", I + "CaseInsensitive.hpp"],
     [("CodepointSet, contains, case_insensitive_contains", S + "Char32Set.cpp"), ("case_insensitive_compare, equal, less", I + "CaseInsensitive.hpp")],
     MON)
fun("F20", "Escape sequences are found and read exactly",
    "The first character to escape is the first byte below 32, quotation mark or backslash from the offset on. An escape sequence starts at the first backslash and is \\x or \\X and two or more hex digits (all that follow), \\u and four, \\U and eight, a backslash and one to three octal digits, or a backslash and any other ASCII character; anything else throws the library's exception. Unescaping the next character skips escaped line ends, then gives the character or the value of the escape sequence (with \\a \\b \\f \\n \\r \\t \\v, one to eight hex digits after \\x, UTF-16 surrogate pairs combined, any other escaped character standing for itself), moves exactly past it and reports whether it was escaped; it throws the library's exception exactly for malformed sequences, and then the text is not moved past them.",
    [S + "Escape.cpp", S + "Unescape.cpp"],
    [("find_first_escapable_char", S + "Escape.cpp"), ("find_first_escaped_char, unescape_next", S + "Unescape.cpp")])
fun("F21", "Unescaping a text replaces exactly the escape sequences, in place",
    "Unescaping a text writes the characters that its escape sequences (as F20 finds them) stand for, encoded, and all bytes between them, in order, to the start of the buffer and returns how many bytes that makes: \\x, \\u, \\U and octal digits give the value of all their digits, a high surrogate followed by a low one in \\u form gives their combination, \\a \\b \\f \\n \\r \\t \\v the control characters and any other escaped ASCII character itself; values above U+10FFFF give nothing. Nothing is read after it has been overwritten. The library's exception is thrown only for a malformed sequence or a number that does not fit in 32 bits. A string is cut to its unescaped text.",
    [S + "Unescape.cpp"],
    [("unescape", S + "Unescape.cpp")])

fun("F22", "Appending a code point adds exactly its encoding",
    "Appending a code point to a text gives the text unchanged followed by the encoding of the code point; given a string, it is the string itself that grows and is returned. Values above U+10FFFF, and only they, make it throw the library's exception, and then a string that was given still has its text.",
    [S + "Algorithms.cpp"], [("append", S + "Algorithms.cpp")],
    "all texts and all 2^32 values of the code point", "Tests append a few code points to short strings.")
fun("F23", "Ranges and views keep what they are made of",
    "Two subranges are equal exactly when both their offsets and their lengths are, and different exactly when they are not equal; a subrange starts at its offset, ends its length after that and is true exactly when it is not empty. Converting a view between char and char8_t gives a view of the same bytes.",
    [I + "Subrange.hpp", I + "Algorithms.hpp"], [("Subrange", I + "Subrange.hpp"), ("to_string_view, to_u8string_view", I + "Algorithms.hpp")],
    "all offsets and lengths within a text", "Everything that searches returns subranges; a comparison that ignores one part is right for most pairs.")

fun("F19", "Composing a text folds it from the left",
    "A text is composed from the left: what has been composed so far and the next code point are replaced by the code point they compose to (T06 says which pairs do), or else what has been composed is written and the next code point takes its place. Everything else is written unchanged, nothing is lost or written twice, and a malformed sequence is reported by an exception.",
    [S + "Normalize.cpp", S + "NormalizationTables.hpp"],
    [("to_composed", S + "Normalize.cpp")])
prop("T08", "Decomposing a text decomposes each of its code points",
     "A text is decomposed by replacing each of its code points by its canonical decomposition in UnicodeData.txt 16.0.0 (as T05 has it), in order, whatever its neighbours are: nothing that remains from an earlier code point shows in the result.",
     "every code point, between neighbours of every length of decomposition and of encoding (texts of up to three code points)", "A decomposition is kept in a buffer that is used for the next one and grows; only particular sequences of lengths show when something is left in it.",
     [S + "Normalize.cpp", S + "NormalizationTables.hpp"],
     [("to_decomposed", S + "Normalize.cpp")], TABLE + "; the neighbours are given code points",
     note="Sound for texts of up to three code points, of which one is any code point and the others are among six, one for each number of code points in a decomposition (one to four) and each length of encoding. Longer texts are not decided: the length of the buffer has no bound that the analysis can find. Same trusted base as the other checks.",
     level="other")


def main():
    import importlib.util
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    checks = []
    na = []
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
                   "not_applicable": na,
                   "notes": "Every check compiles /repo's current source to LLVM IR (clang 18) and analyses it; nothing is executed. See DESIGN.md."},
                  f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
