exec(open("/verif/tools/bugs/b3.py").read().split("BUGS=[")[0])
S32="src/Ystring/Char32Set.cpp"; CIH="include/Ystring/CaseInsensitive.hpp"
H+='#include "Ystring/Unescape.hpp"\n#include "Ystring/Escape.hpp"\n#include "Ystring/Normalize.hpp"\n#include "Ystring/Utf32.hpp"\n'
BUGS=[
dict(id="t07-set-early-out", property="T07", needs="a set whose ranges are not sorted",
 breaks="the search through the ranges of a set stops at the first range above the code point, as if ranges were sorted",
 edits=[(S32,"""        return std::any_of(ranges.begin(), ranges.end(),
                           [&](auto& r) {return r.first <= cp && cp <= r.second;})
               != negated;""","""        bool found = false;
        for (auto& r : ranges)
        {
            if (cp < r.first)
                break;
            if (cp <= r.second)
                found = true;
        }
        return found != negated;""")],
 demo=H+'''int main(){CodepointSet s; s.add_range('s','z'); s.add_range('a','c'); return !s.contains('b') || !s.contains('t');}'''),
dict(id="t07-ci-range-single", property="T07", needs="case-insensitive membership in a set with a range whose first code point is lower case and last upper case",
 breaks="the uppercase mapping is compared with the ends of a range themselves",
 edits=[(S32,"return !case_insensitive_less(cp, r.first)\n                                      && !case_insensitive_less(r.second, cp);","return !case_insensitive_less(cp, r.first)\n                                      && cp <= std::max(r.second, to_upper(r.second));")],
 demo=H+'''int main(){CodepointSet s; s.add_range('A','Z'); return !s.case_insensitive_contains('q');}'''),
dict(id="t07-add-previous", property="T07", needs="add_codepoint with the code point just before the last one added",
 breaks="a code point next to the first of the last range takes the place of its end",
 edits=[(S32,"""        if (!ranges.empty() && ranges.back().second + 1 == cp)
            ranges.back().second = cp;""","""        if (!ranges.empty() && (ranges.back().second + 1 == cp || cp + 1 == ranges.back().second))
            ranges.back().second = cp;""")],
 demo=H+'''int main(){CodepointSet s; s.add_codepoint('f'); s.add_codepoint('e'); return !s.contains('f') || !s.contains('e');}'''),
dict(id="t07-less-signed", property="T07", needs="a comparison of code points with a value above 0x7FFFFFFF, such as INVALID_CHAR",
 breaks="values above 0x7FFFFFFF are less than all code points",
 edits=[(CIH,"return to_upper(lhs) < to_upper(rhs);","return case_insensitive_compare(lhs, rhs) < 0;")],
 demo=H+'#include "Ystring/CaseInsensitive.hpp"\n#include "Ystring/CodepointConstants.hpp"\nint main(){return case_insensitive_less(INVALID_CHAR, U\'a\');}'),
dict(id="f20-surrogate-last", property="F20", needs="unescape_next of a high surrogate followed by \\uDFFF",
 breaks="the last low surrogate isn't combined with the high one before it",
 edits=[(UN,"        if (ch2 < 0xDC00 || 0xDFFF < ch2)\n            return ch;","        if (ch2 < 0xDC00 || 0xDFFF <= ch2)\n            return ch;")],
 demo=H+'''int main(){std::string_view s="\\\\uDBFF\\\\uDFFFx"; auto c=unescape_next(s); return c!=U'\\U0010FFFF' || s!="x";}'''),
dict(id="f20-hex-short", property="F20", needs="unescape_next of \\x with one digit at the end of the text",
 breaks="the backslash-x sequence needs two characters after it, so one digit at the end of the text is refused",
 edits=[(UN,"        if (length < min_length)\n        {\n            YSTRING_THROW(\"Too few","        if (length < min_length || (length == 1 && str.size() == 1))\n        {\n            YSTRING_THROW(\"Too few")],
 demo=H+'''int main(){std::string_view s="\\\\x7"; try { auto c=unescape_next(s); return c!=7 || !s.empty();} catch (YstringException&) {return 1;}}'''),
dict(id="f20-escaped-offset", property="F20", needs="find_first_escaped_char with a \\u sequence that doesn't start the text",
 breaks="the digits of \\u sequences are counted from the wrong place when the sequence isn't within the first 64 KiB",
 edits=[(UN,"            end = find_end_of_hex_sequence(str, start + 2, start + 6);","            end = find_end_of_hex_sequence(str, start + 2, uint16_t(start) == size_t(start) ? start + 6 : start + 7);")],
 demo=H+'''int main(){std::string s(70000,'a'); s+="\\\\u12345"; return find_first_escaped_char(s).length!=6;}'''),
dict(id="f20-did-flag", property="F20", needs="unescape_next of an escaped character that needs no escaping",
 breaks="an escaped ordinary character is reported as not escaped when it takes more than one byte",
 edits=[(UN,"                    return extract_oct_char(str);\n                return pop_utf8_codepoint(str);","                    return extract_oct_char(str);\n                if (did_unescape && type < 0)\n                    *did_unescape = false;\n                return pop_utf8_codepoint(str);")],
 demo=H+'''int main(){std::string_view s="\\\\\\xC3\\xA5"; bool d=false; auto c=unescape_next(s,&d); return c!=0xE5 || !d;}'''),
dict(id="f20-restore", property="F20", needs="a high surrogate escape followed by a malformed \\u escape, and a look at the text after the exception",
 breaks="the text has been moved past the backslash when an exception is thrown for a malformed second escape",
 edits=[(UN,"        catch (YstringException&)\n        {\n            str = backup;","        catch (YstringException&)\n        {\n            if (type != 'u' || backup.size() < 8)\n                str = backup;")],
 demo=H+'''int main(){std::string_view s="\\\\u12zzzzzz"; auto t=s; try {(void)unescape_next(s);} catch (YstringException&) {} return s.data()!=t.data();}'''),
dict(id="f20-escapable-offset", property="F20", needs="a text holding U+001F",
 breaks="U+001F is no longer found to need escaping",
 edits=[(E,"return static_cast<uint8_t>(c) < 32 || c == '\"' || c == '\\\\';","return static_cast<uint8_t>(c) < 31 || c == '\"' || c == '\\\\';")],
 demo=H+'''int main(){return !has_escapable_chars("a\\x1F");}'''),
]
