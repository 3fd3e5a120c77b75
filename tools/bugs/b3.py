H='#include "Ystring/DecodeUtf8.hpp"\n#include "Ystring/EncodeUtf8.hpp"\n#include "Ystring/Ystring.hpp"\n#include "Ystring/CodepointPredicates.hpp"\n#include "Ystring/TokenIterator.hpp"\n#include "Ystring/YstringException.hpp"\n#include <cstdio>\n#include <stdexcept>\n#include <string>\n#include <vector>\nusing namespace ystring;\nusing namespace std::string_literals;\nusing V=std::vector<std::string_view>;\n'
ASAN="-fsanitize=address,undefined -fno-sanitize-recover=all"
A="src/Ystring/Algorithms.cpp"; U="src/Ystring/AlgorithmUtilities.cpp"; UH="src/Ystring/AlgorithmUtilities.hpp"
AH="include/Ystring/Algorithms.hpp"; D="include/Ystring/DecodeUtf8.hpp"; P="include/Ystring/CodepointPredicates.hpp"
CV="src/Ystring/ConvertCase.cpp"; E="src/Ystring/Escape.cpp"; N="src/Ystring/Normalize.cpp"; UN="src/Ystring/Unescape.cpp"
UT="src/Ystring/Utf32.cpp"; TI="include/Ystring/TokenIterator.hpp"
def thr(x): return "[&]{try{ (void)(%s); return false; }catch(YstringException&){return true;}}()" % x
BUGS=[
dict(id="f01-title-apostrophe", property="F01", needs="title case of a text with an apostrophe inside a word",
 breaks="an apostrophe no longer ends a run of letters in title case",
 edits=[(CV,"""                append(result, ch);
                preceded_by_letter = false;""","""                append(result, ch);
                preceded_by_letter = preceded_by_letter && ch == '\\'';""")],
 demo=H+'int main(){return to_title("it\'s")!="It\'S";}'),
dict(id="f02-escape-del", property="F02", needs="escape_json of a text holding U+007F",
 breaks="DEL, which JSON does not escape, is written as \\u007F",
 edits=[(E,"static_cast<uint8_t>(c) < 32 ||","static_cast<uint8_t>(c) < 32 || c == 127 ||")],
 demo=H+'#include "Ystring/Escape.hpp"\nint main(){return escape_json("a\\x7F")!="a\\x7F";}'),
dict(id="f03-bom-lost", property="F03", needs="to_utf32 of a text that starts with U+FEFF",
 breaks="a leading byte order mark is dropped in the conversion to UTF-32",
 edits=[(UT,"            result.push_back(ch);","""            if (ch != 0xFEFF || !result.empty())
                result.push_back(ch);""")],
 demo=H+'#include "Ystring/Utf32.hpp"\nint main(){return to_utf32("\\xEF\\xBB\\xBFx").size()!=2;}'),
dict(id="f04-merge-invalid", property="F04", needs="replace_invalid_utf8 of a text with two adjacent invalid sequences after the first",
 breaks="adjacent invalid sequences are replaced by a single character",
 edits=[(A,"""            result.append(prev, it);
            result.append(repl, repl_size);
            skip_next""","""            result.append(prev, it);
            if (prev != it || result.size() != repl_size * 2)
                result.append(repl, repl_size);
            skip_next""")],
 demo=H+'int main(){return replace_invalid_utf8(std::string_view("\\xFF\\xFF\\xFF\\xFF"),\'?\')!="????";}'),
dict(id="f05-match-length", property="F05", needs="the last code point with a property is an overlong sequence",
 breaks="the range found for an overlong sequence covers the shortest encoding only",
 edits=[(AH,"                return {{begin, it, end}, ch};","""                return {Subrange(size_t(it - begin),
                                 ch < 0x80 ? size_t(1) : size_t(end - it)), ch};""")],
 demo=H+'int main(){return find_last_of("a\\xC1\\x81",U"A").first.length!=2;}'),
dict(id="f06-cr-nel", property="F06", needs="a carriage return followed by NEL (U+0085), searched from the end",
 breaks="CR NEL is taken for a single line separator",
 edits=[(A,"""        if (c != '\\n')
            return s;""","""        if (c != '\\n' && c != NEXT_LINE)
            return s;""")],
 demo=H+'int main(){return find_last_newline("a\\r\\xC2\\x85").length!=2;}'),
dict(id="f07-contains-ascii", property="F07", needs="contains with an ASCII character on malformed text",
 breaks="malformed text before an ASCII character goes unnoticed",
 edits=[(A,"""        auto it = str.begin(), end = str.end();
        char32_t ch;
        while (safe_decode_next(it, end, ch))
        {
            if (ch == chr)""","""        if (chr < 0x80)
            return str.find(char(chr)) != std::string_view::npos;
        auto it = str.begin(), end = str.end();
        char32_t ch;
        while (safe_decode_next(it, end, ch))
        {
            if (ch == chr)""")],
 demo=H+'int main(){return !'+thr('contains("\\xFFz",U\'z\')')+';}'),
dict(id="f08-spacing-mark", property="F08", needs="a letter followed by a spacing combining mark (as in Devanagari), walked forward",
 breaks="a spacing mark becomes a character of its own when walking forward",
 edits=[(A,"""        while (safe_decode_next(it, str.end(), codepoint)
               && is_mark(codepoint))""","""        while (safe_decode_next(it, str.end(), codepoint)
               && is_mark(codepoint)
               && (get_char_class(codepoint) & CharClass::SPACING_MARK) == 0)""")],
 demo=H+'int main(){return get_next_char_range("\\xE0\\xA4\\x95\\xE0\\xA4\\xBE",0).length!=6;}'),
dict(id="f09-mixed-underflow", property="F09", needs="a substring of code points from a negative start to a non-negative end that comes before it",
 breaks="the substring is the rest of the text instead of empty",
 edits=[(U,"""            auto s = get_capped_codepoint_pos(str, start_index);
            auto e = get_capped_codepoint_pos(str, end_index);
            return {s, e > s ? e - s : 0};""","""            auto s = get_capped_codepoint_pos(str, start_index);
            auto e = get_capped_codepoint_pos(str, end_index);
            return {s, e - s};""")],
 demo=H+'int main(){return get_codepoint_substring("abcdef",-2,2)!="";}'),
dict(id="f10-empty-range", property="F10", needs="replace_chars or replace_codepoints of an empty range",
 breaks="replacing an empty range no longer inserts",
 edits=[(U,"""        std::string result;
        result.append(str.substr(0, range.start()));""","""        std::string result;
        if (range.start() == str.size() && !repl.empty() && !range)
            return std::string(str);
        result.append(str.substr(0, range.start()));""")],
 demo=H+'int main(){return replace_chars("abc",3,3,"d")!="abcd";}'),
dict(id="f11-join-empty-first", property="F11", needs="join of parts of which the first is empty",
 breaks="the delimiter after leading empty parts is left out",
 edits=[(AH,"            result.append(delimiter);","""            if (!result.empty())
                result.append(delimiter);""")],
 demo=H+'int main(){std::vector<std::string> v{"","a"}; return join(v.begin(),v.end(),",")!=",a";}'),
dict(id="f12-trim-stops-at-mark", property="F12", needs="trim_end of a text that is nothing but trimmed characters except its first code point",
 breaks="trim_end removes the first code point when it is the only one to keep",
 edits=[(AH,"""        if (!sub)
            return {};
        return str.substr(0, sub.end());""","""        if (!sub || (sub.offset == 0 && sub.length > 2))
            return {};
        return str.substr(0, sub.end());""")],
 demo=H+'int main(){return trim_end("\\xE2\\x82\\xAC ")!="\\xE2\\x82\\xAC";}'),
dict(id="f13-ends-with-mirror", property="F13", needs="ci::ends_with where the text is a proper suffix of what is compared with",
 breaks="a text ends with anything it is itself a suffix of",
 edits=[(A,"            return it_cmp == cmp.begin();","            return it_cmp == cmp.begin() || (it_str == str.begin() && cmp.size() == str.size() + 1);")],
 demo=H+'int main(){return case_insensitive::ends_with("bc","abc");}'),
dict(id="f14-skip-partial", property="F14", needs="a pattern whose first code points repeat, searched in a text with one repetition more",
 breaks="case-insensitive find_first skips occurrences that overlap a partial match",
 edits=[(A,"""                    if (b == cmp.end())
                        return {str.begin(), it_str, a};
                }""","""                    if (b == cmp.end())
                        return {str.begin(), it_str, a};
                    it_str_next = a;
                }""")],
 demo=H+'int main(){return case_insensitive::find_first("aaab","aab").offset!=1;}'),
dict(id="f15-last-from-offset", property="F15", needs="find_last with an offset inside an occurrence",
 breaks="find_last returns an occurrence that ends beyond the offset",
 edits=[(A,"        auto its = search_last(str.begin(), str.begin() + offset,","        auto its = search_last(str.begin(), str.begin() + std::min(offset + cmp.size() / 2, str.size()),")],
 demo=H+'int main(){return bool(find_last("xxabxx","ab",3));}'),
dict(id="f16-ci-short-text", property="F16", needs="ci::split where the separator is longer in bytes than what it matches at the end of the text",
 breaks="a separator that takes fewer bytes than the one given isn't found near the end",
 edits=[(A,"                [&](auto s) {return case_insensitive::find_first(s, sep);},","                [&](auto s) {return s.size() < sep.size() ? Subrange() : case_insensitive::find_first(s, sep);},")],
 demo=H+'int main(){return case_insensitive::split("i",std::string_view("\\xC4\\xB1"))!=V{"",""};}'),
dict(id="f17-remainder-before-next", property="F17", needs="remainder called before the first call of next",
 breaks="the remainder is empty before the first part has been read",
 edits=[(TI,"            if (m_token || m_token.start() == 0)","            if (m_token)")],
 demo=H+'int main(){auto f=[](std::string_view s){return find_first(s,",");}; TokenIterator<decltype(f)> it("a,b",f); return it.remainder()!="a,b";}'),
dict(id="f18-overlap-back", property="F18", needs="replace from the end of a pattern that overlaps itself",
 breaks="overlapping occurrences are both replaced when replacing from the end",
 edits=[(U,"            it = match.first;","            it = cmp.size() > 2 ? match.second - 1 : match.first;")],
 demo=H+'int main(){return replace("ababa","aba","x",-2)!="abx";}'),
dict(id="f18-ci-forward-length", property="F18", needs="ci::replace where an occurrence has another length in bytes than the pattern",
 breaks="text after a match of another length than the pattern is lost or kept",
 edits=[(A,"                    str = str.substr(match.end());","                    str = str.substr(std::min(match.start() + from.size(), str.size()));")],
 demo=H+'int main(){return case_insensitive::replace("\\xC4\\xB1z","i","x")!="xz";}'),
dict(id="t05-table-entry", property="T05", needs="decomposition of U+0B94 (Tamil letter AU)",
 breaks="the decomposition of one letter is not found",
 edits=[(N,"            if (ch < 0xC0)\n                return {ch, 0};","            if (ch < 0xC0 || (0xB92 <= ch && ch < 0xBC0))\n                return {ch, 0};")],
 demo=H+'#include "Ystring/Normalize.hpp"\nint main(){return decompose(0xB94).size()!=2;}'),
dict(id="t06-compose-greedy", property="T06", needs="composition of a pair that Unicode excludes from composition",
 breaks="a base that is itself a mark no longer composes with the mark after it",
 edits=[(N,"            auto key = (uint64_t(ch) << 20u) | uint64_t(mark);","            if (0x300 <= ch && ch < 0x370)\n                return 0;\n            auto key = (uint64_t(ch) << 20u) | uint64_t(mark);")],
 demo=H+'#include "Ystring/Normalize.hpp"\nint main(){return to_composed("\\xCC\\x88\\xCC\\x81")!="\\xCD\\x84";}'),
dict(id="s08-remainder-after-end", property="S08", needs="remainder of an iterator that has passed the last part",
 breaks="std::out_of_range leaves TokenIterator::remainder at the end",
 edits=[(TI,"""            if (m_token || m_token.start() == 0)
                return m_str.substr(m_token.end());
            return {};""","""            return m_str.substr(m_token.end());""")],
 demo=H+'int main(){auto f=[](std::string_view s){return find_first(s,",");}; TokenIterator<decltype(f)> it("a",f); it.next(); try{return !it.remainder().empty();}catch(std::out_of_range&){return 2;}}'),
dict(id="c02-prev-overrun", property="C02", needs="decoding backward over three continuation bytes preceded by a three-byte lead",
 breaks="decode_prev accepts a lead byte with one continuation byte too many",
 edits=[(D,"        else if ((c & 0xF8u) == 0xF0 && n == 3)\n            return result |","        else if ((c & 0xF0u) == 0xF0 && n == 3)\n            return result |")],
 demo=H+'int main(){std::string_view s="\\xF8\\x80\\x80\\x80"; auto it=s.end(); return decode_prev(s.begin(),it)!=INVALID_CHAR;}'),
dict(id="s03-trim-throw", property="S03", needs="trim of a text that consists of trimmed characters only",
 breaks="std::out_of_range leaves trim_start when everything is trimmed",
 edits=[(AH,"""        if (!sub)
            return {};
        return str.substr(sub.start());""","""        if (!sub && str.size() < 2)
            return {};
        return str.substr(sub.start());""")],
 demo=H+'int main(){try{return !trim_start("  ").empty();}catch(std::out_of_range&){return 2;}}'),
dict(id="t05-last-of-four", property="T05", needs="decomposition of a code point into four code points",
 breaks="the last code point of a long decomposition is lost",
 edits=[(N,"                if (i + 1 == str_size)","                if (i == str_size)")],
 demo=H+'#include "Ystring/Normalize.hpp"\nint main(){return decompose(0x1F82)!=U"\\u03B1\\u0313\\u0300\\u0345";}'),
]
