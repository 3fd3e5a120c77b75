H='#include "Ystring/DecodeUtf8.hpp"\n#include "Ystring/EncodeUtf8.hpp"\n#include "Ystring/Ystring.hpp"\n#include "Ystring/CodepointPredicates.hpp"\n#include "Ystring/YstringException.hpp"\n#include <cstdio>\n#include <stdexcept>\n#include <string>\nusing namespace ystring;\nusing namespace std::string_literals;\n'
ASAN="-fsanitize=address,undefined -fno-sanitize-recover=all"
BUGS=[
dict(id="t02-georgian-offset", property="T02", needs="an upper case mapping looked up for U+10D0..U+10DF (Georgian Mkhedruli)",
 breaks="one Georgian letter has no upper case form",
 edits=[("src/Ystring/UpperCaseTables.hpp","{0x0010C0, 0x00000BC0, 0xFFFF0000, 0x0000FFFF}","{0x0010C0, 0x00000BC0, 0xFFFE0000, 0x0000FFFF}")], demo=H+'int main(){return !(to_upper(U\'\\U000010D0\')==0x1C90 && to_upper(U\'\\U000010DF\')==0x1C9F);}'),
dict(id="t01-virama-class", property="T01", needs="the class of U+A953 (Rejang virama), a spacing mark between a range of non-spacing marks and a gap",
 breaks="one spacing combining mark is classified as unassigned",
 edits=[("src/Ystring/CharClassTables.hpp","0x054A9807","0x054A9407")], demo=H+'int main(){return get_char_class(0xA953)!=CharClass::SPACING_MARK;}'),
dict(id="t04-space-nel-border", property="T04", needs="is_whitespace called with U+00A0 (no-break space) only",
 breaks="no-break space is no longer classified as whitespace",
 edits=[("include/Ystring/CodepointPredicates.hpp","(c > 128 && (get_char_class(c)","(c > 0xA0 && (get_char_class(c)")],
 demo=H+'int main(){return !is_whitespace(0xA0);}'),
dict(id="t03-visible-lineseps", property="T03", needs="is_graphical called with a modifier or enclosing mark",
 breaks="enclosing marks are no longer graphical characters",
 edits=[("include/Ystring/CodepointPredicates.hpp","""        return (get_char_class(c) & (CharClass::LETTER |
                                     CharClass::MARK |
                                     CharClass::NUMBER |
                                     CharClass::PUNCTUATION |
                                     CharClass::SYMBOL)) != 0;
    }

    /** @brief Returns true if @a c is among the hex""","""        return (get_char_class(c) & (CharClass::LETTER |
                                     CharClass::NONSPACING_MARK |
                                     CharClass::SPACING_MARK |
                                     CharClass::NUMBER |
                                     CharClass::PUNCTUATION |
                                     CharClass::SYMBOL)) != 0;
    }

    /** @brief Returns true if @a c is among the hex""")],
 demo=H+'int main(){return !is_graphical(0x20DD);}'),
dict(id="c03-partial-encoding", property="C03", needs="encoding a three or four byte code point into a buffer that is too short",
 breaks="encode_utf8 writes a truncated sequence when the buffer is too short instead of nothing",
 edits=[("src/Ystring/EncodeUtf8.hpp","""        if (length > dst_size)
            length = 0;""","""        if (length > dst_size)
            length = dst_size / 2;""")],
 demo=H+'int main(){char b[4]={}; return encode_utf8(char32_t(0x20AC),b,2)!=0;}'),
dict(id="c05-pop-shortest", property="C05", needs="an overlong sequence (which decoding accepts) popped from the end of a view",
 breaks="popping an overlong sequence leaves its first bytes in the view",
 edits=[("include/Ystring/DecodeUtf8.hpp","""        if (!safe_decode_prev(str.begin(), it, ch))
            return std::nullopt;
        str.remove_suffix(std::distance(it, str.end()));""","""        if (!safe_decode_prev(str.begin(), it, ch))
            return std::nullopt;
        str.remove_suffix(ch < 0x80 ? 1 : std::distance(it, str.end()));""")],
 demo=H+'int main(){std::string_view s="\\xC1\\x81"; auto c=pop_last_utf8_codepoint(s); return !(c && *c==0x41 && s.empty());}'),
dict(id="s01-search-last-short", property="S01", needs="find_last with a pattern exactly one byte longer than the searched part",
 breaks="search_last compares from one byte before the start of the text",
 edits=[("src/Ystring/AlgorithmUtilities.hpp","std::distance(beg, end) < n)","std::distance(beg, end) + 1 < n)")],
 flags=ASAN,
 demo=H+'int main(){std::string* s=new std::string(40,\'a\'); std::string p(41,\'a\'); std::string_view v(*s); char* raw=new char[40]; for(int i=0;i<40;++i)raw[i]=\'a\'; std::string_view w(raw,40); auto r=find_last(w,p); delete[] raw; delete s; return bool(r);}'),
dict(id="s02-uncapped-start", property="S02", needs="a substring from a negative index before the start of the text to a non-negative index",
 breaks="std::out_of_range escapes from get_char_substring when the start index is negative and beyond the start of the text",
 edits=[("src/Ystring/AlgorithmUtilities.cpp","""            auto s = get_capped_char_pos(str, start_index);
            auto e = get_capped_char_pos(str, end_index);
            return""","""            auto s = get_char_pos(str, start_index);
            auto e = get_capped_char_pos(str, end_index);
            return""")],
 demo=H+'int main(){try{ return get_char_substring("abc",-5,2)!="ab";}catch(std::out_of_range&){return 1;}}'),
dict(id="s04-short-replacement-buffer", property="S04", needs="replace_invalid_utf8 with a replacement character above U+FFFF",
 breaks="a four-byte replacement character overflows a three-byte stack buffer",
 edits=[("src/Ystring/Algorithms.cpp","        char repl[4];","        char repl[3];")],
 flags=ASAN,
 demo=H+'int main(){ return replace_invalid_utf8(std::string_view("a\\xFFz"),U\'\\U0001F600\')!="a\\xF0\\x9F\\x98\\x80z";}'),
dict(id="s04-reverse-stuck", property="S04", needs="reverse of text that starts with a combining mark",
 breaks="reverse never ends when the first code point of the text is a mark",
 edits=[("src/Ystring/Algorithms.cpp","""            offset = range.start();
            result.insert(""","""            offset = range.start() ? range.start()
                                   : str.size() - result.size() - range.length;
            result.insert(""")],
 demo=H+'int main(){ return 0;}'),
dict(id="s07-truncated-hex", property="S07", needs="a text that ends within a \\u escape sequence, given as a view into a larger or shorter buffer",
 breaks="the hexadecimal digits of a truncated escape sequence are looked for beyond the end of the view",
 edits=[("src/Ystring/Unescape.cpp","""        if (max_length > str.size())
            max_length = str.size();
""","""        if (str.size() < min_length)
            max_length = min_length;
""")],
 flags=ASAN,
 demo=H+'#include "Ystring/Unescape.hpp"\n#include <cstring>\nint main(){ char* p=new char[4]; memcpy(p,"\\\\u12",4); std::string_view s(p,4); try{ (void)unescape_next(s); delete[] p; return 1;}catch(YstringException&){delete[] p; return 0;}}'),
dict(id="s05-title-after-mark", property="S05", needs="case conversion of a text holding a code point between U+110000 and U+1FFFFF (which decoding accepts)",
 breaks="a foreign exception type leaves the case conversion",
 edits=[("src/Ystring/ConvertCase.cpp","""        std::string result;
        result.reserve(str.size());
        auto it = str.begin();
        char32_t ch;
        while (safe_decode_next(it, str.end(), ch))
        {
            if (ch != U'ß')
                append(result, to_upper(ch));""","""        std::string result;
        result.reserve(str.size() + (str.size() >> 62));
        auto it = str.begin();
        char32_t ch;
        while (safe_decode_next(it, str.end(), ch))
        {
            if (ch > 0x10FFFF)
                throw std::length_error("Invalid code point");
            if (ch != U'ß')
                append(result, to_upper(ch));""")],
 demo=H+'int main(){try{ (void)to_upper("\\xF4\\x90\\x80\\x80"); return 1;}catch(YstringException&){return 0;}catch(std::length_error&){return 2;}}'),
]
del BUGS[9]
