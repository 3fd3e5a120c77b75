exec(open("/verif/tools/bugs/b5.py").read().split("\nBUGS=[")[0])
A="src/Ystring/Algorithms.cpp"
R="include/Ystring/Subrange.hpp"
D="include/Ystring/CodepointConstants.hpp"
S="src/Ystring/EncodeUtf8.hpp"
BUGS=[
dict(id="f22-aliased", property="F22", needs="a code point that can't be encoded, passed together with a text",
 breaks="the text that is returned is taken although nothing could be appended",
 edits=[(A,"""        std::string result(str);
        append(result, chr);
        return result;
    }

    bool contains(""","""        std::string result(str);
        encode_utf8(chr, std::back_inserter(result));
        return result;
    }

    bool contains(""")],
 demo=H+'''int main(){try {append(std::string_view("ab"), char32_t(0x110000));} catch (YstringException&) {return 0;} return 1;}'''),
dict(id="f22-embedded-nul", property="F22", needs="a text with a zero byte",
 breaks="what follows the first zero byte isn't copied",
 edits=[(A,"""        std::string result(str);
        append(result, chr);""","""        std::string result(str.substr(0, str.find('\\0')));
        append(result, chr);""")],
 demo=H+'''int main(){return append(std::string_view("a\\0b", 3), U'c') != std::string("a\\0bc", 4);}'''),
dict(id="f22-no-throw-noncharacter", property="F22", needs="the code point U+10FFFF or U+10FFFE",
 breaks="the last two code points, which are no characters, are refused",
 edits=[(A,"""        if (encode_utf8(chr, std::back_inserter(str)))
            return str;""","""        if (chr < 0x10FFFE && encode_utf8(chr, std::back_inserter(str)))
            return str;""")],
 demo=H+'''int main(){try {return append(std::string_view("a"), char32_t(0x10FFFF)) != "a\\xF4\\x8F\\xBF\\xBF";} catch (YstringException&) {return 1;}}'''),
dict(id="f23-empty-equal", property="F23", needs="two empty ranges at different places",
 breaks="all empty ranges are equal",
 edits=[(R,"""        return a.offset == b.offset && a.length == b.length;""","""        return (a.offset == b.offset || !a) && a.length == b.length;""")],
 demo=H+'''int main(){return Subrange(1, 0) == Subrange(2, 0);}'''),
dict(id="f23-same-end", property="F23", needs="two ranges that end at the same place",
 breaks="ranges are compared by where they end",
 edits=[(R,"""        return a.offset == b.offset && a.length == b.length;""","""        return a.end() == b.end() && a.length == b.length
            && a.offset <= b.offset + b.length;"""),
        (R,"""            return offset + length;""","""            return length ? offset + length : 0;""")],
 demo=H+'''int main(){return Subrange(1, 0) == Subrange(2, 0) || Subrange(3, 0).end() != 3;}'''),
dict(id="f04-in-place-last", property="F04", needs="a text whose only malformed byte is its last one, repaired in place",
 breaks="the last byte isn't looked at, so the text is left as it is",
 edits=[(A,"""        if (!is_valid_utf8(str))
            str = replace_invalid_utf8(std::string_view(str), chr);""","""        if (!str.empty() && !is_valid_utf8(std::string_view(str.data(), str.size() - 1)))
            str = replace_invalid_utf8(std::string_view(str), chr);""")],
 demo=H+'''int main(){std::string s("ab\\xFF"); replace_invalid_utf8(s, U'?'); return s != "ab?";}'''),
dict(id="f04-in-place-size", property="F04", needs="a text repaired in place with a replacement as long as the malformed sequences",
 breaks="a repaired text of the same size is taken for the same text",
 edits=[(A,"""        if (!is_valid_utf8(str))
            str = replace_invalid_utf8(std::string_view(str), chr);""","""        if (auto tmp = replace_invalid_utf8(std::string_view(str), chr);
            tmp.size() != str.size())
            str.swap(tmp);""")],
 demo=H+'''int main(){std::string s("a\\xFF""b"); replace_invalid_utf8(s, U'?'); return s != "a?b";}'''),
dict(id="s04-stale-end", property="S04", needs="a text of more than fifteen bytes",
 breaks="an iterator is kept while the string gets more room",
 edits=[(A,"""        std::string result;
        size_t offset = str.size();
        while (offset != 0)""","""        std::string result;
        auto out = result.end();
        size_t offset = str.size();
        while (offset != 0)"""),(A,"""            result.insert(result.end(),
                          str.begin() + range.start(),
                          str.begin() + range.end());""","""            if (result.capacity() - result.size() < range.length)
                result.reserve(str.size());
            out = result.insert(out,
                                str.begin() + range.start(),
                                str.begin() + range.end())
                  + std::ptrdiff_t(range.length);""")],
 demo=H+'''int main(){std::string s; for (int i = 0; i < 3000; ++i) s += char('a' + i % 26);
return reverse(s) != std::string(s.rbegin(), s.rend());}'''),
]
BUGS=[b for b in BUGS if b["edits"]]
