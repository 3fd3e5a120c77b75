exec(open("/verif/tools/bugs/b5.py").read().split("\nBUGS=[")[0])
U="src/Ystring/Unescape.cpp"
BUGS=[
dict(id="f21-embedded-nul", property="F21", needs="a text with a zero byte before its end",
 breaks="only the part before the first zero byte is unescaped, and the string is cut there",
 edits=[(U,"str.resize(unescape(str.data(), str.size()));","str.resize(unescape(str.data(), std::string_view(str.c_str()).size()));")],
 demo=H+'''int main(){return unescape(std::string("a\\\\n\\0b\\\\t", 7)) != std::string("a\\n\\0b\\t", 5);}'''),
dict(id="f21-octal-byte", property="F21", needs="an octal escape sequence above \\377",
 breaks="octal values are cut to eight bits",
 edits=[(U,"""                    ch = parse_escaped_oct_char(sv.substr(sub.start(), sub.length));""","""                    ch = parse_escaped_oct_char(sv.substr(sub.start(), sub.length)) & 0xFFu;""")],
 demo=H+'''int main(){return unescape("\\\\501") != "\\xC5\\x81";}'''),
dict(id="f21-hex-eight", property="F21", needs="a \\x sequence with more than eight digits",
 breaks="only the first eight digits count, the rest is dropped silently",
 edits=[(U,"""                ch = parse_escaped_hex_char(sv.substr(sub.start(), sub.length));
                break;
            case 'u':""","""                ch = parse_escaped_hex_char(sv.substr(sub.start(),
                                                      std::min<size_t>(sub.length, 10)));
                break;
            case 'u':""")],
 demo=H+'''int main(){return unescape("\\\\x0000000041") != "A";}'''),
dict(id="f21-low-surrogate", property="F21", needs="two high surrogates in a row, the second followed by a low one",
 breaks="a pair of two high surrogates is combined",
 edits=[(U,"""            auto ch2 = parse_escaped_hex_char(str2);
            if (ch2 < 0xDC00 || 0xDFFF < ch2)""","""            auto ch2 = parse_escaped_hex_char(str2);
            if (ch2 < 0xD800 || 0xDFFF < ch2)""")],
 demo=H+'''int main(){return unescape("\\\\uD83D\\\\uD83D\\\\uDE00") != "\\xED\\xA0\\xBD\\xF0\\x9F\\x98\\x80";}'''),
dict(id="f21-no-shift", property="F21", needs="an escape sequence whose character is as long as it is: none shrinks before, so that the text after two of them is moved by a multiple of 256",
 breaks="the distance by which text is moved is kept in a byte; when it is a multiple of 256 the text isn't moved",
 edits=[(U,"""            if (from != to)
                std::copy(""","""            if (static_cast<unsigned char>(from - to) != 0)
                std::copy(""")],
 demo=H+'''int main(){std::string s, w; for (int i = 0; i < 256; ++i) {s += "\\\\n"; w += "\\n";} s += "xy"; w += "xy";
return unescape(s) != w;}'''),
dict(id="f21-above-max", property="F21", needs="a \\U sequence above 10FFFF",
 breaks="the code point that can't be encoded is replaced by the replacement character",
 edits=[(U,"""            to += encode_utf8(ch, str + to);
            from = sub.end();""","""            if (auto len = encode_utf8(ch, str + to))
                to += len;
            else
                to += encode_utf8(U'\\uFFFD', str + to);
            from = sub.end();""")],
 demo=H+'''int main(){return unescape("a\\\\U00110000b") != "ab";}'''),
dict(id="f21-pair-case", property="F21", needs="a high surrogate in \\u form followed by a \\U sequence of a value in the range of low surrogates",
 breaks="the second half of a pair is also accepted as \\U, of which half remains in the text",
 edits=[(U,"""            auto str2 = str.substr(sub.end(), 6);
            if (str2.size() != 6 || str2[0] != '\\\\' || str2[1] != 'u')
                return {ch, sub};

            auto sub2 = find_first_escaped_char(str2);
            if (!sub2 || sub2.offset != 0 || sub2.length != 6)
                return {ch, sub};
""","""            auto str2 = str.substr(sub.end());
            if (str2.size() < 6 || str2[0] != '\\\\')
                return {ch, sub};

            auto sub2 = find_first_escaped_char(str2);
            if (sub2.offset != 0 || sub2.length < 6)
                return {ch, sub};
            str2 = str2.substr(0, sub2.length);
"""),],
 demo=H+'''int main(){return unescape("\\\\uD83D\\\\U0000DE00") != "\\xED\\xA0\\xBD\\xED\\xB8\\x80";}'''),
]
