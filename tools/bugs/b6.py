exec(open("/verif/tools/bugs/b5.py").read().split("\nBUGS=[")[0])
N="src/Ystring/Normalize.cpp"
BUGS=[
dict(id="t08-stale-buffer", property="T08", needs="a text in which a character that decomposes into three or more is followed by one that decomposes into two",
 breaks="the buffer is written up to its first empty element, so what is left of the longer decomposition follows the shorter one",
 edits=[(N,"""                std::for_each(buffer.data(), buffer.data() + size,
                              [&](char32_t m) { encode_utf8(m, out); });""","""                for (auto m : buffer)
                {
                    if (!m)
                        break;
                    encode_utf8(m, out);
                }""")],
 demo=H+'''int main(){return to_decomposed("\\xC7\\x95\\xC3\\x84") != "U\\xCC\\x88\\xCC\\x84""A\\xCC\\x88";}'''),
dict(id="t08-adjacent", property="T08", needs="two adjacent characters that decompose",
 breaks="the text between decomposed characters starts one character late, so a range that ends before it begins is appended, or the second character is dropped",
 edits=[(N,"""                result.append(from, to);
                auto out = std::back_inserter(result);
                std::for_each(buffer.data(), buffer.data() + size,
                              [&](char32_t m) { encode_utf8(m, out); });
                from = to = it;""","""                if (from == to && !result.empty())
                {
                    from = to = it;
                    continue;
                }
                result.append(from, to);
                auto out = std::back_inserter(result);
                std::for_each(buffer.data(), buffer.data() + size,
                              [&](char32_t m) { encode_utf8(m, out); });
                from = to = it;""")],
 demo=H+'''int main(){return to_decomposed("\\xC3\\x84\\xC3\\x84") != "A\\xCC\\x88""A\\xCC\\x88";}'''),
dict(id="t08-four", property="T08", needs="a character that decomposes into four",
 breaks="marks that do not fit into the buffer are dropped",
 edits=[(N,"""            while (!ok)
            {
                buffer.resize(size);
                std::tie(ok, size) = decompose_char(ch, buffer.data(), buffer.size());
            }
""","""            if (!ok)
                size = buffer.size();
""")],
 demo=H+'''int main(){return to_decomposed("\\xE1\\xBE\\x82") != "\\xCE\\xB1\\xCC\\x93\\xCC\\x80\\xCD\\x85";}'''),
dict(id="t08-after-growth", property="T08", needs="a text with a character that decomposes into four, and one that decomposes into three after it",
 breaks="a mapping with fewer elements than the buffer has is written in the wrong order once the buffer has grown",
 edits=[(N,"            std::reverse(str, str + i);","            std::reverse(str, str + std::max(i, str_size));")],
 demo=H+'''int main(){return to_decomposed("\\xE1\\xBE\\x82\\xC7\\x95") != "\\xCE\\xB1\\xCC\\x93\\xCC\\x80\\xCD\\x85U\\xCC\\x88\\xCC\\x84";}'''),
dict(id="f19-one-mark", property="F19", needs="a composed character at the end of the text that takes three or more code points",
 breaks="where the unchanged text ends is not moved with the second mark, so the end of the text is appended wrongly",
 edits=[(N,"""                    ch = denorm;
                    from = prev = to = it;
                }
                auto out""","""                    ch = denorm;
                    from = to = it;
                }
                auto out""")],
 demo=H+'''int main(){try{return to_composed("U\\xCC\\x88\\xCC\\x84") != "\\xC7\\x95";}catch(...){return 1;}}'''),
dict(id="f19-after-composed", property="F19", needs="two compositions in a row",
 breaks="the character after a composed one is never the start of another composition",
 edits=[(N,"""                    if (denorm == 0)
                    {
                        prev = it;
                        break;
                    }
""","""                    if (denorm == 0)
                    {
                        to = prev = it;
                        if (!safe_decode_next(it, str.end(), mark))
                            break;
                        prev = it;
                        break;
                    }
""")],
 demo=H+'''int main(){return to_composed("A\\xCC\\x88""A\\xCC\\x88") != "\\xC3\\x84\\xC3\\x84";}'''),
dict(id="f19-blocked", property="F19", needs="a character that does not compose between two that do",
 breaks="a mark that does not compose is passed over, and the next one is composed with the character before it",
 edits=[(N,"""                to = prev;
                prev = it;
            }
            else""","""                to = prev;
                prev = it;
                if (mark == 0x323 && it != str.end())
                    continue;
            }
            else""")],
 demo=H+'''int main(){return to_composed("q\\xCC\\xA3\\xCC\\x88""A\\xCC\\x88") != "q\\xCC\\xA3\\xCC\\x88\\xC3\\x84" || to_composed("a\\xCC\\xA3\\xCC\\x83q") == "x" || to_composed("W\\xCC\\xA3\\xCC\\x81") != "\\xE1\\xBA\\x88\\xCC\\x81" || to_composed("q\\xCC\\xA3z\\xCC\\x81") != "q\\xCC\\xA3\\xC5\\xBA" || to_composed("C\\xCC\\xA3\\xCC\\x81") != "C\\xCC\\xA3\\xCC\\x81";}'''),
]
