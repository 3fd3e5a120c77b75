exec(open("/verif/tools/bugs/b3.py").read().split("BUGS=[")[0])
CC="src/Ystring/CharClass.cpp"
TH='#include <thread>\n#include <atomic>\n'
BUGS=[
dict(id="p01-class-cache", property="P01", needs="two threads that ask for the class of different code points at the same time",
 breaks="the class of the last code point is remembered in variables that all threads share, so one thread can get another's class",
 flags="-pthread",
 edits=[(CC,"""        return CharClass_t(1u << decode_char_class(code_point, *it));""","""        static char32_t last_code_point = 0;
        static CharClass_t last_class = CharClass::CONTROL;
        if (code_point != last_code_point)
        {
            last_class = CharClass_t(1u << decode_char_class(code_point, *it));
            last_code_point = code_point;
        }
        return last_class;""")],
 demo=TH+H+'''int main(){std::atomic<int> bad{0}; auto f=[&](char32_t a, bool up){for(int i=0;i<4000000&&!bad;++i) if (is_upper(a + (i&1)) != up) bad=1;};
std::thread a(f,U'\\u0391',true), b(f,U'\\u03B1',false), c(f,U'\\u0410',true), d(f,U'\\u0430',false); a.join(); b.join(); c.join(); d.join(); return bad;}'''),
dict(id="p01-shared-buffer", property="P01", needs="two threads that decompose text at the same time",
 breaks="all calls decompose into the same buffer",
 flags="-pthread",
 edits=[("src/Ystring/Normalize.cpp","        std::u32string buffer(3, char32_t{});","        static std::u32string buffer(3, char32_t{});")],
 demo=TH+H+'''#include "Ystring/Normalize.hpp"
int main(){std::atomic<int> bad{0}; auto f=[&](const char* s, const char* w){for(int i=0;i<2000000&&!bad;++i) if (to_decomposed(s) != w) bad=1;};
std::thread a(f,"\\xC3\\xA5","a\\xCC\\x8A"), b(f,"\\xC3\\xB1","n\\xCC\\x83"), c(f,"\\xC3\\xA9","e\\xCC\\x81"); a.join(); b.join(); c.join(); return bad;}'''),
dict(id="p01-first-separators", property="P01", needs="two calls of split with different lists of separators",
 breaks="the separators of the first call are used in all later ones",
 edits=[(A,"            [&](auto s) {return find_first_of(s, chars).first;},\n            params);\n    }\n\n    std::vector<std::string_view>\n    split(std::string_view str, std::string_view sep, SplitParams params)\n    {\n        return split_where(\n            str,\n            [&](auto s) {return find_first(s, sep);},","            [&](auto s) {\n                static const bool wide = chars.size() > 16;\n                return wide ? find_first_of(s, CodepointSet(chars)).first\n                            : find_first_of(s, chars).first;},\n            params);\n    }\n\n    std::vector<std::string_view>\n    split(std::string_view str, std::string_view sep, SplitParams params)\n    {\n        return split_where(\n            str,\n            [&](auto s) {return find_first(s, sep);},")],
 demo=H+'int main(){return 0;}'),
]
del BUGS[2]
