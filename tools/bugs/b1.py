H='#include "Ystring/DecodeUtf8.hpp"\n#include "Ystring/EncodeUtf8.hpp"\n#include "Ystring/Ystring.hpp"\n#include <cstdio>\n#include <string>\nusing namespace ystring;\n'
BUGS=[
dict(id="c01-broken-third-byte", property="C01", needs="a four byte sequence whose last byte is not a continuation byte, decoded where the caller continues from the position",
 breaks="after a four-byte sequence broken at its last byte the position has moved one byte forward",
 edits=[("include/Ystring/DecodeUtf8.hpp","for (int j = 0; j <= i; ++j)","for (int j = 0; j <= (i & 1); ++j)")],
 demo=H+'''int main(){std::string s="\\xF0\\x9F\\x98""A"; const char* b=s.data(); auto it=b; auto c=decode_next(it,b+s.size()); return !(c==INVALID_CHAR && it==b);}'''),
dict(id="c02-four-byte-shift", property="C02", needs="decoding backwards a code point from U+40000 (lead byte with the third bit set)",
 breaks="backward decoding drops the top bit of four-byte code points, so U+100000 is decoded as U+0000",
 edits=[("include/Ystring/DecodeUtf8.hpp","return result | ((c & 0x07u) << 18u);","return result | ((c & 0x03u) << 18u);")],
 demo=H+'''int main(){std::string s="\\xF4\\x80\\x80\\x80"; const char* b=s.data(); auto it=b+4; return decode_prev(b,it)!=0x100000;}'''),
dict(id="c04-skip-prev-lead", property="C04", needs="a stray F5-F7 or F0-F7 lead byte followed by exactly three continuation bytes, skipped backwards",
 breaks="skipping backwards over a four-byte sequence stops in the middle of the sequence",
 edits=[("include/Ystring/DecodeUtf8.hpp","else if ((c & 0xF8u) == 0xF0)\n            m = 4;","else if ((c & 0xFCu) == 0xF0)\n            m = 4;\n        else if ((c & 0xF8u) == 0xF0)\n            m = 3;")],
 demo=H+'''int main(){std::string s="\\xF4\\x80\\x80\\x80"; const char* b=s.data(); auto it=b+4; skip_prev(b,it); return it!=b;}'''),
dict(id="t01-alternating-parity", property="T01", needs="a code point in a range that alternates between upper and lower case, whose range ends with an upper case letter",
 breaks="letters in the alternating ranges get the wrong case class when the range ends on an odd difference",
 edits=[("src/Ystring/CharClass.cpp","return 1 - (lower_char_class - 1);","return lower_char_class != 1;")],
 demo=H+'''#include "Ystring/CodepointPredicates.hpp"
int main(){int bad=0; for(char32_t c=0x100;c<0x250;++c) if(is_upper(c)&&to_lower(c)==c&&c!=0x149) ++bad; else if(is_lower(c)&&to_upper(c)!=c&&to_lower(c)!=c) ++bad; 
 for(char32_t c=0x100;c<0x24F;++c) if(to_lower(c)!=c && !is_upper(c) && get_char_class(c)!=CharClass::TITLECASE_LETTER) ++bad; return bad!=0;}'''),
dict(id="t02-ignorable-offset", property="T02", needs="a code point that the compact table lists as having a mapping further away than its segment's offset",
 breaks="code points in segments whose set has an offset but that are marked as unaffected are mapped",
 edits=[("src/Ystring/CharMappingTypes.hpp","if (mask & affected)","if (mask & (affected | (ignorable & 0x80000000u)))")],
 demo=H+'''#include "Ystring/ConvertCase.hpp"
#include "Ystring/CodepointPredicates.hpp"
int main(){int bad=0; for(char32_t c=128;c<0x110000;++c){ if(is_upper(c)&&to_upper(c)!=c)++bad; if(is_lower(c)&&to_lower(c)!=c)++bad; if(!is_cased_letter(c)&&to_lower(c)!=c&&!(get_char_class(c)&(CharClass::LETTER_NUMBER|CharClass::OTHER_SYMBOL)))++bad;} return bad!=0;}'''),
]
