// Entry points for the analysis.  Nothing here is ever executed: each function
// only names a public function (or a template instantiation of one) and hands
// its results to a sink that the analyser recognises.
#include <optional>
#include <string>
#include <string_view>
#include <vector>
#include <sstream>

#include "Ystring/Ystring.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/CaseInsensitive.hpp"
#include "Ystring/CharClass.hpp"
#include "Ystring/CodepointPredicates.hpp"
#include "Ystring/CodepointSet.hpp"
#include "Ystring/ConvertCase.hpp"
#include "Ystring/DecodeUtf8.hpp"
#include "Ystring/Escape.hpp"
#include "Ystring/Normalize.hpp"
#include "Ystring/Subrange.hpp"
#include "Ystring/TokenIterator.hpp"
#include "Ystring/Unescape.hpp"
#include "Ystring/Utf32.hpp"
#include "Ystring/EncodeUtf8.hpp"

using namespace ystring;
using sv = std::string_view;
using u32v = std::u32string_view;

extern "C" {
void sa_size(size_t);
void sa_int(int32_t);
void sa_bool(bool);
void sa_char(char32_t);
void sa_range(size_t, size_t);
void sa_view(const char*, size_t);
void sa_iter(const char*);
void sa_str(const std::string*);
void sa_u32str(const std::u32string*);
void sa_parts(const std::vector<std::string_view>*);
void sa_none();
bool sa_pred(char32_t);
void sa_find(const char*, size_t, size_t*, size_t*);
void sa_mark(int);
}

static void ret(Subrange r) {sa_range(r.offset, r.length);}
static void ret(sv v) {sa_view(v.data(), v.size());}
static void ret(const std::string& s) {sa_str(&s);}
static void ret(const std::u32string& s) {sa_u32str(&s);}
static void ret(const std::vector<std::string_view>& v) {sa_parts(&v);}
static void ret(std::pair<Subrange, char32_t> p)
{
    sa_range(p.first.offset, p.first.length);
    sa_char(p.second);
}
static void ret(std::optional<char32_t> c)
{
    if (c)
        sa_char(*c);
    else
        sa_none();
}

struct Finder
{
    Subrange operator()(std::string_view s) const
    {
        size_t off, len;
        sa_find(s.data(), s.size(), &off, &len);
        return {off, len};
    }
};

extern "C" {

// ---- UTF-8 primitives
void e_decode_next(const char* s, const char* end)
{
    auto it = s;
    auto c = decode_next(it, end);
    sa_iter(it);
    sa_char(c);
}

void e_decode_prev(const char* s, const char* end)
{
    auto it = end;
    auto c = decode_prev(s, it);
    sa_iter(it);
    sa_char(c);
}

void e_skip_next(const char* s, const char* end)
{
    auto it = s;
    auto ok = skip_next(it, end);
    sa_iter(it);
    sa_bool(ok);
}

void e_skip_prev(const char* s, const char* end)
{
    auto it = end;
    auto ok = skip_prev(s, it);
    sa_iter(it);
    sa_bool(ok);
}

void e_safe_decode_next(const char* s, const char* end)
{
    auto it = s;
    char32_t ch = 0;
    try
    {
        auto ok = safe_decode_next(it, end, ch);
        sa_iter(it);
        if (ok)
            sa_char(ch);
        else
            sa_none();
    }
    catch (...)
    {
        sa_iter(it);
        throw;
    }
}

void e_safe_decode_prev(const char* s, const char* end)
{
    auto it = end;
    char32_t ch = 0;
    try
    {
        auto ok = safe_decode_prev(s, it, ch);
        sa_iter(it);
        if (ok)
            sa_char(ch);
        else
            sa_none();
    }
    catch (...)
    {
        sa_iter(it);
        throw;
    }
}

void e_encode_buf(char32_t c, char* dst, size_t dst_size)
{
    sa_size(encode_utf8(c, dst, dst_size));
}

void e_encode_ptr(char32_t c, char* dst, size_t dst_size)
{
    sa_size(encode_utf8(c, dst));
}

void e_encode_out(char32_t c)
{
    std::string s;
    auto n = encode_utf8(c, std::back_inserter(s));
    sa_str(&s);
    sa_size(n);
}

void e_append_empty(char32_t c)
{
    std::string s;
    append(s, c);
    sa_str(&s);
}

void e_encoded_length(char32_t c)
{
    sa_size(get_utf8_encoded_length(c));
}

void e_remove_cp(const char* s, size_t n)
{
    sv v(s, n);
    auto ok = remove_utf8_codepoint(v);
    ret(v);
    sa_bool(ok);
}

void e_remove_last_cp(const char* s, size_t n)
{
    sv v(s, n);
    auto ok = remove_last_utf8_codepoint(v);
    ret(v);
    sa_bool(ok);
}

void e_pop_cp(const char* s, size_t n)
{
    sv v(s, n);
    try
    {
        auto c = pop_utf8_codepoint(v);
        ret(v);
        ret(c);
    }
    catch (...)
    {
        ret(v);
        throw;
    }
}

void e_pop_last_cp(const char* s, size_t n)
{
    sv v(s, n);
    try
    {
        auto c = pop_last_utf8_codepoint(v);
        ret(v);
        ret(c);
    }
    catch (...)
    {
        ret(v);
        throw;
    }
}

// ---- code point functions
void e_get_char_class(char32_t c) {sa_size(get_char_class(c));}
// the public constants in the order of ucd.CATS, then the unions
void e_class_constants()
{
    sa_size(CharClass::UPPERCASE_LETTER);
    sa_size(CharClass::LOWERCASE_LETTER);
    sa_size(CharClass::TITLECASE_LETTER);
    sa_size(CharClass::MODIFIER_LETTER);
    sa_size(CharClass::OTHER_LETTER);
    sa_size(CharClass::NONSPACING_MARK);
    sa_size(CharClass::SPACING_MARK);
    sa_size(CharClass::ENCLOSING_MARK);
    sa_size(CharClass::DECIMAL_NUMBER);
    sa_size(CharClass::LETTER_NUMBER);
    sa_size(CharClass::OTHER_NUMBER);
    sa_size(CharClass::CONNECTOR_PUNCTUATION);
    sa_size(CharClass::DASH_PUNCTUATION);
    sa_size(CharClass::OPEN_PUNCTUATION);
    sa_size(CharClass::CLOSE_PUNCTUATION);
    sa_size(CharClass::INITIAL_PUNCTUATION);
    sa_size(CharClass::FINAL_PUNCTUATION);
    sa_size(CharClass::OTHER_PUNCTUATION);
    sa_size(CharClass::MATH_SYMBOL);
    sa_size(CharClass::CURRENCY_SYMBOL);
    sa_size(CharClass::MODIFIER_SYMBOL);
    sa_size(CharClass::OTHER_SYMBOL);
    sa_size(CharClass::SPACE_SEPARATOR);
    sa_size(CharClass::LINE_SEPARATOR);
    sa_size(CharClass::PARAGRAPH_SEPARATOR);
    sa_size(CharClass::CONTROL);
    sa_size(CharClass::FORMAT);
    sa_size(CharClass::SURROGATE);
    sa_size(CharClass::PRIVATE_USE);
    sa_size(CharClass::UNASSIGNED);
}
void e_to_lower(char32_t c) {sa_char(to_lower(c));}
void e_to_upper(char32_t c) {sa_char(to_upper(c));}
void e_to_title(char32_t c) {sa_char(to_title(c));}
void e_is_alpha_numeric(char32_t c) {sa_bool(is_alpha_numeric(c));}
void e_is_cased_letter(char32_t c) {sa_bool(is_cased_letter(c));}
void e_is_control(char32_t c) {sa_bool(is_control(c));}
void e_is_format(char32_t c) {sa_bool(is_format(c));}
void e_is_graphical(char32_t c) {sa_bool(is_graphical(c));}
void e_is_hex_digit(char32_t c) {sa_bool(is_hex_digit(c));}
void e_is_letter(char32_t c) {sa_bool(is_letter(c));}
void e_is_lower(char32_t c) {sa_bool(is_lower(c));}
void e_is_mark(char32_t c) {sa_bool(is_mark(c));}
void e_is_newline(char32_t c) {sa_bool(is_newline(c));}
void e_is_number(char32_t c) {sa_bool(is_number(c));}
void e_is_punctuation(char32_t c) {sa_bool(is_punctuation(c));}
void e_is_separator(char32_t c) {sa_bool(is_separator(c));}
void e_is_surrogate(char32_t c) {sa_bool(is_surrogate(c));}
void e_is_symbol(char32_t c) {sa_bool(is_symbol(c));}
void e_is_upper(char32_t c) {sa_bool(is_upper(c));}
void e_is_visible(char32_t c) {sa_bool(is_visible(c));}
void e_is_whitespace(char32_t c) {sa_bool(is_whitespace(c));}

void e_ci_cp_compare(char32_t a, char32_t b) {sa_int(case_insensitive_compare(a, b));}
void e_ci_cp_equal(char32_t a, char32_t b) {sa_bool(case_insensitive_equal(a, b));}
void e_ci_cp_less(char32_t a, char32_t b) {sa_bool(case_insensitive_less(a, b));}
void e_cic_compare(char32_t a, char32_t b) {sa_int(CaseInsensitiveCompare()(a, b));}
void e_cic_equal(char32_t a, char32_t b) {sa_bool(CaseInsensitiveEqual()(a, b));}
void e_cic_less(char32_t a, char32_t b) {sa_bool(CaseInsensitiveLess()(a, b));}

// ---- code point sets
void e_set_contains(const CodepointSet* set, char32_t c) {sa_bool(set->contains(c));}
void e_set_ci_contains(const CodepointSet* set, char32_t c) {sa_bool(set->case_insensitive_contains(c));}
void e_set_add_range(CodepointSet* set, char32_t a, char32_t b) {set->add_range(a, b);}
void e_set_add_codepoint(CodepointSet* set, char32_t a) {set->add_codepoint(a);}
void e_set_add_codepoints(CodepointSet* set, const char32_t* u, size_t un)
{
    set->add_codepoints(u32v(u, un));
}
void e_span_contains(const char32_t* u, size_t un, char32_t c) {sa_bool(contains(u32v(u, un), c));}
void e_span_ci_contains(const char32_t* u, size_t un, char32_t c)
{
    sa_bool(case_insensitive_contains(u32v(u, un), c));
}

// ---- conversion of strings
void e_str_to_lower(const char* s, size_t n) {ret(to_lower(sv(s, n)));}
void e_str_to_upper(const char* s, size_t n) {ret(to_upper(sv(s, n)));}
void e_str_to_title(const char* s, size_t n) {ret(to_title(sv(s, n)));}
void e_from_utf32_char(char32_t c) {ret(from_utf32(c));}
void e_from_utf32(const char32_t* u, size_t un) {ret(from_utf32(u32v(u, un)));}
void e_to_utf32(const char* s, size_t n) {ret(to_utf32(sv(s, n)));}
void e_to_composed(const char* s, size_t n) {ret(to_composed(sv(s, n)));}
void e_to_decomposed(const char* s, size_t n) {ret(to_decomposed(sv(s, n)));}
void e_decompose(char32_t c) {ret(decompose(c));}

// ---- escaping
void e_find_first_escapable(const char* s, size_t n, size_t off) {ret(find_first_escapable_char(sv(s, n), off));}
void e_has_escapable(const char* s, size_t n) {sa_bool(has_escapable_chars(sv(s, n)));}
void e_escape_json(const char* s, size_t n) {ret(escape_json(sv(s, n)));}
void e_find_first_escaped(const char* s, size_t n, size_t off) {ret(find_first_escaped_char(sv(s, n), off));}
void e_has_escaped(const char* s, size_t n) {sa_bool(has_escaped_chars(sv(s, n)));}
void e_unescape_buf(char* s, size_t n) {sa_size(unescape(s, n));}
void e_unescape(std::string* s) {ret(unescape(std::move(*s)));}
void e_unescape_next(const char* s, size_t n, bool* did)
{
    sv v(s, n);
    try
    {
        auto c = unescape_next(v, did);
        ret(v);
        ret(c);
    }
    catch (...)
    {
        sa_mark(1);
        ret(v);
        throw;
    }
}

// ---- algorithms
void e_append_ref(std::string* s, char32_t c)
{
    auto& r = append(*s, c);
    sa_str(&r);
}
void e_append(const char* s, size_t n, char32_t c) {ret(append(sv(s, n), c));}
void e_contains(const char* s, size_t n, char32_t c) {sa_bool(contains(sv(s, n), c));}
void e_count_chars(const char* s, size_t n) {sa_size(count_chars(sv(s, n)));}
void e_count_codepoints(const char* s, size_t n) {sa_size(count_codepoints(sv(s, n)));}
void e_ends_with(const char* s, size_t n, const char* t, size_t tn) {sa_bool(ends_with(sv(s, n), sv(t, tn)));}
void e_starts_with(const char* s, size_t n, const char* t, size_t tn) {sa_bool(starts_with(sv(s, n), sv(t, tn)));}
void e_find_first(const char* s, size_t n, const char* t, size_t tn, size_t off)
{
    ret(find_first(sv(s, n), sv(t, tn), off));
}
void e_find_last(const char* s, size_t n, const char* t, size_t tn, size_t off)
{
    ret(find_last(sv(s, n), sv(t, tn), off));
}
void e_find_first_newline(const char* s, size_t n, size_t off) {ret(find_first_newline(sv(s, n), off));}
void e_find_last_newline(const char* s, size_t n, size_t off) {ret(find_last_newline(sv(s, n), off));}
void e_find_first_of(const char* s, size_t n, const char32_t* u, size_t un, size_t off)
{
    ret(find_first_of(sv(s, n), u32v(u, un), off));
}
void e_find_last_of(const char* s, size_t n, const char32_t* u, size_t un, size_t off)
{
    ret(find_last_of(sv(s, n), u32v(u, un), off));
}
void e_find_first_of_set(const char* s, size_t n, CodepointSet* set, size_t off)
{
    ret(find_first_of(sv(s, n), std::move(*set), off));
}
void e_find_last_of_set(const char* s, size_t n, CodepointSet* set, size_t off)
{
    ret(find_last_of(sv(s, n), std::move(*set), off));
}
void e_find_first_where(const char* s, size_t n, size_t off) {ret(find_first_where(sv(s, n), sa_pred, off));}
void e_find_last_where(const char* s, size_t n, size_t off) {ret(find_last_where(sv(s, n), sa_pred, off));}
void e_get_char_pos(const char* s, size_t n, ptrdiff_t pos) {sa_size(get_char_pos(sv(s, n), pos));}
void e_get_char_range(const char* s, size_t n, ptrdiff_t pos) {ret(get_char_range(sv(s, n), pos));}
void e_get_char_substring(const char* s, size_t n, ptrdiff_t start, ptrdiff_t stop)
{
    ret(get_char_substring(sv(s, n), start, stop));
}
void e_get_codepoint(const char* s, size_t n, ptrdiff_t pos) {ret(get_codepoint(sv(s, n), pos));}
void e_get_codepoint_pos(const char* s, size_t n, ptrdiff_t pos) {sa_size(get_codepoint_pos(sv(s, n), pos));}
void e_get_codepoint_substring(const char* s, size_t n, ptrdiff_t start, ptrdiff_t stop)
{
    ret(get_codepoint_substring(sv(s, n), start, stop));
}
void e_get_next_char_range(const char* s, size_t n, size_t off) {ret(get_next_char_range(sv(s, n), off));}
void e_get_prev_char_range(const char* s, size_t n, size_t off) {ret(get_prev_char_range(sv(s, n), off));}
void e_insert_chars(const char* s, size_t n, ptrdiff_t pos, const char* t, size_t tn)
{
    ret(insert_chars(sv(s, n), pos, sv(t, tn)));
}
void e_insert_char(const char* s, size_t n, ptrdiff_t pos, char32_t c) {ret(insert_char(sv(s, n), pos, c));}
void e_insert_codepoint(const char* s, size_t n, ptrdiff_t pos, char32_t c)
{
    ret(insert_codepoint(sv(s, n), pos, c));
}
void e_insert_codepoints(const char* s, size_t n, ptrdiff_t pos, const char* t, size_t tn)
{
    ret(insert_codepoints(sv(s, n), pos, sv(t, tn)));
}
void e_is_valid_utf8(const char* s, size_t n) {sa_bool(is_valid_utf8(sv(s, n)));}
void e_join(const std::string_view* v, size_t vn, const char* t, size_t tn)
{
    ret(join(v, v + vn, sv(t, tn)));
}
void e_replace(const char* s, size_t n, const char* f, size_t fn, const char* t, size_t tn, ptrdiff_t max)
{
    ret(replace(sv(s, n), sv(f, fn), sv(t, tn), max));
}
void e_replace_chars(const char* s, size_t n, ptrdiff_t start, ptrdiff_t stop, const char* t, size_t tn)
{
    ret(replace_chars(sv(s, n), start, stop, sv(t, tn)));
}
void e_replace_codepoints(const char* s, size_t n, ptrdiff_t start, ptrdiff_t stop, const char* t, size_t tn)
{
    ret(replace_codepoints(sv(s, n), start, stop, sv(t, tn)));
}
void e_replace_codepoint(const char* s, size_t n, char32_t from, char32_t to, ptrdiff_t max)
{
    ret(replace_codepoint(sv(s, n), from, to, max));
}
void e_replace_invalid(const char* s, size_t n, char32_t c) {ret(replace_invalid_utf8(sv(s, n), c));}
void e_replace_invalid_ref(std::string* s, char32_t c)
{
    auto& r = replace_invalid_utf8(*s, c);
    sa_str(&r);
}
void e_reverse(const char* s, size_t n) {ret(reverse(sv(s, n)));}
void e_split(const char* s, size_t n, const char* t, size_t tn, size_t max, bool ignore)
{
    ret(split(sv(s, n), sv(t, tn), SplitParams{max, ignore}));
}
void e_split_of(const char* s, size_t n, const char32_t* u, size_t un, size_t max, bool ignore)
{
    ret(split(sv(s, n), u32v(u, un), SplitParams{max, ignore}));
}
void e_split_lines(const char* s, size_t n, size_t max, bool ignore)
{
    ret(split_lines(sv(s, n), SplitParams{max, ignore}));
}
void e_split_where(const char* s, size_t n, size_t max, bool ignore)
{
    ret(split_where(sv(s, n), Finder(), SplitParams{max, ignore}));
}
void e_token_iterator(const char* s, size_t n)
{
    TokenIterator<Finder> it(sv(s, n), Finder());
    sa_mark(6);
    ret(it.part());
    sa_mark(7);
    ret(it.token());
    sa_mark(8);
    ret(it.remainder());
    sa_mark(9);
    sa_bool(bool(it));
    while (it.next())
    {
        sa_mark(1);
        ret(it.part());
        sa_mark(2);
        ret(it.token());
        sa_mark(3);
        ret(it.remainder());
        sa_mark(4);
        sa_bool(bool(it));
    }
    sa_mark(5);
}
void e_trim(const char* s, size_t n, const char32_t* u, size_t un) {ret(trim(sv(s, n), u32v(u, un)));}
void e_trim_end(const char* s, size_t n, const char32_t* u, size_t un) {ret(trim_end(sv(s, n), u32v(u, un)));}
void e_trim_start(const char* s, size_t n, const char32_t* u, size_t un) {ret(trim_start(sv(s, n), u32v(u, un)));}
void e_trim_default(const char* s, size_t n) {ret(trim(sv(s, n)));}
void e_trim_end_default(const char* s, size_t n) {ret(trim_end(sv(s, n)));}
void e_trim_start_default(const char* s, size_t n) {ret(trim_start(sv(s, n)));}
void e_trim_end_where(const char* s, size_t n) {ret(trim_end_where(sv(s, n), sa_pred));}
void e_trim_start_where(const char* s, size_t n) {ret(trim_start_where(sv(s, n), sa_pred));}
void e_trim_where(const char* s, size_t n) {ret(trim_where(sv(s, n), sa_pred));}
void e_ascii_whitespace(char32_t c) {sa_bool(contains(u32v(ASCII_WHITESPACE), c));}
void e_common_whitespace(char32_t c) {sa_bool(contains(u32v(COMMON_WHITESPACE), c));}
void e_to_string_view(const char* s, size_t n)
{
    ret(to_string_view(to_u8string_view(sv(s, n))));
}

// ---- case-insensitive algorithms
namespace ci = ystring::case_insensitive;
void e_ci_compare(const char* s, size_t n, const char* t, size_t tn) {sa_int(ci::compare(sv(s, n), sv(t, tn)));}
void e_ci_equal(const char* s, size_t n, const char* t, size_t tn) {sa_bool(ci::equal(sv(s, n), sv(t, tn)));}
void e_ci_less(const char* s, size_t n, const char* t, size_t tn) {sa_bool(ci::less(sv(s, n), sv(t, tn)));}
void e_ci_starts_with(const char* s, size_t n, const char* t, size_t tn)
{
    sa_bool(ci::starts_with(sv(s, n), sv(t, tn)));
}
void e_ci_ends_with(const char* s, size_t n, const char* t, size_t tn)
{
    sa_bool(ci::ends_with(sv(s, n), sv(t, tn)));
}
void e_ci_find_first(const char* s, size_t n, const char* t, size_t tn, size_t off)
{
    ret(ci::find_first(sv(s, n), sv(t, tn), off));
}
void e_ci_find_last(const char* s, size_t n, const char* t, size_t tn, size_t off)
{
    ret(ci::find_last(sv(s, n), sv(t, tn), off));
}
void e_ci_find_first_of(const char* s, size_t n, const char32_t* u, size_t un, size_t off)
{
    ret(ci::find_first_of(sv(s, n), u32v(u, un), off));
}
void e_ci_find_last_of(const char* s, size_t n, const char32_t* u, size_t un, size_t off)
{
    ret(ci::find_last_of(sv(s, n), u32v(u, un), off));
}
void e_ci_find_first_of_set(const char* s, size_t n, CodepointSet* set, size_t off)
{
    ret(ci::find_first_of(sv(s, n), std::move(*set), off));
}
void e_ci_find_last_of_set(const char* s, size_t n, CodepointSet* set, size_t off)
{
    ret(ci::find_last_of(sv(s, n), std::move(*set), off));
}
void e_ci_replace(const char* s, size_t n, const char* f, size_t fn, const char* t, size_t tn, ptrdiff_t max)
{
    ret(ci::replace(sv(s, n), sv(f, fn), sv(t, tn), max));
}
void e_ci_split(const char* s, size_t n, const char* t, size_t tn, size_t max, bool ignore)
{
    ret(ci::split(sv(s, n), sv(t, tn), SplitParams{max, ignore}));
}
void e_ci_split_of(const char* s, size_t n, const char32_t* u, size_t un, size_t max, bool ignore)
{
    ret(ci::split(sv(s, n), u32v(u, un), SplitParams{max, ignore}));
}

// ---- Subrange
void e_subrange_eq(size_t a, size_t b, size_t c, size_t d) {sa_bool(Subrange(a, b) == Subrange(c, d));}
void e_subrange_ne(size_t a, size_t b, size_t c, size_t d) {sa_bool(Subrange(a, b) != Subrange(c, d));}
void e_subrange_get(size_t a, size_t b)
{
    Subrange s(a, b);
    sa_size(s.start());
    sa_size(s.end());
    sa_bool(bool(s));
}
}
