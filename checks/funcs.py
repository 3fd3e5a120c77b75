"""Functional checks: the entry points of each and the monitor that decides it."""
import escapes
import exact
import nocase
import pieces
import repl
import safety
import sets
import steps
import texts
import unesc
import walks


TABLES = {"T": texts.MON, "W": walks.MON, "P": steps.MON, "N": nocase.MON, "X": exact.MON, "S": pieces.MON, "R": repl.MON,
          "M": sets.MON, "E": escapes.MON, "U": unesc.MON}


def fn(*pairs):
    """A check: (entry, monitor) pairs."""
    def f(m, rep, tier):
        dl = 600 if tier == "thorough" else 300
        safety.entries(m, [a for a, _ in pairs])
        safety.par(m, rep, [(decide, (a, b), {"deadline": dl}) for a, b in pairs])
    return f


def decide(name, mon, deadline):
    return safety.analyse(name, monitor=TABLES[mon[0]][mon[1]], deadline=deadline, kinds={"fn"})


def of(table, text):
    """Pairs from "entry:monitor ..."; the entry is e_<monitor> when left out."""
    out = []
    for x in text.split():
        a, _, b = x.rpartition(":")
        assert b in TABLES[table]
        out.append(("e_" + (a or b), (table, b)))
    return out



F = {
    "F01": fn(*of("T", "str_to_lower:lower str_to_upper:upper str_to_title:title")),
    "F02": fn(*of("T", "escape_json:escape")),
    "F03": fn(*of("T", "to_utf32:same32 from_utf32:fromutf32 from_utf32_char:utf32char")),
    "F04": fn(*of("T", "replace_invalid:invalid replace_invalid_ref:invalid_ref")),
    "F22": fn(*of("T", "append append_ref")),
    "F23": fn(*of("T", "subrange_eq:sub_eq subrange_ne:sub_ne subrange_get:sub_get to_string_view:same_view")),
    "F05": fn(*of("W", """find_first_where:first_where find_last_where:last_where find_first_of:first_of
        find_last_of:last_of ci_find_first_of:ci_first_of ci_find_last_of:ci_last_of
        find_first_of_set:first_set find_last_of_set:last_set
        ci_find_first_of_set:ci_first_set ci_find_last_of_set:ci_last_set""")),
    "F06": fn(*of("W", "find_first_newline:first_newline find_last_newline:last_newline")),
    "F07": fn(*of("W", "contains is_valid_utf8:valid count_codepoints:count"),
              *of("P", "count_codepoints:count_cp count_chars:count_ch")),
    "F08": fn(*of("P", """get_char_pos:pos_ch get_char_range:at_ch get_next_char_range:next_ch
        get_prev_char_range:prev_ch get_codepoint_pos:pos_cp get_codepoint:at_cp""")),
    "F09": fn(*of("P", "get_char_substring:sub_ch get_codepoint_substring:sub_cp")),
    "F10": fn(*of("P", """replace_chars:rep_ch replace_codepoints:rep_cp insert_chars:ins_ch insert_char:ins_ch
        insert_codepoints:ins_cp insert_codepoint:ins_cp""")),
    "F11": fn(*of("P", "reverse"), *of("T", "join")),
    "F12": fn(*of("W", """trim trim_start trim_end trim_where trim_start_where trim_end_where
        trim_default trim_start_default trim_end_default""")),
    "F13": fn(*of("N", """ci_compare:compare ci_equal:equal ci_less:less ci_starts_with:starts
        ci_ends_with:ends""")),
    "F14": fn(*of("N", "ci_find_last:last ci_find_first:first")),
    "F16": fn(*of("S", "split split_of split_lines split_where ci_split ci_split_of")),
    "F17": fn(*of("S", "token_iterator:tokens")),
    "F18": fn(*of("R", "replace ci_replace replace_codepoint")),
    "T07": fn(*of("M", """span_contains:span span_ci_contains:span_ci set_contains:set set_ci_contains:set_ci
        set_add_range:add set_add_codepoint:add set_add_codepoints:add_all
        ci_cp_equal:equal cic_equal:equal ci_cp_less:less cic_less:less ci_cp_compare:compare cic_compare:compare""")),
    "F20": fn(*of("E", """find_first_escapable:escapable has_escapable:escapable
        find_first_escaped:escaped has_escaped:escaped unescape_next""")),
    "F21": fn(*of("U", "unescape_buf:in_place unescape:whole")),
    "F15": fn(*of("X", "starts_with:starts ends_with:ends find_first:first find_last:last")),
}
