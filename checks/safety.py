"""Safety of whole entry points by abstract interpretation with contracts for
the UTF-8 primitives (which C01-C05 establish): every access, shift and
division is an obligation, every loop needs a decreasing measure, and only
YstringException may leave."""
import multiprocessing
import os
import sys
import time
import traceback

import contracts
import drive
import interp

from core import Anchor, CPUS, Report

_M = [None]
NPOS = (1 << 64) - 1
# The finder functions are used through their contracts, and positions that
# mean that nothing was found are told apart from others.
FINDS = {"cons": contracts.FIND, "marks": {0, NPOS}}
OPTIONS = {x: FINDS for x in """e_split e_split_of e_split_lines e_split_where e_ci_split e_ci_split_of
    e_token_iterator e_ci_replace""".split()}
# what these use is looked at itself
MEMBERS = {k: v for k, v in contracts.ALL.items() if "contains" not in k}
OPTIONS.update({x: {"cons": MEMBERS} for x in "e_span_contains e_span_ci_contains e_set_contains e_set_ci_contains".split()})
OPTIONS["e_unescape_next"] = {"most": 256}
OPTIONS["e_unescape_buf"] = {"cons": contracts.UNESCAPE}
OPTIONS["e_unescape"] = {"cons": contracts.UNESCAPED}
OPTIONS["e_replace"] = {"cons": contracts.FIND}
OPTIONS["e_replace_codepoint"] = {"cons": contracts.REPLACE}
OPTIONS["e_replace_invalid_ref"] = {"cons": contracts.REPAIR}


def analyse(name, monitor=None, deadline=150, kinds=None, strict=(), **attrs):
    """Plain data about one entry, computed in a worker."""
    m = _M[0]
    rep = Report("-", "-")
    t = time.time()
    # the stray output of a worker must not hide the verdict
    try:
        if monitor is None and name == "e_replace":
            # what is known of the matches in the vector comes from the monitor
            import repl
            monitor = repl.Replace
        elif monitor is None and name == "e_unescape_buf":
            # the text that is left is told from what is overwritten
            import unesc
            monitor = unesc.InPlace
        mon = monitor() if monitor else None
        attrs = {**OPTIONS.get(name, {}), **attrs}
        e, outs = drive.run(m, name, monitor=mon, deadline=t + deadline, kinds=kinds, **attrs)
        if mon is not None and hasattr(mon, "finish"):
            mon.finish(e, outs)
        if kinds is not None and not any(o.kind in kinds for o in e.log):
            rep.ob("analysis-finishes", False, drive.fn_ins(drive.target(m, m.fns[name])).loc(), name,
                   "nothing was decided: no result is ever returned")
        for o in e.log:
            rep.ob(o.kind, o.ok, o.loc, short(o.fn), o.msg or "", o.trace and [str(x) for x in o.trace])
        for f in e.fns_seen:
            rep.functions.add(short(f if isinstance(f, str) else f.dem))
        rep.count("entry_points")
        rep.count("abstract_steps", e.steps)
        rep.count("loops", len(e.loops_seen))
        rep.count("final_states", len(outs))
        rep.sample("%s: %d obligations, %d loops, %d final states" % (
            name, len(e.log), len(e.loops_seen), len(outs)), 400)
    except Anchor:
        raise
    except KeyError as x:
        if "entry point" in str(x):
            raise Anchor(str(x))
        fail(rep, m, name)
    except strict:
        raise
    except BaseException:
        fail(rep, m, name)
    d = rep.data()
    d["name"] = name
    d["t"] = time.time() - t
    return d


def fail(rep, m, name):
    tb = traceback.format_exc().strip().splitlines()
    f = m.fns.get(name)
    g = drive.target(m, f)
    rep.ob("analysis-finishes", False, drive.fn_ins(g).loc() if g.blocks else "?", short(g.dem),
           "no invariant was found: " + tb[-1][:300], tb[-8:])


def short(dem):
    return dem.replace("std::basic_string_view<char, std::char_traits<char>>", "string_view") \
        .replace("std::basic_string_view<char32_t, std::char_traits<char32_t>>", "u32string_view") \
        .replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string")[:240]


def job(a):
    f, args, kw = a
    try:
        return f(*args, **kw)
    except Anchor as x:
        return {"anchor": str(x)}
    except BaseException:
        return {"error": traceback.format_exc()}


def par(m, rep, jobs):
    """jobs: [(function, args, kwargs)]; merges their plain-data results."""
    _M[0] = m
    jobs = list(jobs)
    ctx = multiprocessing.get_context("fork")
    if len(jobs) == 1:
        res = [job(jobs[0])]
    else:
        with ctx.Pool(min(CPUS, len(jobs))) as p:
            res = p.map(job, jobs, chunksize=1)
    for d in res:
        if "anchor" in d:
            raise Anchor(d["anchor"])
        if "error" in d:
            raise RuntimeError(d["error"])
        rep.merge(d)
    return res


def entries(m, names):
    out = []
    for n in names:
        if n not in m.fns or m.fns[n].decl:
            raise Anchor("entry point " + n)
        out.append(n)
    return out


def check(names):
    def f(m, rep, tier):
        dl = 400 if tier == "thorough" else 200
        par(m, rep, [(analyse, (n,), {"deadline": dl}) for n in entries(m, names)])
    return f


SEARCH = """e_contains e_ends_with e_starts_with e_find_first e_find_last e_find_first_newline
e_find_last_newline e_find_first_of e_find_last_of e_find_first_of_set e_find_last_of_set
e_find_first_where e_find_last_where e_ci_find_first e_ci_find_last e_ci_find_first_of
e_ci_find_last_of e_ci_find_first_of_set e_ci_find_last_of_set e_ci_starts_with e_ci_ends_with
e_span_contains e_span_ci_contains e_set_contains e_set_ci_contains e_set_add_range
e_set_add_codepoint e_set_add_codepoints""".split()
POSITION = """e_count_chars e_count_codepoints e_get_char_pos e_get_char_range e_get_char_substring
e_get_codepoint e_get_codepoint_pos e_get_codepoint_substring e_get_next_char_range
e_get_prev_char_range e_is_valid_utf8 e_subrange_get""".split()
TRIM = """e_join e_trim e_trim_end e_trim_start e_trim_default e_trim_end_default
e_trim_start_default e_trim_end_where e_trim_start_where e_trim_where""".split()
EDIT = """e_append e_append_ref e_insert_chars e_insert_char e_insert_codepoint e_insert_codepoints
e_replace_chars e_replace_codepoints e_replace_invalid e_replace_invalid_ref e_reverse""".split()
CASE = """e_str_to_lower e_str_to_upper e_str_to_title e_ci_compare e_ci_equal e_ci_less
e_ci_cp_compare e_ci_cp_equal e_ci_cp_less e_cic_compare e_cic_equal e_cic_less""".split()
NORM = "e_to_composed e_decompose e_from_utf32 e_from_utf32_char e_to_utf32 e_to_string_view".split()
SPLIT = """e_split e_split_of e_split_lines e_split_where e_ci_split e_ci_split_of e_token_iterator
e_ci_replace e_replace e_replace_codepoint""".split()
ESCAPE = """e_find_first_escapable e_has_escapable e_escape_json e_find_first_escaped
e_has_escaped e_unescape_next e_unescape_buf e_unescape""".split()
