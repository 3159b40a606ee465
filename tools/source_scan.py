#!/usr/bin/env python3
"""Source rules that do not depend on the configuration the crate is compiled in.

The compiler only sees what its configuration selects.  This looks at the token
trees of every file of the crate, whatever `cfg` they stand behind (test code
left out): no path into std or alloc, no `extern crate` of them, no `unsafe`, no
way to give up `no_std`."""
import itertools, os, re, sys

TOKEN = re.compile(r"""
  (?P<ws>\s+)
 |(?P<line>//[^\n]*)
 |(?P<raw>\b(?:b|c)?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 |(?P<str>[bc]?"(?:\\(?:.|\n)|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\\n])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<num>\d[\w.]*)
 |(?P<p>::|.)
""", re.X | re.S)

def tokens(text):
    """(text, line) of every token that is not white space or a comment"""
    out, i, line = [], 0, 1
    while i < len(text):
        if text.startswith("/*", i):
            d, j = 1, i + 2
            while j < len(text) and d:
                if text.startswith("/*", j): d, j = d + 1, j + 2
                elif text.startswith("*/", j): d, j = d - 1, j + 2
                else: j += 1
            line += text.count("\n", i, j)
            i = j
            continue
        m = TOKEN.match(text, i)
        k = m.lastgroup if m.lastgroup != "h" else "raw"
        if k not in ("ws", "line"):
            t = m.group(0)
            out.append((t[2:] if k == "id" and t.startswith("r#") else t, line))
        line += m.group(0).count("\n")
        i = m.end()
    return out

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}
def group(t, i):
    """index after the group that opens at i"""
    d = 0
    while i < len(t):
        if t[i][0] in OPEN: d += 1
        elif t[i][0] in CLOSE:
            d -= 1
            if d == 0: return i + 1
        i += 1
    return i
def item_end(t, i):
    """index after the item (or statement, field, arm) that starts at i, further attributes included"""
    while i < len(t) and t[i][0] == "#": i = group(t, i + 1)
    while i < len(t):
        x = t[i][0]
        if x == "{": return group(t, i)
        if x in OPEN: i = group(t, i); continue
        if x in CLOSE: return i
        i += 1
        if x in (";", ","): return i
    return i

def parse(t):
    """a cfg predicate; returns (formula, rest); atoms are strings"""
    if not t: return ("atom", "?"), t
    h, t = t[0], t[1:]
    if h in ("all", "any", "not") and t and t[0] == "(":
        t, args = t[1:], []
        while t and t[0] != ")":
            f, t = parse(t)
            args.append(f)
            if t and t[0] == ",": t = t[1:]
        return (h, args), t[1:]
    if t and t[0] == "=": return ("atom", h + " = " + t[1]), t[2:]
    return ("atom", h), t
def atoms(f): return {f[1]} if f[0] == "atom" else set().union(set(), *[atoms(x) for x in f[1]])
def holds(f, v):
    if f[0] == "atom": return v[f[1]]
    if f[0] == "not": return not holds(f[1][0], v)
    return (all if f[0] == "all" else any)(holds(x, v) for x in f[1])
def possible(f, want, fixed):
    """can the predicate take the value outside of tests?"""
    a = sorted(atoms(f))
    free = [x for x in a if x not in fixed]
    if len(free) > 10: return True
    for v in itertools.product((False, True), repeat=len(free)):
        d = {x: fixed.get(x, False) for x in a if x not in free}
        d.update(zip(free, v))
        if holds(f, d) == want: return True
    return False
FIXED = {"test": False, "doctest": False, "doc": False, "true": True, "false": False, "miri": False, "kani": False, "loom": False}

def scan(text, declared=()):
    """violations (line, what) in one file; strings keep their text in predicates"""
    t = tokens(text)
    class Fixed(dict):
        def __contains__(self, k): return dict.__contains__(self, k) or (k.startswith("feature = ") and k[11:-1] not in declared)
    fixed = Fixed(FIXED)
    out, i, no_std, tests = [], 0, None, set()
    while i < len(t):
        x = t[i][0]
        if x == "#":
            inner = i + 1 < len(t) and t[i + 1][0] == "!"
            j = i + (2 if inner else 1)
            if j < len(t) and t[j][0] == "[":
                e = group(t, j)
                body = [y[0] for y in t[j + 1:e - 1]]
                if body[:2] == ["cfg", "("]:
                    f, _ = parse(body[2:-1])
                    if not possible(f, True, fixed):
                        end = len(t) if inner else item_end(t, e)
                        names = [y[0] for y in t[e:end]]
                        if names[-1:] == [";"] and "mod" in names: tests.add(names[names.index("mod") + 1])
                        i = end
                        continue
                elif body[:1] == ["test"]:
                    i = item_end(t, e)
                    continue
                elif body[:2] == ["cfg_attr", "("]:
                    f, rest = parse(body[2:-1])
                    if "no_std" in rest:
                        no_std = no_std or not possible(f, False, fixed)
                        if possible(f, False, fixed): out.append((t[i][1], "no_std only under a condition"))
                elif inner and body == ["no_std"]: no_std = True
                # the rest of the attribute is scanned like everything else
                i = j
                continue
        if x == "unsafe": out.append((t[i][1], "the keyword unsafe"))
        if x == "extern" and i + 2 < len(t) and t[i + 1][0] == "crate" and t[i + 2][0] in ("std", "alloc"):
            out.append((t[i][1], "extern crate " + t[i + 2][0]))
        if x in ("std", "alloc") and i + 1 < len(t) and t[i + 1][0] == "::":
            p = t[i - 1][0] if i else ""
            start = p != "::" or (i >= 2 and not re.match(r"[\w>]", t[i - 2][0])) or (i >= 2 and t[i - 2][0] in ("use", "mut", "in", "return", "as"))
            if start and p != ".": out.append((t[i][1], "a path into " + x))
        i += 1
    return out, no_std, tests

def crate(root):
    out, files, toks, declared, per, tests = [], 0, 0, (), {}, set()
    try:
        import tomllib
        with open(os.path.join(root, "Cargo.toml"), "rb") as h: declared = set(tomllib.load(h).get("features", {}))
    except OSError: pass
    for d, _, fs in os.walk(os.path.join(root, "src")):
        for f in sorted(fs):
            if not f.endswith(".rs"): continue
            p = os.path.join(d, f)
            with open(p, errors="replace") as h: text = h.read()
            files += 1
            toks += len(tokens(text))
            v, n, ts = scan(text, declared)
            tests |= ts
            rel = os.path.relpath(p, root)
            per[rel] = [(rel + ":%d" % l, w) for l, w in v]
            if rel == "src/lib.rs":
                if not n and not any("no_std" in w for _, w in v): out.append((rel + ":1", "the crate is not declared no_std"))
    # modules that exist for tests only
    for rel, v in sorted(per.items()):
        parts = rel[:-3].split(os.sep)[1:]
        if not tests.intersection(parts): out += v
    return out, files, toks

def mentions(root, words):
    """does one of the words occur as a token of the crate?"""
    for d, _, fs in os.walk(os.path.join(root, "src")):
        for f in sorted(fs):
            if f.endswith(".rs"):
                with open(os.path.join(d, f), errors="replace") as h:
                    if any(x in words for x, _ in tokens(h.read())): return True
    return False

SAMPLE = r'''
#![cfg_attr(not(any(test, windows)), no_std)]
// unsafe std::vec in a comment /* and */ here
#[cfg(windows)] extern crate std;
#[cfg(target_os = "none")] extern crate alloc as a;
fn f<'a>(x: &'a str) -> char { let _ = "unsafe std::x"; let _ = r#"alloc::"y""#; '"' }
fn g() { let _: ::std::vec::Vec<u8> = alloc::vec::Vec::new(); }
fn h(l: core::alloc::Layout) {}
#[cfg(feature = "std")] extern crate std;
#[cfg(not(feature = "std"))] fn k() { unsafe { } }
#[cfg(all(test, unix))] mod q { use std::vec::Vec; fn z() { unsafe {} } }
#[cfg(test)] mod tests { use super::*; extern crate std; fn z() { unsafe { std::x() } } }
#[test] fn w() { std::x(); }
'''
WANT = ["no_std only under a condition", "extern crate std", "extern crate alloc", "a path into std", "a path into alloc", "the keyword unsafe"]
def selftest():
    v, _, _ = scan(SAMPLE)
    return [w for _, w in v] == WANT, v

if __name__ == "__main__":
    print(selftest())
    print(crate(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
