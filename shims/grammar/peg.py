#!/usr/bin/env python3
"""peg.py GRAMMAR OUT.rs: a parser for a peginator grammar, as peginator documents it.

peginator itself is not in the sandbox. This generates the same data types (structs, enums of
multi-typed fields, aliases of overridden and string rules) and a plain recursive descent PEG
parser: ordered choice, whitespace skipped before every literal, rule call and end of input
unless @no_skip_ws, @string/@char/@position/@check/@extern/@memoize, >included rules."""
import re, sys

TOKEN = re.compile(r"""\s+|\#[^\n]*|(?P<dir>@[a-z_]+(\([^)]*\))?)|(?P<over>@:)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)
    |(?P<str>"[^"]*"|'[^']*')|(?P<op>\.\.|[{}\[\]()|;=$!&>:+])""", re.X)


def tokens(t):
    i, out = 0, []
    while i < len(t):
        m = TOKEN.match(t, i)
        if not m:
            raise SystemExit(f"peg.py: unexpected text at {t[i:i+40]!r}")
        i = m.end()
        if m.lastgroup or m.group("dir"):
            k = "dir" if m.group("dir") else m.lastgroup
            out.append((k, m.group(k)))
    return out


class Grammar:
    def __init__(self, text):
        self.t, self.i, self.rules = tokens(text), 0, {}
        while self.i < len(self.t):
            dirs = {}
            while self.t[self.i][0] == "dir":
                d = self.t[self.i][1][1:]
                n, _, a = d.partition("(")
                dirs[n] = a.rstrip(")")
                self.i += 1
            name = self.take("id")
            expr = None
            if self.peek() == ("op", "="):
                self.i += 1
                expr = self.choice()
            self.need(";")
            self.rules[name] = (dirs, expr)

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ("end", "")

    def take(self, k):
        a, b = self.peek()
        if a != k:
            raise SystemExit(f"peg.py: expected {k}, found {b!r}")
        self.i += 1
        return b

    def need(self, s):
        if self.peek()[1] != s:
            raise SystemExit(f"peg.py: expected {s!r}, found {self.t[self.i:self.i+5]}")
        self.i += 1

    def choice(self):
        alts = [self.seq()]
        while self.peek() == ("op", "|"):
            self.i += 1
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ("choice", alts)

    def seq(self):
        parts = []
        while not (self.peek()[0] == "op" and self.peek()[1] in "|;)]}"):
            parts.append(self.one())
        return parts[0] if len(parts) == 1 else ("seq", parts)

    def one(self):
        k, v = self.peek()
        self.i += 1
        if k == "str":
            if self.peek() == ("op", ".."):
                self.i += 1
                return ("range", v[1:-1], self.take("str")[1:-1])
            return ("lit", v[1:-1])
        if k == "over":
            return ("field", "@", self.take("id"))
        if k == "id":
            if self.peek() == ("op", ":"):
                self.i += 1
                return ("field", v, self.take("id"))
            return ("call", v)
        close = {"(": ")", "[": "]", "{": "}"}
        if v in close:
            e = self.choice()
            self.need(close[v])
            if v == "(":
                return e
            if v == "[":
                return ("opt", e)
            if self.peek() == ("op", "+"):
                self.i += 1
                return ("many", e, 1)
            return ("many", e, 0)
        if v == "$":
            return ("eoi",)
        if v in "!&":
            return ("not" if v == "!" else "and", self.one())
        if v == ">":
            return ("incl", self.take("id"))
        raise SystemExit(f"peg.py: unexpected {v!r}")

    def skips(self, rule):
        # a rule for one character matches exactly one character
        return not {"no_skip_ws", "char"} & set(self.rules[rule][0])

    # field -> (how many, [types])
    def fields(self, e):
        k = e[0]
        if k == "field":
            return {e[1]: ("one", [e[2]])}
        if k == "incl":
            return self.fields(self.rules[e[1]][1])
        if k in ("opt", "many"):
            how = "multi" if k == "many" else "opt"
            return {f: ("multi" if n == "multi" else how, t) for f, (n, t) in self.fields(e[1]).items()}
        if k == "seq":
            r = {}
            for p in e[1]:
                for f, (n, t) in self.fields(p).items():
                    r[f] = ("multi", r[f][1] + [x for x in t if x not in r[f][1]]) if f in r else (n, list(t))
            return r
        if k == "choice":
            r, fs = {}, [self.fields(p) for p in e[1]]
            for x in fs:
                for f, (n, t) in x.items():
                    r.setdefault(f, []).append((n, t))
            out = {}
            for f, v in r.items():
                ns = [n for n, _ in v]
                ts = []
                for _, t in v:
                    ts += [x for x in t if x not in ts]
                out[f] = ("multi" if "multi" in ns else "one" if len(v) == len(fs) and set(ns) == {"one"} else "opt", ts)
            return out
        return {}


KEYWORDS = {"from": "from", "to": "to"}


def wrap(how, t):
    return {"one": t, "opt": f"Option<{t}>", "multi": f"Vec<{t}>"}[how]


def generate(g):
    out = ["use derive_visitor::{Drive, Visitor};", "use peginator::*;", "use std::collections::HashMap;"]
    derive = "#[derive(Debug, Clone, Drive)]"
    memo = [n for n, (d, _) in g.rules.items() if "memoize" in d]
    out.append("pub struct St<'a> {\n    s: &'a str,\n    user: &'a mut crate::CustomParseState,")
    out += [f"    m_{n}: HashMap<usize, Option<({n}, usize)>>," for n in memo] + ["}"]
    out.append("""fn ws(st: &St<'_>, pos: usize) -> usize {
    pos + st.s[pos..].bytes().take_while(|c| matches!(c, b' ' | b'\\t' | b'\\n' | b'\\r' | 0x0c)).count()
}
fn p_Whitespace(st: &mut St<'_>, pos: usize) -> Option<((), usize)> {
    Some(((), ws(st, pos)))
}
fn p_char(st: &mut St<'_>, pos: usize) -> Option<(char, usize)> {
    st.s[pos..].chars().next().map(|c| (c, pos + c.len_utf8()))
}""")
    for name, (dirs, expr) in g.rules.items():
        if "extern" in dirs:
            out.append(f"pub type {name} = String;")
            out.append(f"fn p_{name}(st: &mut St<'_>, pos: usize) -> Option<({name}, usize)> {{\n    {dirs['extern']}(&st.s[pos..], st.user).ok().map(|(v, n)| (v, pos + n))\n}}")
            continue
        fields = g.fields(expr)
        # types
        acc = {}
        for f, (how, ts) in fields.items():
            if len(ts) == 1:
                acc[f] = ts[0]
            else:
                acc[f] = name if f == "@" else f"{name}_{f}"
                if f == "@" and how != "one":
                    acc[f] = f"{name}_override"
                out.append(f"{derive}\n#[allow(non_camel_case_types)]\npub enum {acc[f]} {{\n" + "".join(f"    {t}({t}),\n" for t in ts) + "}")
        position = "position" in dirs
        if "string" in dirs:
            out.append(f"pub type {name} = String;")
            fields, acc, result = {}, {}, "st.s[start..pos].to_string()"
        elif "char" in dirs:
            out.append(f"pub type {name} = char;")
            fields, acc, result = {}, {}, "st.s[start..pos].chars().next().unwrap()"
        elif "@" in fields:
            assert len(fields) == 1 and not position, name
            how, ts = fields["@"]
            if len(ts) == 1 or how != "one":
                out.append(f"pub type {name} = {wrap(how, acc['@'])};")
            result = None
        elif fields or position:
            out.append(f"{derive}\npub struct {name} {{\n" + "".join(f"    pub {f}: {wrap(how, acc[f])},\n" for f, (how, _) in fields.items())
                       + ("    pub position: std::ops::Range<usize>,\n" if position else "") + "}")
            result = None
        else:
            out.append(f"{derive}\npub struct {name};")
            result = name
        fn = lambda f: "f_over" if f == "@" else f"f_{f}"
        out.append(f"#[derive(Default)]\npub struct Acc{name} {{ " + "".join(f"{fn(f)}: Vec<{acc[f]}>, " for f in fields) + "}")
        mark = "(" + "".join(f"a.{fn(f)}.len(), " for f in fields) + ")"
        back = "".join(f" a.{fn(f)}.truncate(mark.{i});" for i, f in enumerate(fields))
        count = [0]

        def emit(e, skip):
            me = f"e_{name}_{count[0]}"
            count[0] += 1
            k = e[0]
            sk = "    let pos = ws(st, pos);\n" if skip else ""
            if k == "lit":
                body = f"{sk}    st.s[pos..].starts_with({rust(e[1])}).then(|| pos + {len(e[1].encode())})"
            elif k == "range":
                body = f"{sk}    let c = st.s[pos..].chars().next()?;\n    ({ch(e[1])}..={ch(e[2])}).contains(&c).then(|| pos + c.len_utf8())"
            elif k == "eoi":
                body = f"{sk}    (pos == st.s.len()).then_some(pos)"
            elif k == "call":
                body = f"{sk}    p_{e[1]}(st, pos).map(|r| r.1)"
            elif k == "field":
                if e[1] in fields:
                    v = "v" if len(fields[e[1]][1]) == 1 else f"{acc[e[1]]}::{e[2]}(v)"
                    body = f"{sk}    let (v, pos) = p_{e[2]}(st, pos)?;\n    a.{fn(e[1])}.push({v});\n    Some(pos)"
                else:
                    body = f"{sk}    p_{e[2]}(st, pos).map(|r| r.1)"
            elif k == "incl":
                body = f"{sk}    {emit(g.rules[e[1]][1], g.skips(e[1]))}(st, pos, a)"
            elif k == "seq":
                body = "".join(f"    let pos = {emit(p, skip)}(st, pos, a)?;\n" for p in e[1]) + "    Some(pos)"
            elif k == "choice":
                body = f"    let mark = {mark};\n" + "".join(
                    f"    if let Some(p) = {emit(p, skip)}(st, pos, a) {{ return Some(p); }}\n   {back}\n" for p in e[1]) + "    None"
            elif k == "opt":
                body = f"    let mark = {mark};\n    if let Some(p) = {emit(e[1], skip)}(st, pos, a) {{ return Some(p); }}\n   {back}\n    Some(pos)"
            elif k == "many":
                least = "    if n == 0 { return None; }\n" if e[2] else ""
                body = (f"    let (mut pos, mut n) = (pos, 0);\n    loop {{\n    let mark = {mark};\n"
                        f"    match {emit(e[1], skip)}(st, pos, a) {{ Some(p) => {{ pos = p; n += 1; }} None => {{{back} break; }} }}\n    }}\n{least}    let _ = n;\n    Some(pos)")
            else:
                r = emit(e[1], skip)
                body = f"    let mark = {mark};\n    let r = {r}(st, pos, a);\n   {back}\n    r.{'is_none' if k == 'not' else 'is_some'}().then_some(pos)"
            out.append(f"#[allow(unused_variables)]\nfn {me}(st: &mut St<'_>, pos: usize, a: &mut Acc{name}) -> Option<usize> {{\n{body}\n}}")
            return me

        top = emit(expr, g.skips(name))
        if result is None:
            get = {f: {"one": f"a.{fn(f)}.pop().unwrap()", "opt": f"a.{fn(f)}.pop()", "multi": f"a.{fn(f)}"}[how] for f, (how, _) in fields.items()}
            result = get["@"] if "@" in get else f"{name} {{ " + "".join(f"{f}: {v}, " for f, v in get.items()) + ("position: start..pos, " if position else "") + "}"
        check = f"    if !{dirs['check']}(&r, st.user) {{ return None; }}\n" if "check" in dirs else ""
        inner = f"n_{name}" if "memoize" in dirs else f"p_{name}"
        out.append(f"#[allow(unused_mut)]\nfn {inner}(st: &mut St<'_>, start: usize) -> Option<({name}, usize)> {{\n    let mut a = Acc{name}::default();\n"
                   f"    let pos = {top}(st, start, &mut a)?;\n    let r = {result};\n{check}    Some((r, pos))\n}}")
        if "memoize" in dirs:
            out.append(f"fn p_{name}(st: &mut St<'_>, start: usize) -> Option<({name}, usize)> {{\n    if let Some(r) = st.m_{name}.get(&start) {{ return r.clone(); }}\n"
                       f"    let r = n_{name}(st, start);\n    st.m_{name}.insert(start, r.clone());\n    r\n}}")
        if "export" in dirs:
            out.append(f"impl PegParserAdvanced<&mut crate::CustomParseState> for {name} {{\n    fn parse_advanced<T: ParseTracer>(s: &str, _: &ParseSettings, user: &mut crate::CustomParseState) -> Result<Self, ParseError> {{\n"
                       f"        let mut st = St {{ s, user, " + "".join(f"m_{n}: HashMap::new(), " for n in memo) + "};\n"
                       f"        p_{name}(&mut st, 0).map(|r| r.0).ok_or(ParseError)\n    }}\n}}")
    return "#![allow(dead_code, unused_imports, non_snake_case, unused_assignments)]\n" * 0 + "\n".join(out) + "\n"


def rust(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def ch(s):
    assert len(s) == 1
    return f"'{s}'"


if __name__ == "__main__":
    g = Grammar(open(sys.argv[1], encoding="utf-8").read())
    open(sys.argv[2], "w", encoding="utf-8").write(generate(g))
