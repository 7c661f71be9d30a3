//! P16: parsing the structure of an act loses, invents and reorders nothing.
//! (The verifier runs out of memory on these functions even for two lines: vectors of
//! elements with strings, at symbolic lengths. The modular contracts are therefore
//! evaluated natively, over their whole bounded domain where that is feasible.)
use crate::parser::structure::*;
use crate::vf::{Outcome, Src};


#[cfg(all(not(kani), feature = "p16"))]
mod ghosts {
    use super::*;
    // ------------------------------------------------ one level of the parser, modularly
    // `Ghost` is any parser of one kind of element: which lines look like its headers is up
    // to a table. Its `parse` is the contract of parsing one element: the element it gives
    // back tells which lines it was made of. So `extract_multiple` is the real generic code,
    // verified against the contract of the level below.
    use crate::identifier::IdentifierCommon;
    use crate::parser::structure::verif::*;
    use crate::structure::{ChildrenCommon, SAEBody, SubArticleElement};
    use crate::util::compact_string::CompactString;
    use crate::lines::*;
    use crate::util::indentedline::IndentedLine;
    use anyhow::{anyhow, Result};

    const N: usize = 3;
    /// An identifier that also carries the lines of its element
    #[derive(Debug, Clone, Copy)]
    struct Id {
        n: u8,
        lines: u32,
    }
    impl PartialEq for Id {
        fn eq(&self, o: &Self) -> bool {
            self.n == o.n
        }
    }
    impl Eq for Id {}
    impl PartialOrd for Id {
        fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for Id {
        fn cmp(&self, o: &Self) -> std::cmp::Ordering {
            self.n.cmp(&o.n)
        }
    }
    impl CompactString for Id {
        fn fmt_compact_string(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
        fn from_compact_string(_s: impl AsRef<str>) -> Result<Self> {
            Err(anyhow!("ghost"))
        }
    }
    impl IdentifierCommon for Id {
        fn is_first(&self) -> bool {
            self.n == 1
        }
        fn is_next_from(&self, o: Self) -> bool {
            self.n == o.n + 1
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    struct NoChildren;
    impl ChildrenCommon for NoChildren {
        fn is_empty(&self) -> bool {
            true
        }
        fn parent_type_name() -> &'static str {
            "Ghost"
        }
    }
    #[derive(Debug)]
    struct Ghost {
        /// which number's header the line is, if any
        header: [u8; N],
        desc: [Desc; N],
        /// parsing the element with this number fails
        fails: u8,
        /// how many lines at the end the last element leaves for its parent, if asked
        leaves: usize,
    }
    /// The text after a header hangs to the right of all headers
    const REST_INDENT: f64 = 30.0;
    impl SAEParser for Ghost {
        type IdentifierType = Id;
        type ChildrenType = NoChildren;
        fn parse_header(&self, l: &IndentedLine) -> Option<(Id, IndentedLine)> {
            if l.is_empty() || letter(l) < b'a' || self.header[place(l)] == 0 {
                return None;
            }
            let i = place(l);
            Some((Id { n: self.header[i], lines: 0 }, line(&Desc { rest: true, begin: 0, indent: REST_INDENT, ..self.desc[i] })))
        }
        fn try_extract_children(&self, _i: &Id, _p: Option<&IndentedLine>, _b: &[IndentedLine], _params: &SAEParseParams) -> Result<ExtractMultipleResult<NoChildren>> {
            Err(anyhow!("no children"))
        }
        fn parse(&self, identifier: Id, body: &[IndentedLine], _context: ParsingContext, mode: RestOfWrapUpMode) -> Result<ParseResult<Id, NoChildren>> {
            if identifier.n == self.fails {
                return Err(anyhow!("fails"));
            }
            let leaves = if mode == RestOfWrapUpMode::GiveIt && self.leaves < body.len() { self.leaves } else { 0 };
            let mut acc = 0;
            let mut i = 0;
            while i < body.len() - leaves {
                // only the first one is a header's rest
                acc = if (i == 0) == (letter(&body[i]) < b'a') { pack(acc, place(&body[i])) } else { u32::MAX };
                i += 1;
            }
            let mut rest_of_wrap_up = Vec::new();
            if leaves > 0 {
                        rest_of_wrap_up = Vec::with_capacity(N);
                while i < body.len() {
                    rest_of_wrap_up.push(body[i].clone());
                    i += 1;
                }
            }
            Ok(ParseResult {
                element: SubArticleElement { identifier: Id { n: identifier.n, lines: acc }, body: SAEBody::Text(String::new()), semantic_info: Default::default(), last_change: None },
                rest_of_wrap_up,
            })
        }
    }
    /// Without wrap up, as for the paragraphs of an article
    pub fn one_level<S: Src>(s: &mut S) -> Outcome {
        level(s, false, false)
    }
    /// With the wrap up told apart by its indentation, as in an act
    pub fn one_level_act<S: Src>(s: &mut S) -> Outcome {
        level(s, true, false)
    }
    /// With the wrap up told apart by justification, as in quoted amendments
    pub fn one_level_amendment<S: Src>(s: &mut S) -> Outcome {
        level(s, true, true)
    }
    fn level<S: Src>(s: &mut S, parse_wrap_up: bool, amendment: bool) -> Outcome {
        let mut g = Ghost { header: [0; N], desc: [desc(0), desc(1), desc(2)], fails: s.below(5), leaves: s.below(3) as usize };
        let mut lines: Vec<IndentedLine> = Vec::with_capacity(N);
        let mut i = 0;
        while i < N {
            g.header[i] = s.below(5);
            let d = &mut g.desc[i];
            d.end = [0, 1, 5][s.below(3) as usize];
            d.indent = if s.bool() { 20.0 } else { 10.0 };
            d.justified = s.bool();
            d.empty = i > 0 && s.bool();
            lines.push(line(d));
            i += 1;
        }
        let check_children_count = s.bool();
        let expected = s.below(4);
        let params = SAEParseParams { parse_wrap_up, check_children_count, context: if amendment { ParsingContext::BlockAmendment } else { ParsingContext::FullAct } };
        let r: Result<ExtractMultipleResult<Vec<SubArticleElement<Id, NoChildren>>>> =
            g.extract_multiple(&lines, &params, if expected == 0 { None } else { Some(Id { n: expected, lines: 0 }) });
        let r = std::mem::ManuallyDrop::new(r);
        std::mem::forget(lines);

        // What the layout says
        let (mut level, mut quotes_ok) = (0i8, true);
        let mut ids = [0u8; N]; // of the elements
        let mut of = [0u32; N]; // their lines
        let mut n = 0usize; // how many elements
        let mut last_start = 0;
        let mut i = 0;
        while i < N {
            let quoted = level > 0;
            let d = &g.desc[i];
            level += quotes(d);
            quotes_ok &= level >= 0;
            let starts = i == 0 || (!quoted && !d.empty && d.indent <= g.desc[0].indent && g.header[i] == ids[n - 1] + 1);
            if starts {
                ids[n] = g.header[i];
                n += 1;
                last_start = i;
            }
            if !d.empty {
                of[n - 1] = pack(of[n - 1], i);
            }
            i += 1;
        }
        let first_ok = g.header[0] != 0 && g.header[0] == if expected == 0 { 1 } else { expected };
        // what is left of the last element for the parent
        let mut own = N; // the element ends before this line
        let mut wrap_end = N; // the wrap up ends before this one
        if parse_wrap_up && !amendment {
            let mut i = N - 1;
            while i > last_start {
                if !g.desc[i].empty && g.desc[i].indent <= g.desc[0].indent {
                    own = i;
                }
                i -= 1;
            }
        } else if parse_wrap_up {
            // counted in lines that are not empty
            let mut have = 0;
            let mut i = last_start;
            while i < N {
                have += !g.desc[i].empty as usize;
                i += 1;
            }
            let mut left = if g.leaves < have { g.leaves } else { 0 };
            let mut i = N;
            while i > last_start && left > 0 {
                i -= 1;
                if !g.desc[i].empty {
                    own = i;
                    left -= 1;
                }
            }
            let mut i = N;
            while i > own {
                i -= 1;
                if !g.desc[i].empty && !g.desc[i].justified {
                    wrap_end = i + 1;
                }
            }
        }
        let (mut last, mut wrap, mut rest) = (0, 0, 0);
        let mut i = last_start;
        while i < N {
            if g.desc[i].empty {
            } else if i < own {
                last = pack(last, i);
            } else if i < wrap_end {
                wrap = pack(wrap, i);
            } else {
                rest = pack(rest, i);
            }
            i += 1;
        }
        of[n - 1] = last;
        let mut failing = false;
        let mut i = 0;
        while i < n {
            failing |= ids[i] == g.fails;
            i += 1;
        }
        let proper = first_ok && quotes_ok && level == 0 && !failing && (n > 1 || !check_children_count);
        check!(r.is_ok() == proper, "succeeds exactly on elements numbered from the first one, with balanced quotes", "{r:?} {g:?} {expected}");
        let Ok(r) = &*r else { return Outcome::Pass };
        check!(r.elements.len() == n, "every header in sequence begins an element, and nothing else does", "{r:?} {g:?} {expected}");
        let mut i = 0;
        while i < N {
            if i < n {
                check!(r.elements[i].identifier.n == ids[i], "identifiers in sequence", "{r:?} {g:?} {expected}");
                check!(r.elements[i].identifier.lines == of[i], "every element has exactly the lines from its header to the next", "{r:?} {g:?} {expected}");
            }
            i += 1;
        }
        let got_wrap = pack_opt(0, &r.parent_wrap_up);
        check!(got_wrap == wrap, "the wrap up has the rest", "{r:?} {g:?} {expected}");
        check!(r.rest_of_wrap_up.len() <= 2, "the rest of the wrap up");
        check!(pack_lines(0, &r.rest_of_wrap_up) == rest, "and the parent gets what remains", "{r:?} {g:?} {expected}");
        Outcome::Pass
    }

    // ------------------------------------------------ one element, over the contract of its children
    /// Any parser that may or may not find children from a line on
    #[derive(Debug)]
    struct Parent {
        /// children can be found if they begin at this line
        found: [bool; N],
        /// how many lines at the end are left over by them
        leaves: usize,
        /// of those left over, whether the first is the wrap up
        wraps: bool,
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    struct Kids {
        lines: u32,
        /// the line before them as they saw it, 0 for none
        previous: u32,
    }
    impl ChildrenCommon for Kids {
        fn is_empty(&self) -> bool {
            false
        }
        fn parent_type_name() -> &'static str {
            "Parent"
        }
    }
    impl SAEParser for Parent {
        type IdentifierType = Id;
        type ChildrenType = Kids;
        fn parse_header(&self, _l: &IndentedLine) -> Option<(Id, IndentedLine)> {
            None
        }
        fn try_extract_children(&self, _i: &Id, previous: Option<&IndentedLine>, body: &[IndentedLine], _params: &SAEParseParams) -> Result<ExtractMultipleResult<Kids>> {
            if body.is_empty() || body[0].is_empty() || !self.found[place(&body[0])] {
                return Err(anyhow!("not here"));
            }
            let own = if self.leaves < body.len() { body.len() - self.leaves } else { body.len() };
            let lines = pack_lines(0, &body[..own]);
            let mut parent_wrap_up = None;
            let mut rest_of_wrap_up = Vec::new();
            let mut i = own;
            if self.wraps && i < body.len() && !body[i].is_empty() {
                let mut w = String::with_capacity(8);
                body[i].append_to(&mut w);
                parent_wrap_up = Some(w);
                i += 1;
            }
            if i < body.len() {
                rest_of_wrap_up = Vec::with_capacity(N);
                while i < body.len() {
                    rest_of_wrap_up.push(body[i].clone());
                    i += 1;
                }
            }
            let previous = match previous {
                Some(l) => pack(0, place(l)),
                None => 0,
            };
            Ok(ExtractMultipleResult { elements: Kids { lines, previous }, parent_wrap_up, rest_of_wrap_up })
        }
    }
    pub fn one_element<S: Src>(s: &mut S) -> Outcome {
        let (a, b) = (s.bool(), s.bool());
        element(s, a, b)
    }
    fn element<S: Src>(s: &mut S, amendment: bool, give: bool) -> Outcome {
        let p = Parent { found: [s.bool(), s.bool(), s.bool()], leaves: s.below(3) as usize, wraps: s.bool() };
        let mut d = [desc(0), desc(1), desc(2)];
        let mut i = 0;
        while i < N {
            d[i].end = [0, 1, 5][s.below(3) as usize];
            d[i].justified = s.bool();
            d[i].empty = s.bool();
            i += 1;
        }
        let body = [line(&d[0]), line(&d[1]), line(&d[2])];
        let context = if amendment { ParsingContext::BlockAmendment } else { ParsingContext::FullAct };
        let mode = if give { RestOfWrapUpMode::GiveIt } else { RestOfWrapUpMode::KeepIt };
        let r = p.parse(Id { n: 7, lines: 0 }, &body, context, mode);
        let r = std::mem::ManuallyDrop::new(r);

        // The children begin at the first line outside of quotes where there are any
        let (mut level, mut quotes_ok) = (0i8, true);
        let (mut at, mut intro, mut previous) = (N, 0, 0);
        let mut i = 0;
        while i < N {
            if at == N {
                let quoted = level > 0;
                level += quotes(&d[i]);
                quotes_ok &= level >= 0;
                if quotes_ok && !quoted && !d[i].empty && p.found[i] {
                    at = i;
                } else if !d[i].empty {
                    intro = pack(intro, i);
                    previous = pack(0, i);
                }
            }
            i += 1;
        }
        check!(r.is_ok() == (quotes_ok && (at < N || level == 0)), "fails exactly on unbalanced quotes", "{r:?} {p:?} {d:?}");
        let Ok(r) = &*r else { return Outcome::Pass };
        check!(r.element.identifier.n == 7, "identifier");
        let rest = pack_lines(0, &r.rest_of_wrap_up);
        match &r.element.body {
            SAEBody::Text(t) => {
                check!(at == N, "children are found", "{r:?} {p:?} {d:?}");
                // in amendments the text ends with the first line that is not justified
                let (mut all, mut own, mut left, mut done) = (0, 0, 0, false);
                let mut i = 0;
                while i < N {
                    if !d[i].empty {
                        all = pack(all, i);
                        if done {
                            left = pack(left, i);
                        } else {
                            own = pack(own, i);
                        }
                    }
                    // (an empty line is not justified)
                    done |= !d[i].justified || d[i].empty;
                    i += 1;
                }
                if amendment && give {
                    check!(pack_text(0, t) == own && rest == left, "the text, and what is left over", "{r:?} {p:?} {d:?}");
                } else {
                    check!(pack_text(0, t) == all && rest == 0, "the whole text", "{r:?} {p:?} {d:?}");
                }
            }
            SAEBody::Children { intro: t, children, wrap_up } => {
                check!(at < N, "no children where there are none", "{r:?} {p:?} {d:?}");
                check!(pack_text(0, t) == intro, "the intro has the lines before the children", "{r:?} {p:?} {d:?}");
                check!(children.previous == previous, "the children see the line before", "{r:?} {p:?} {d:?}");
                // what the children left over
                let own = if p.leaves < N - at { N - p.leaves } else { N };
                let (mut kids, mut wrap, mut left) = (0, 0, 0);
                let mut i = at;
                while i < N {
                    if d[i].empty {
                    } else if i < own {
                        kids = pack(kids, i);
                    } else if (i == own && p.wraps) || !give {
                        wrap = pack(wrap, i);
                    } else {
                        left = pack(left, i);
                    }
                    i += 1;
                }
                check!(children.lines == kids, "the children have the lines after", "{r:?} {p:?} {d:?}");
                check!(pack_opt(0, wrap_up) == wrap, "the wrap up", "{r:?} {p:?} {d:?}");
                check!(rest == left, "the rest is given back", "{r:?} {p:?} {d:?}");
            }
        }
        Outcome::Pass
    }

    // ------------------------------------------------ quoted blocks
    use crate::structure::ParagraphChildren;
    const M: usize = 4;
    /// Every top level quotation is one block, and everything else is intro or wrap up
    pub fn quoted_blocks<S: Src>(s: &mut S) -> Outcome {
        let n = 1 + s.below(M as u8) as usize;
        let mut d: Vec<Desc> = vec![];
        for i in 0..n {
            d.push(Desc { begin: s.below(5) as usize, end: s.below(6) as usize, empty: s.below(8) == 7, ..desc(i) });
        }
        let lines: Vec<IndentedLine> = d.iter().map(line).collect();
        let prev = Desc { end: *crate::gen::one_of(s, &[0, 4]), ..desc(9) };
        let has_prev = s.bool();
        let prev_line = line(&prev);
        let r = QuotedBlockParser::extract_multiple(if has_prev { Some(&prev_line) } else { None }, &lines);
        let Ok(r) = r else {
            // a single complete quotation can not be refused
            let mut level = 0;
            let mut whole = d[0].begin == 1 || d[0].begin == 2;
            for (i, x) in d.iter().enumerate() {
                level += quotes(x);
                whole &= !x.empty && (level > 0) == (i + 1 < n) && level >= 0;
            }
            whole &= d[n - 1].end == 1;
            check!(!whole, "a quotation is a quoted block", "{d:?}");
            return Outcome::Pass;
        };
        let ParagraphChildren::QuotedBlock(blocks) = &r.elements else {
            return Outcome::Fail(format!("not quoted blocks: {r:?}"));
        };
        check!(!blocks.is_empty() && r.rest_of_wrap_up.is_empty(), "at least one block, and nothing is left over");
        // in order, everything exactly once
        let mut got = 0;
        for (i, b) in blocks.iter().enumerate() {
            check!((i == 0 || b.intro.is_none()) && (i + 1 == blocks.len() || b.wrap_up.is_none()), "intro of the first, wrap up of the last", "{d:?}: {r:?}");
            got = pack_opt(got, &b.intro);
            got = pack_lines(got, &b.lines);
            got = pack_opt(got, &b.wrap_up);
        }
        got = pack_opt(got, &r.parent_wrap_up);
        let mut want = 0;
        for x in d.iter().filter(|x| !x.empty) {
            want = pack(want, x.place);
        }
        check!(got == want, "every line exactly once, in order", "{d:?}: {r:?}");
        // a block is a whole quotation: from level 0 to level 0, without its marks
        let level_before = |i: usize| d[..i].iter().map(quotes).sum::<i8>();
        let mut before = 0;
        for b in blocks {
            let all: Vec<usize> = b.lines.iter().filter(|l| !l.is_empty()).map(place).collect();
            check!(!all.is_empty(), "a block has lines", "{d:?}: {r:?}");
            let (first, last) = (all[0], all[all.len() - 1]);
            check!(first >= before, "blocks in order");
            before = last + 1;
            check!(level_before(first) == 0 && level_before(last + 1) == 0, "a block is a whole quotation", "{d:?}: {r:?}");
            check!((first + 1..=last).all(|i| d[i].empty || level_before(i) > 0 || d[i - 1].end != 1), "one quotation is one block", "{d:?}: {r:?}");
            check!((d[first].begin == 1 || d[first].begin == 2) && d[last].end == 1, "between quotation marks", "{d:?}: {r:?}");
            for l in b.lines.iter().filter(|l| !l.is_empty()) {
                let i = place(l);
                let mut x = d[i];
                if i == first {
                    x.begin = 0;
                }
                if i == last {
                    x.end = 0;
                }
                check!(l.content() == line(&x).content(), "quoted lines are kept as they are, without the outer marks", "{d:?}: {r:?}");
            }
        }
        Outcome::Pass
    }
}
#[cfg(all(not(kani), feature = "p16"))]
pub use ghosts::*;

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::{gen, gen_raw};
    use crate::parser::mk_act_section::ActRawText;

    /// Whatever the lines are: an error, or everything that was there
    pub fn nothing_lost<S: Src>(s: &mut S) -> Outcome {
        let body = gen_raw::messy_lines(s, 24);
        let raw = ActRawText { body, ..Default::default() };
        let Ok(act) = parse_act_structure(&raw) else {
            return Outcome::Pass;
        };
        let want = gen_raw::essence_of_lines(&raw.body);
        let got = gen_raw::essence(&act.preamble) + &gen_raw::essence_of_children(&act.children);
        check!(got == want, "the text of the act", "{got} instead of {want} from {:#?}", raw.body.iter().map(|l| (l.content(), l.indent(), l.is_bold())).collect::<Vec<_>>());
        Outcome::Pass
    }
    /// Same, for texts with a regular structure
    pub fn nothing_lost_regular<S: Src>(s: &mut S) -> Outcome {
        let (_, raw) = gen_raw::act_and_text(s);
        let Ok(act) = parse_act_structure(&raw) else {
            return Outcome::Pass;
        };
        let want = gen_raw::essence_of_lines(&raw.body);
        let got = gen_raw::essence(&act.preamble) + &gen_raw::essence_of_children(&act.children);
        check!(got == want, "the text of the act", "{got} instead of {want} from {:#?}", raw.body.iter().map(|l| (l.content(), l.indent(), l.is_bold())).collect::<Vec<_>>());
        check!(act.identifier == raw.identifier && act.subject == raw.subject && act.publication_date == raw.publication_date, "what is known about the act");
        Outcome::Pass
    }
}
#[cfg(not(kani))]
pub use native::*;

/// When the next element begins, over the contract of recognising a header
#[cfg(feature = "p16")]
mod step {
    use super::*;
    use crate::identifier::IdentifierCommon;
    use crate::parser::structure::verif::*;
    use crate::structure::{ChildrenCommon, SubArticleElement};
    use crate::util::compact_string::CompactString;
    use crate::util::indentedline::{IndentedLine, IndentedLinePart, EMPTY_LINE};
    use anyhow::{anyhow, Result};

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    struct Id(u8);
    impl CompactString for Id {
        fn fmt_compact_string(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
        fn from_compact_string(_s: impl AsRef<str>) -> Result<Self> {
            Err(anyhow!("ghost"))
        }
    }
    impl IdentifierCommon for Id {
        fn is_first(&self) -> bool {
            self.0 == 1
        }
        fn is_next_from(&self, o: Self) -> bool {
            self.0 as u16 == o.0 as u16 + 1
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    struct NoChildren;
    impl ChildrenCommon for NoChildren {
        fn is_empty(&self) -> bool {
            true
        }
        fn parent_type_name() -> &'static str {
            "Ghost"
        }
    }
    /// Any kind of element: the number of the first and the second line's header
    #[derive(Debug)]
    struct Any {
        first: Option<u8>,
        second: Option<u8>,
    }
    impl SAEParser for Any {
        type IdentifierType = Id;
        type ChildrenType = NoChildren;
        fn parse_header(&self, l: &IndentedLine) -> Option<(Id, IndentedLine)> {
            let id = if l.is_bold() { self.first } else { self.second };
            id.map(|n| (Id(n), EMPTY_LINE))
        }
        fn try_extract_children(&self, _i: &Id, _p: Option<&IndentedLine>, _b: &[IndentedLine], _params: &SAEParseParams) -> Result<ExtractMultipleResult<NoChildren>> {
            Err(anyhow!("no children"))
        }
    }
    fn one(bold: bool, dx: f64) -> IndentedLine {
        IndentedLine::from_parts(vec![IndentedLinePart { dx, content: 'a', bold }], false)
    }
    #[cfg(kani)]
    fn begins(any: &Any, last: u8, depth: f64, line: &IndentedLine) -> Option<u8> {
        let r = std::mem::ManuallyDrop::new(any.parse_and_check_header(Id(last), depth, line));
        r.as_ref().map(|(id, _)| id.0)
    }
    #[cfg(not(kani))]
    fn begins(any: &Any, last: u8, depth: f64, line: &IndentedLine) -> Option<u8> {
        let params = SAEParseParams { parse_wrap_up: false, check_children_count: false, context: ParsingContext::FullAct };
        let r: ExtractMultipleResult<Vec<SubArticleElement<Id, NoChildren>>> = any.extract_multiple(&[one(true, depth), line.clone()], &params, Some(Id(last))).unwrap();
        r.elements.get(1).map(|e| e.identifier.0)
    }
    pub fn next_header<S: Src>(s: &mut S) -> Outcome {
        let last = s.u8();
        let second = if s.bool() { Some(s.u8()) } else { None };
        let (depth, indent) = (f64::from_bits(s.u64()), f64::from_bits(s.u64()));
        // a page is not that wide
        assume!(depth.abs() < 1e6 && indent.abs() < 1e6);
        let any = Any { first: Some(last), second };
        let line = std::mem::ManuallyDrop::new(one(false, indent));
        let r = begins(&any, last, depth, &line);
        let next = match second {
            Some(n) => n as u16 == last as u16 + 1,
            None => false,
        };
        if !next || indent >= depth + 2.0 {
            check!(r.is_none(), "only the header of the next one, not deeper than the first, begins an element", "{any:?} {depth} {indent}");
        } else if indent <= depth {
            check!(r == second, "the header of the next one begins it", "{any:?} {depth} {indent}");
        }
        Outcome::Pass
    }
}
#[cfg(feature = "p16")]
pub use step::next_header;

obligations! { P16:
    #[cfg(feature = "p16")]
    next_header, proved, "", "SAEParser::parse_and_check_header, IndentedLine::indent_less_or_eq", [kani::proof, kani::unwind(4)];
    #[cfg(feature = "p16")]
    quoted_blocks, standin, "up to 4 lines, beginning and ending with any kind of mark or none, or empty", "QuotedBlockParser::*", [];
    #[cfg(feature = "p16")]
    one_element, standin, "three lines: any quotes, empty lines, success of finding children anywhere, both contexts; over the contract of finding children", "SAEParser::parse", [];
    #[cfg(feature = "p16")]
    one_level, standin, "three lines: any headers, indentations, quotes, empty lines, failures and parameters, over the contract of parsing one element", "SAEParser::extract_multiple, SAEParser::parse_and_check_header", [];
    #[cfg(feature = "p16")]
    one_level_act, standin, "three lines: any headers, indentations, quotes, empty lines, failures and parameters, over the contract of parsing one element", "SAEParser::extract_multiple, SAEParser::parse_and_check_header", [];
    #[cfg(feature = "p16")]
    one_level_amendment, standin, "three lines: any headers, indentations, quotes, empty lines, failures and parameters, over the contract of parsing one element", "SAEParser::extract_multiple, SAEParser::parse_and_check_header", [];
    nothing_lost, standin, "random lines: up to 24, with headers of every kind in any place", "parse_act_structure, parse_complex_body, ArticleParser::*, SAEParser::parse, SAEParser::extract_multiple, QuotedBlockParser::*, SubtitleParser::*, StructuralElementParser::*", [];
    nothing_lost_regular, standin, "random acts of up to 5 children", "parse_act_structure, parse_complex_body, ArticleParser::*, SAEParser::parse, SAEParser::extract_multiple, QuotedBlockParser::*, SubtitleParser::*, StructuralElementParser::*", [];
}
