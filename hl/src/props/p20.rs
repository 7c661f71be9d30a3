//! P20: text output shows everything, at any width, and never fails.
#[cfg(bare)]
use crate::bare::*;
use crate::gen;
use crate::output::text::*;
use crate::reference::Reference;
use crate::semantic_info::OutgoingReference;
use crate::vf::{Outcome, Src};

/// Cutting a text at its references for colouring: the pieces are the text, and the
/// references are the marked ones
#[cfg(feature = "p20")]
pub fn split<S: Src>(s: &mut S) -> Outcome {
    let text = "abcdefgh";
    let mut at = [0usize; 4];
    let mut i = 0;
    let mut low = 0;
    while i < 4 {
        let x = s.below(9) as usize;
        assume!(x >= low);
        at[i] = x;
        low = x;
        i += 1;
    }
    // how many references there are; two (that may be empty) for the verifier
    let n = if cfg!(kani) { 2 } else { s.below(3) as usize };
    let mut refs = Vec::with_capacity(2);
    let mut i = 0;
    while i < n {
        refs.push(OutgoingReference { start: at[2 * i], end: at[2 * i + 1], reference: Reference::default() });
        i += 1;
    }
    let r = verif_split_string_at_references(text, &refs);
    let mut pos = 0;
    let mut i = 0;
    let mut marked = 0;
    while i < r.len() {
        let (piece, is_ref) = r[i];
        // pieces are consecutive parts of the text itself
        check!(piece.len() == 0 || piece.as_ptr() as usize == text.as_ptr() as usize + pos, "pieces follow each other", "{at:?}: {r:?}");
        if is_ref {
            check!(marked < n && pos == at[2 * marked] && pos + piece.len() == at[2 * marked + 1], "a reference is marked", "{at:?}: {r:?}");
            marked += 1;
        }
        pos += piece.len();
        i += 1;
    }
    check!(pos == text.len(), "the pieces are the whole text", "{at:?}: {r:?}");
    check!(marked == n, "every reference is marked", "{at:?}: {r:?}");
    std::mem::forget(refs);
    std::mem::forget(r);
    Outcome::Pass
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen_act;
    use crate::identifier::IdentifierCommon;
    use crate::output::{CliOutput, OutputFormat};
    use crate::parser::mk_act_section::ActRawText;
    use crate::parser::pdf::PageOfLines;
    use crate::structure::*;
    use crate::util::indentedline::IndentedLine;
    use crate::util::walker::{SAEVisitorMut, WalkSAEMut};

    fn squeeze(t: &str) -> String {
        t.chars().filter(|c| !c.is_whitespace()).collect()
    }
    fn no_escapes(t: &str) -> String {
        let mut r = String::new();
        let mut it = t.chars();
        while let Some(c) = it.next() {
            if c == '\x1b' {
                for c in it.by_ref() {
                    if c == 'm' {
                        break;
                    }
                }
            } else {
                r.push(c);
            }
        }
        r
    }
    // ---- what a reader has to find, in order
    fn sae<I: IdentifierCommon, C: ChildrenCommon>(h: String, e: &SubArticleElement<I, C>, out: &mut String, f: impl FnOnce(&C, &mut String)) {
        out.push_str(&h);
        match &e.body {
            SAEBody::Text(t) => out.push_str(t),
            SAEBody::Children { intro, children, wrap_up } => {
                out.push_str(intro);
                f(children, out);
                out.push_str(wrap_up.as_deref().unwrap_or(""));
            }
        }
    }
    fn asp(e: &AlphabeticSubpoint, out: &mut String) {
        sae(format!("{})", e.identifier), e, out, |_, _| ())
    }
    fn nsp(e: &NumericSubpoint, out: &mut String) {
        sae(format!("{}.", e.identifier), e, out, |_, _| ())
    }
    fn ap(e: &AlphabeticPoint, out: &mut String) {
        sae(format!("{})", e.identifier), e, out, |c, out| match c {
            AlphabeticPointChildren::AlphabeticSubpoint(v) => v.iter().for_each(|x| asp(x, out)),
            AlphabeticPointChildren::NumericSubpoint(v) => v.iter().for_each(|x| nsp(x, out)),
        })
    }
    fn np(e: &NumericPoint, out: &mut String) {
        sae(format!("{}.", e.identifier), e, out, |c, out| match c {
            NumericPointChildren::AlphabeticSubpoint(v) => v.iter().for_each(|x| asp(x, out)),
        })
    }
    fn par(e: &Paragraph, out: &mut String) {
        let h = if e.identifier.is_empty() { String::new() } else { format!("({})", e.identifier) };
        sae(h, e, out, |c, out| match c {
            ParagraphChildren::AlphabeticPoint(v) => v.iter().for_each(|x| ap(x, out)),
            ParagraphChildren::NumericPoint(v) => v.iter().for_each(|x| np(x, out)),
            ParagraphChildren::QuotedBlock(v) => v.iter().for_each(|q| {
                out.push_str(q.intro.as_deref().unwrap_or(""));
                out.push('„');
                q.lines.iter().for_each(|l| out.push_str(l.content()));
                out.push('”');
                out.push_str(q.wrap_up.as_deref().unwrap_or(""));
            }),
            ParagraphChildren::BlockAmendment(b) => around(&b.intro, &b.wrap_up, out, |out| match &b.children {
                BlockAmendmentChildren::Paragraph(v) => v.iter().for_each(|x| par(x, out)),
                BlockAmendmentChildren::AlphabeticPoint(v) => v.iter().for_each(|x| ap(x, out)),
                BlockAmendmentChildren::NumericPoint(v) => v.iter().for_each(|x| np(x, out)),
                BlockAmendmentChildren::AlphabeticSubpoint(v) => v.iter().for_each(|x| asp(x, out)),
                BlockAmendmentChildren::NumericSubpoint(v) => v.iter().for_each(|x| nsp(x, out)),
            }),
            ParagraphChildren::StructuralBlockAmendment(b) => around(&b.intro, &b.wrap_up, out, |out| children(&b.children, out)),
        })
    }
    fn around(intro: &Option<String>, wrap_up: &Option<String>, out: &mut String, f: impl FnOnce(&mut String)) {
        if let Some(t) = intro {
            out.push_str(&format!("({t})"));
        }
        out.push('„');
        f(out);
        out.push('”');
        if let Some(t) = wrap_up {
            out.push_str(&format!("({t})"));
        }
    }
    fn children(v: &[ActChild], out: &mut String) {
        for c in v {
            match c {
                ActChild::StructuralElement(x) => {
                    out.push_str(&x.header_string().unwrap());
                    out.push_str(&x.title);
                }
                ActChild::Subtitle(x) => {
                    if let Some(i) = x.identifier {
                        let (n, suffix) = i.verif_parts();
                        out.push_str(&n.to_string());
                        if let Some(l) = suffix {
                            out.push_str(&format!("/{}", l.to_string().to_uppercase()));
                        }
                        out.push('.');
                    }
                    out.push_str(&x.title);
                }
                ActChild::Article(x) => {
                    out.push_str(&format!("{}. §", x.identifier));
                    if let Some(t) = &x.title {
                        out.push_str(&format!("[{t}]"));
                    }
                    x.children.iter().for_each(|p| par(p, out));
                }
            }
        }
    }
    fn whole(act: &Act) -> String {
        let mut want = format!("{}{}{}", act.identifier, act.subject, act.preamble);
        children(&act.children, &mut want);
        want
    }
    /// Everything in it, in order, nothing else, whatever the width
    pub fn complete<S: Src>(s: &mut S) -> Outcome {
        let act = gen_act::act(s);
        let width = *gen::one_of(s, &[80usize, 120, 40, 20, 9, 5, 1, 0, 100000]);
        let (format, plain) = *gen::one_of(s, &[(OutputFormat::Plain, true), (OutputFormat::Colored, false), (OutputFormat::TestPlain, true)]);
        let want = squeeze(&whole(&act));
        let mut out = vec![];
        let r = act.clone().cli_output(width, format, &mut out);
        check!(r.is_ok(), "printing works", "width {width}: {r:?}");
        let text = String::from_utf8(out);
        check!(text.is_ok(), "printed text is UTF-8");
        let text = text.unwrap();
        let got = if plain { squeeze(&text) } else { no_escapes(&squeeze(&text)) };
        check!(got == want, "the printed text", "{got} instead of {want}");
        Outcome::Pass
    }
    /// Elements stand below each other: a header begins its line
    pub fn headers_begin_lines<S: Src>(s: &mut S) -> Outcome {
        let act = gen_act::act(s);
        let mut out = vec![];
        let r = act.clone().cli_output(100000, OutputFormat::Plain, &mut out);
        check!(r.is_ok(), "printing works", "{r:?}");
        let text = String::from_utf8(out).unwrap();
        let lines: Vec<&str> = text.lines().collect();
        let mut at = 0;
        // Every level is five columns further in than the one above
        let mut find = |h: &str, level: usize| {
            let h = format!("{}{h}", " ".repeat(5 * level));
            match lines[at..].iter().position(|l| l.starts_with(&h)) {
                Some(i) => {
                    at += i;
                    Outcome::Pass
                }
                None => Outcome::Fail(format!("no line begins with {h:?}: {text}")),
            }
        };
        let mut headers = vec![];
        for a in act.articles() {
            headers.push((format!("{}. §", a.identifier), 1));
            for (i, p) in a.children.iter().enumerate() {
                if !p.identifier.is_empty() && (i > 0 || a.title.is_some()) {
                    headers.push((format!("({})", p.identifier), 3));
                }
                let SAEBody::Children { children, .. } = &p.body else { continue };
                match children {
                    ParagraphChildren::AlphabeticPoint(x) => x.iter().for_each(|p| {
                        headers.push((format!("{})", p.identifier), 4));
                        match &p.body {
                            SAEBody::Children { children: AlphabeticPointChildren::AlphabeticSubpoint(x), .. } => x.iter().for_each(|p| headers.push((format!("{})", p.identifier), 5))),
                            SAEBody::Children { children: AlphabeticPointChildren::NumericSubpoint(x), .. } => x.iter().for_each(|p| headers.push((format!("{}.", p.identifier), 5))),
                            _ => (),
                        }
                    }),
                    ParagraphChildren::NumericPoint(x) => x.iter().for_each(|p| {
                        headers.push((format!("{}.", p.identifier), 4));
                        match &p.body {
                            SAEBody::Children { children: NumericPointChildren::AlphabeticSubpoint(x), .. } => x.iter().for_each(|p| headers.push((format!("{})", p.identifier), 5))),
                            _ => (),
                        }
                    }),
                    _ => (),
                }
            }
        }
        for (h, level) in headers {
            match find(&h, level) {
                Outcome::Pass => (),
                fail => return fail,
            }
        }
        Outcome::Pass
    }
    /// Takes so many bytes, and then fails (once, or from then on)
    struct Short(Vec<u8>, usize, bool);
    impl std::io::Write for Short {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let n = b.len().min(self.1);
            self.1 -= n;
            self.0.extend(&b[..n]);
            if n == 0 && !b.is_empty() {
                if self.2 {
                    self.1 = usize::MAX;
                }
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
            }
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    fn cut<S: Src>(s: &mut S, x: impl CliOutput + Clone) -> Outcome {
        let format = *gen::one_of(s, &[OutputFormat::Plain, OutputFormat::Colored, OutputFormat::TestPlain, OutputFormat::Json, OutputFormat::Yaml]);
        let mut out = vec![];
        let r = x.clone().cli_output(80, format, &mut out);
        check!(r.is_ok(), "printing works", "{r:?}");
        if out.is_empty() {
            return Outcome::Discard;
        }
        let room = ((s.u16() as usize) << 8 | s.u8() as usize) % out.len();
        let once = s.bool();
        let mut w = Short(vec![], room, once);
        let r = x.cli_output(80, format, &mut w);
        check!(r.is_err(), "an output that can not be written whole is an error", "room for {room} of {} bytes, {format:?}", out.len());
        check!(once || w.0 == out[..room], "and begins like the whole", "{format:?}");
        Outcome::Pass
    }
    /// An output that can not be written is an error
    pub fn write_errors<S: Src>(s: &mut S) -> Outcome {
        match s.below(4) {
            0 => {
                let body = gen_act::list(s, 5, any_line);
                let subject = gen_act::text(s);
                cut(s, ActRawText { body, subject, ..Default::default() })
            }
            _ => {
                let a = gen_act::act(s);
                cut(s, a)
            }
        }
    }
    /// Wrapped text keeps to the width
    pub fn fits<S: Src>(s: &mut S) -> Outcome {
        let act = gen_act::act(s);
        let width = *gen::one_of(s, &[80usize, 120, 60, 40, 36]);
        let mut out = vec![];
        let r = act.clone().cli_output(width, OutputFormat::Plain, &mut out);
        check!(r.is_ok(), "printing works", "{r:?}");
        let text = String::from_utf8(out).unwrap();
        // Headers and quoted lines are not wrapped
        let long = |n: usize, room: usize| n.saturating_sub(room);
        let quoted: Vec<&str> = act
            .articles()
            .flat_map(|a| &a.children)
            .filter_map(|p| match &p.body {
                SAEBody::Children { children: ParagraphChildren::QuotedBlock(q), .. } => Some(q),
                _ => None,
            })
            .flatten()
            .flat_map(|q| &q.lines)
            .map(|l| l.content().trim())
            .collect();
        let mut headers = vec![];
        let _ = act.clone().walk_saes_mut(&mut Headers(&mut headers));
        let excess: usize = headers.iter().copied().max().unwrap_or(0) * 3 + act.articles().map(|a| long(format!("{}. §", a.identifier).chars().count(), 10)).max().unwrap_or(0);
        if act.articles().flat_map(|a| &a.children).any(|p| {
            matches!(&p.body, SAEBody::Children { children: ParagraphChildren::BlockAmendment(_) | ParagraphChildren::StructuralBlockAmendment(_), .. })
        }) {
            return Outcome::Discard;
        }
        // nor is the name of the act
        for l in text.lines().skip(1) {
            check!(l.chars().count() <= width + excess || quoted.contains(&l.trim()), "no line is longer than the width", "{} for {width}+{excess}: {l}", l.chars().count());
        }
        Outcome::Pass
    }
    struct Headers<'a>(&'a mut Vec<usize>);
    impl SAEVisitorMut for Headers<'_> {
        fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, _: &crate::reference::Reference, e: &mut SubArticleElement<IT, CT>) -> anyhow::Result<()> {
            // "(" ")" around, one space after
            self.0.push((crate::util::compact_string::CompactString::compact_string(&e.identifier).to_string().chars().count() + 3).saturating_sub(5));
            Ok(())
        }
        fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, _: &crate::reference::Reference, _: &mut SubArticleElement<IT, CT>) -> anyhow::Result<()> {
            Ok(())
        }
    }
    /// Colours: references, and nothing in plain text
    pub fn coloured<S: Src>(s: &mut S) -> Outcome {
        let act = gen_act::act(s);
        let mut out = vec![];
        let r = act.clone().cli_output(100000, OutputFormat::Colored, &mut out);
        check!(r.is_ok(), "printing works", "{r:?}");
        let text = String::from_utf8(out).unwrap();
        let mut refs = vec![];
        let _ = act.clone().walk_saes_mut(&mut Refs(&mut refs));
        let mut at = 0;
        for r in &refs {
            let marked = format!("\x1b[36m{r}\x1b[0m");
            match text[at..].find(&marked) {
                Some(i) => at += i + marked.len(),
                None => return Outcome::Fail(format!("the reference {r:?} is not coloured in {text:?}")),
            }
        }
        for format in [OutputFormat::Plain, OutputFormat::TestPlain] {
            let mut out = vec![];
            let r = act.clone().cli_output(80, format, &mut out);
            check!(r.is_ok() && !out.contains(&0x1b), "plain text has no colours", "{format:?}");
        }
        Outcome::Pass
    }
    struct Refs<'a>(&'a mut Vec<String>);
    impl SAEVisitorMut for Refs<'_> {
        fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, _: &crate::reference::Reference, e: &mut SubArticleElement<IT, CT>) -> anyhow::Result<()> {
            let t = match &e.body {
                SAEBody::Text(t) => t,
                SAEBody::Children { intro, .. } => intro,
            };
            for r in &e.semantic_info.outgoing_references {
                self.0.push(t[r.start..r.end].to_string());
            }
            Ok(())
        }
        fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, _: &crate::reference::Reference, _: &mut SubArticleElement<IT, CT>) -> anyhow::Result<()> {
            Ok(())
        }
    }
    /// Several pages: each after its number
    pub fn pages<S: Src>(s: &mut S) -> Outcome {
        let pages: Vec<Vec<IndentedLine>> = gen_act::list(s, 3, |s| gen_act::list(s, 3, any_line));
        let testing = s.bool();
        let format = if testing { OutputFormat::TestPlain } else { OutputFormat::Plain };
        let mut out = vec![];
        let all: Vec<PageOfLines> = pages.iter().map(|l| PageOfLines { lines: l.clone() }).collect();
        let r = all.cli_output(80, format, &mut out);
        check!(r.is_ok(), "printing works", "{r:?}");
        let text = String::from_utf8(out).unwrap();
        let mut rest: &str = &text;
        for (i, p) in pages.iter().enumerate() {
            let mark = format!("page {}/{}", i + 1, pages.len());
            let at = rest.find(&mark);
            check!(at.is_some(), "every page is numbered", "{mark} in {text:?}");
            rest = &rest[at.unwrap() + mark.len()..];
            rest = &rest[rest.find('\n').unwrap_or(rest.len())..];
            let mut out = vec![];
            let _ = PageOfLines { lines: p.clone() }.cli_output(80, format, &mut out);
            let out = String::from_utf8(out).unwrap();
            let body = rest.trim_start_matches('\n');
            check!(body.starts_with(out.trim_start_matches('\n')), "the page's lines", "{out:?} in {text:?}");
            rest = &rest[rest.len() - body.len() + out.trim_start_matches('\n').len()..];
        }
        check!(rest.trim().is_empty(), "and nothing else", "{text:?}");
        Outcome::Pass
    }
    fn any_line<S: Src>(s: &mut S) -> IndentedLine {
        if s.below(5) == 0 {
            return gen::line(s, 5, &['a', ' ', 'é', '„']);
        }
        let l = gen_act::line(s);
        IndentedLine::from_parts(l.verif_parts().to_vec(), s.bool())
    }
    /// Pages and raw acts: line by line
    pub fn raw<S: Src>(s: &mut S) -> Outcome {
        let lines: Vec<IndentedLine> = gen_act::list(s, 5, any_line);
        let testing = s.bool();
        let format = if testing { OutputFormat::TestPlain } else { OutputFormat::Plain };
        let mut out = vec![];
        let skip;
        if s.bool() {
            skip = 3;
            let act = ActRawText { body: lines.clone(), subject: gen_act::text(s), ..Default::default() };
            let subject = act.subject.clone();
            let r = act.cli_output(80, format, &mut out);
            check!(r.is_ok(), "printing works", "{r:?}");
            check!(String::from_utf8_lossy(&out).contains(&subject), "the subject is shown");
        } else {
            skip = 0;
            let r = PageOfLines { lines: lines.clone() }.cli_output(80, format, &mut out);
            check!(r.is_ok(), "printing works", "{r:?}");
        }
        let text = String::from_utf8(out).unwrap();
        let got: Vec<&str> = text.split('\n').skip(skip).collect();
        check!(got.len() == lines.len() + 1 && got[lines.len()].is_empty(), "one line for each line", "{got:?} for {lines:?}");
        for (l, t) in lines.iter().zip(&got) {
            let mut t: &str = t;
            if testing {
                let bold = t.starts_with("<BOLD>");
                check!(bold == l.is_bold(), "bold lines are marked", "{t}");
                t = if bold { &t[6..] } else { t };
                let nj = t.starts_with("<NJ>");
                check!(nj == !l.is_justified(), "unjustified lines are marked", "{t}");
                t = if nj { &t[4..] } else { t };
            }
            if !testing && !l.content().starts_with(' ') {
                let spaces = t.len() - t.trim_start().len();
                check!(l.is_empty() || spaces == (l.indent() / 5.0 + 1e-9) as usize, "indented by a fifth", "{spaces} for {}", l.indent());
            }
            check!(t.trim_start() == l.content().trim_start(), "the line itself", "{t:?} instead of {:?}", l.content());
        }
        Outcome::Pass
    }
}
#[cfg(not(kani))]
pub use native::*;

obligations! { P20:
    #[cfg(feature = "p20")]
    split, bounded, "an 8 character text, two references anywhere in it", "split_string_at_references", [kani::proof, kani::unwind(6)];
    complete, standin, "random acts of up to 4 children, widths 0 to 100000, three formats", "TextOutput::* , TextOutputParams::*, CliOutput for Act", [];
    headers_begin_lines, standin, "random acts of up to 4 children", "TextOutput::*, TextOutputParams::*", [];
    raw, standin, "up to 5 random lines", "CliOutput for ActRawText, PageOfLines, quick_display_indented_line", [];
    pages, standin, "up to 3 pages of up to 3 lines", "CliOutput for Vec<PageOfLines>", [];
    fits, standin, "random acts of up to 4 children, three widths", "TextOutput::*, TextOutputParams::*", [];
    coloured, standin, "random acts of up to 4 children", "TextOutput::*, TextOutputParams::colorize, colorize_sae_string", [];
    write_errors, standin, "random acts and raw texts, all five formats, any place", "TextOutput::*, TextOutputParams::*, CliOutput::cli_output", [];
}
