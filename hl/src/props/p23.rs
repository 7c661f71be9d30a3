//! P23: the lines of a PDF page show exactly what is drawn on it.
#[cfg(bare)]
use crate::bare::*;
use crate::vf::{Outcome, Src};

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen;
    use crate::gen_pdf::*;
    use crate::parser::pdf::{parse_pdf, CropBox};

    struct Want {
        /// (what, where unless it is a space, bold)
        chars: Vec<(char, Option<f64>, bool)>,
        justified: bool,
        /// an empty line has to come before it
        gap: bool,
    }
    /// None if rounding could decide it
    fn layout(drawn: &[Drawn]) -> Option<Vec<Want>> {
        let near = |a: f64, b: f64| (a - b).abs() < 0.01;
        let margin = drawn.iter().map(|d| d.x + d.width).fold(0.0, f64::max);
        let mut all = drawn.to_vec();
        all.sort_by(|a, b| b.y.partial_cmp(&a.y).unwrap());
        let mut lines: Vec<Vec<Drawn>> = vec![];
        for d in all {
            match lines.last_mut() {
                Some(l) if near(l[0].y - d.y, 0.5) => return None,
                Some(l) if l[0].y - d.y < 0.5 => l.push(d),
                _ => lines.push(vec![d]),
            }
        }
        let mut result = vec![];
        let mut above: Option<f64> = None;
        for mut l in lines {
            let top = l[0].y;
            // The distance is the one from the topmost character above
            let gap = match above {
                Some(a) if near(a - top, 16.0) => return None,
                Some(a) => a - top > 16.0,
                None => false,
            };
            above = Some(top);
            l.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap());
            let mut chars = vec![];
            for (i, d) in l.iter().enumerate() {
                if i > 0 {
                    let p = &l[i - 1];
                    if near(p.x, d.x) {
                        return None;
                    }
                    let limit = p.x + p.width + p.space * 0.5;
                    if d.c != '„' && near(d.x, limit) {
                        return None;
                    }
                    if d.x > limit || d.c == '„' {
                        chars.push((' ', None, d.bold));
                    }
                }
                chars.push((d.c, Some(d.x), d.bold));
            }
            let last = &l[l.len() - 1];
            let end = last.x + last.width + last.space * 0.8;
            if near(end, margin) {
                return None;
            }
            result.push(Want { chars, justified: end >= margin, gap });
        }
        Some(result)
    }
    fn check_page(what: &str, page: &crate::parser::pdf::PageOfLines, drawn: &[Drawn]) -> Outcome {
        let Some(want) = layout(drawn) else { return Outcome::Discard };
        let shown: Vec<&str> = page.lines.iter().map(|l| l.content()).collect();
        let text = |w: &Want| w.chars.iter().map(|c| c.0).collect::<String>();
        if want.is_empty() {
            check!(shown.iter().all(|l| l.is_empty()), "nothing is shown that was not drawn", "{shown:?} {what}");
            return Outcome::Pass;
        }
        let mut expected = vec![];
        for w in &want {
            if w.gap {
                expected.push(String::new());
            }
            expected.push(text(w));
        }
        check!(shown == expected, "the lines, words and gaps are as drawn", "expected {expected:?}, got {shown:?} {what}");
        for (w, l) in want.iter().zip(page.lines.iter().filter(|l| !l.is_empty())) {
            let parts = l.verif_parts();
            check!(l.is_justified() == w.justified, "a line is justified if it ends at the margin", "{:?} {what}", l.content());
            for (i, (_, x, bold)) in w.chars.iter().enumerate() {
                check!(parts[i].bold == *bold, "bold exactly where the font in effect is", "character {i} of {:?} {what}", l.content());
                if let Some(x) = x {
                    check!((l.indent_at(i as i64) - x).abs() < 0.02, "every character is where it was drawn", "character {i} of {:?}: {} instead of {x} {what}", l.content(), l.indent_at(i as i64));
                }
            }
        }
        Outcome::Pass
    }
    const ALL: CropBox = CropBox { bottom: -1e6, left: -1e6, top: 1e6, right: 1e6 };
    fn describe(pages: &[Page]) -> String {
        pages.iter().map(|p| format!("--- page: {:?}\n{}forms {:?}\n", p.fonts.iter().map(|f| (f.name, &f.encoding, &f.to_unicode, f.space)).collect::<Vec<_>>(), p.content, p.forms)).collect()
    }
    pub fn pages<S: Src>(s: &mut S) -> Outcome {
        let n = 1 + s.below(3);
        let pages: Vec<Page> = (0..n).map(|_| page(s, 5, false)).collect();
        let r = parse_pdf(&file(&pages), ALL);
        check!(r.is_ok(), "the document can be read", "{:.80}\n{}", format!("{:?}", r.err()), describe(&pages));
        let r = r.unwrap();
        check!(r.len() == pages.len(), "all pages, each once");
        let mut any = false;
        for (i, p) in pages.iter().enumerate() {
            match check_page("", &r[i], &p.drawn) {
                Outcome::Pass => any = true,
                Outcome::Discard => (),
                Outcome::Fail(m) => return Outcome::Fail(format!("{m} (page {})\n{}", i + 1, describe(&pages))),
            }
        }
        if any { Outcome::Pass } else { Outcome::Discard }
    }
    pub fn cropped<S: Src>(s: &mut S) -> Outcome {
        let p = page(s, 6, false);
        let crop = CropBox {
            bottom: *gen::one_of(s, &[0.0, 740.0, 770.0]),
            left: *gen::one_of(s, &[0.0, 47.0, 60.0]),
            top: *gen::one_of(s, &[1000.0, 792.0, 800.0]),
            right: *gen::one_of(s, &[1e6, 70.5, 50.2]),
        };
        let edge = |a: f64, b: f32| (a - b as f64).abs() < 0.001 && a != b as f64;
        assume!(!p.drawn.iter().any(|d| edge(d.x, crop.left) || edge(d.x, crop.right) || edge(d.y, crop.top) || edge(d.y, crop.bottom)));
        let inside: Vec<Drawn> = p
            .drawn
            .iter()
            .filter(|d| d.x >= crop.left as f64 && d.x <= crop.right as f64 && d.y >= crop.bottom as f64 && d.y <= crop.top as f64)
            .cloned()
            .collect();
        let what = format!("{crop:?}\n{}", describe(&[p.clone()]));
        let r = parse_pdf(&file(&[p]), crop);
        check!(r.is_ok(), "the document can be read", "{:.80}", format!("{:?}", r.err()));
        check_page(&what, &r.unwrap()[0], &inside)
    }
    pub fn unmapped<S: Src>(s: &mut S) -> Outcome {
        let p = page(s, 3, true);
        let r = parse_pdf(&file(&[p.clone()]), ALL);
        check!(r.is_err() == p.fails, "a code that means no character is an error, and nothing else is", "{:.80}\n{}", format!("{:?}", r.err()), describe(&[p]));
        Outcome::Pass
    }
    pub fn shown(c: char) -> char {
        let content = format!("BT\n/F0 8 Tf\n1 0 0 1 50 50 Tm\n<{:04x}> Tj\nET\n", c as u32);
        let f = FontSpec {
            name: "Times",
            cid: true,
            inline: false,
            space: 500,
            encoding: "/Identity-H".into(),
            to_unicode: vec![],
            glyphs: vec![(c as u32 as u16, String::new(), 500)],
            unmapped: 0,
        };
        let p = Page { fonts: vec![f], content, forms: vec![], drawn: vec![], fails: false };
        parse_pdf(&file(&[p]), ALL).unwrap()[0].lines[0].content().chars().next().unwrap_or(' ')
    }
    /// The characters, drawn one by one
    pub fn assemble(chars: &[(u8, u8, bool, char)]) -> Vec<crate::util::indentedline::IndentedLine> {
        let mut content = String::new();
        for (x, y, bold, c) in chars {
            content += &format!("BT\n/F{} 8 Tf\n1 0 0 1 {x} {y} Tm\n<{:02x}> Tj\nET\n", *bold as u8, if *c == '„' { 0x84 } else { *c as u32 });
        }
        lines_of(content)
    }
    pub fn lines_of(content: String) -> Vec<crate::util::indentedline::IndentedLine> {
        let font = |name| FontSpec {
            name,
            cid: false,
            inline: false,
            space: 500,
            encoding: "/WinAnsiEncoding".into(),
            to_unicode: vec![],
            glyphs: [0x61, 0x62, 0x63, 0x84].map(|c| (c, String::new(), 500)).to_vec(),
            unmapped: 0,
        };
        let p = Page { fonts: vec![font("Times"), font("Times-Bold")], content, forms: vec![], drawn: vec![], fails: false };
        parse_pdf(&file(&[p]), ALL).unwrap().remove(0).lines
    }
}
#[cfg(not(kani))]
pub use native::*;

#[cfg(kani)]
fn shown(c: char) -> char {
    crate::pdf_parts::util::fix_character_coding_quirks(c)
}
/// What a character looks like on the page
pub fn quirks<S: Src>(s: &mut S) -> Outcome {
    let Some(c) = char::from_u32(s.u32() % 0x110000) else { return Outcome::Discard };
    #[cfg(not(kani))]
    assume!((c as u32) < 0xffff && c as u32 != 0 && !c.is_whitespace());
    let want = match c {
        'õ' => 'ő',
        'Õ' => 'Ő',
        'û' => 'ű',
        'Û' => 'Ű',
        c => c,
    };
    check!(shown(c) == want, "characters are shown as they are, but for four Hungarian ones some fonts do not have", "{c:?} as {:?}", shown(c));
    Outcome::Pass
}
/// Which of two characters comes first on its line
#[cfg(kani)]
fn first(a: f32, b: f32) -> bool {
    crate::pdf_parts::util::compare_float_for_sorting(a, b).is_lt()
}
#[cfg(not(kani))]
fn first(a: f32, b: f32) -> bool {
    let content = format!("BT\n/F0 0.001 Tf\n1 0 0 1 {a} 50 Tm\n<61> Tj\nET\nBT\n/F0 0.001 Tf\n1 0 0 1 {b} 50 Tm\n<62> Tj\nET\n");
    lines_of(content)[0].content().starts_with('a')
}
pub fn left_to_right<S: Src>(s: &mut S) -> Outcome {
    let (a, b) = (f32::from_bits(s.u32()), f32::from_bits(s.u32()));
    assume!(a.is_finite() && b.is_finite() && a != b);
    #[cfg(not(kani))]
    assume!(a.abs() < 1e5 && b.abs() < 1e5 && (a - b).abs() > 1e-2);
    check!(first(a, b) == (a < b), "the one to the left is first", "{a} {b}");
    check!(first(b, a) == (b < a), "the one to the left is first", "{b} {a}");
    Outcome::Pass
}
#[cfg(not(kani))]
mod two {
use super::*;
/// Two characters of the same height: one line, left to right
pub fn side_by_side<S: Src>(s: &mut S) -> Outcome {
    let (x1, b1) = (s.u8(), s.bool());
    let (x2, b2) = (s.u8(), s.bool());
    assume!(x1 != x2);
    let lines = assemble(&[(x1, 100, b1, 'a'), (x2, 100, b2, 'b')]);
    let (p, q) = if x1 < x2 { ((x1, b1, 'a'), (x2, b2, 'b')) } else { ((x2, b2, 'b'), (x1, b1, 'a')) };
    check!(lines.len() == 1, "the same height is the same line");
    let parts = lines[0].verif_parts();
    // more than half of a space wide
    let space = q.0 as u16 > p.0 as u16 + 6;
    check!(parts.len() == 2 + space as usize, "and nothing but a space where there is a gap");
    check!(parts[0].content == p.2 && parts[0].bold == p.1, "left to right");
    check!(!space || parts[1].content == ' ', "the gap is a space");
    let l = parts.len() - 1;
    check!(parts[l].content == q.2 && parts[l].bold == q.1, "left to right");
    check!(lines[0].indent() == p.0 as f64, "where it was drawn");
    check!(lines[0].is_justified(), "the longest line ends at the margin");
    Outcome::Pass
}
/// Two characters of different heights: two lines, top to bottom
pub fn one_above<S: Src>(s: &mut S) -> Outcome {
    let (y1, b1) = (s.u8(), s.bool());
    let (y2, b2) = (s.u8(), s.bool());
    assume!(y1 != y2);
    let lines = assemble(&[(40, y1, b1, 'a'), (44, y2, b2, 'b')]);
    let (p, q) = if y1 > y2 { ((40, y1, b1, 'a'), (44, y2, b2, 'b')) } else { ((44, y2, b2, 'b'), (40, y1, b1, 'a')) };
    let gap = p.1 as u16 > q.1 as u16 + 16;
    check!(lines.len() == 2 + gap as usize, "a big gap is an empty line");
    check!(!gap || lines[1].is_empty(), "a big gap is an empty line");
    let l = lines.len() - 1;
    for (i, c) in [(0, p), (l, q)] {
        let parts = lines[i].verif_parts();
        check!(parts.len() == 1 && parts[0].content == c.3 && parts[0].bold == c.2, "top to bottom");
        check!(lines[i].indent() == c.0 as f64, "where it was drawn");
        // 0.8 of a space is 3.2
        check!(lines[i].is_justified() == (c.0 == 44), "justified if it ends at the margin");
    }
    Outcome::Pass
}

}
#[cfg(not(kani))]
pub use two::{one_above, side_by_side};

obligations! { P23:
    quirks, proved, "", "fix_character_coding_quirks", [kani::proof];
    left_to_right, proved, "", "compare_float_for_sorting", [kani::proof];
    side_by_side, standin, "two characters of the same height, at any of 256 places each", "PageOfLines::try_from, consolidate_line, compare_float_for_sorting", [];
    one_above, standin, "two characters at any of 256 heights each", "PageOfLines::try_from, consolidate_line, compare_float_for_sorting", [];
    pages, standin, "up to 3 pages of up to 5 stretches of text, 3 fonts of 6 kinds each, all text operators", "parse_pdf, PageRenderer, TextState, FontCache, FastFont, CharCollector, ActualTextCollector, PageOfLines::try_from", [];
    cropped, standin, "one page of up to 6 stretches of text, 81 crop boxes", "parse_pdf, CropBox::is_inside", [];
    unmapped, standin, "one page of up to 3 stretches of text", "parse_pdf, FastFont::to_unicode", [];
}
