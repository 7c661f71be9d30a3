//! Random acts (native side only).
#[cfg(bare)]
use crate::bare::*;
use std::collections::BTreeMap;

use chrono::NaiveDate;

use crate::gen;
use crate::identifier::range::{IdentifierRange, IdentifierRangeFrom};
use crate::identifier::*;
use crate::reference::structural::*;
use crate::reference::Reference;
use crate::semantic_info::{self, *};
use crate::spec;
use crate::structure::*;
use crate::structure::{BlockAmendment, StructuralBlockAmendment};
use crate::util::indentedline::IndentedLine;
use crate::vf::Src;

/// Includes what YAML and JSON treat specially, and Hungarian legal text
pub const TEXTS: &[&str] = &[
    "A törvény célja a tesztelés.",
    "a következő",
    "és",
    "kis- és nagykereskedelem",
    "12. § (3) bekezdés a) pontja",
    "123",
    "true",
    "null",
    "~",
    "- lista",
    "kulcs: érték",
    "# nem megjegyzés",
    "\"idézett\"",
    "'aposztróf'",
    "{a: b}",
    "[1, 2]",
    "2012-01-01",
    "1.5",
    "0x10",
    "„A módosított szöveg”",
    "hosszú, nagyon hosszú szöveg, amelyet több sorba kell tördelni, mert egyetlen sorban semmiképpen nem fér el, bármennyire is szeretnénk azt",
    "vége.",
    "@x",
    "%y",
    "| z",
    "> w",
    "&a *b !c",
    "yes",
    "1e3",
    "\\ \t vége",
];
pub fn text<S: Src>(s: &mut S) -> String {
    let a = gen::one_of(s, TEXTS).to_string();
    if s.below(4) == 0 {
        a + " " + &**gen::one_of(s, TEXTS)
    } else {
        a
    }
}
/// No leading or trailing blanks or tabs in it; never empty
pub fn opt_text<S: Src>(s: &mut S) -> Option<String> {
    gen::opt(s, text)
}
pub fn date<S: Src>(s: &mut S) -> NaiveDate {
    NaiveDate::from_ymd_opt(1980 + s.below(60) as i32, 1 + s.below(12) as u32, 1 + s.below(28) as u32).unwrap()
}
pub fn reference<S: Src>(s: &mut S) -> Reference {
    let mut p = gen::parts(s);
    // make it well formed: close gaps from above, keep only the last range
    if p.4.is_some() && p.3.is_none() {
        p.4 = None;
    }
    if let Some(crate::reference::parts::RefPartSubpoint::Alphabetic(r)) = p.4 {
        let latin = |x: PrefixedAlphabeticIdentifier| {
            let (a, b) = x.verif_parts();
            let l = |c: HungarianIdentifierChar| if spec::is_latin(c) { c } else { HungarianIdentifierChar::Latin(b'k') };
            PrefixedAlphabeticIdentifier::verif_new(a.map(l), l(b))
        };
        p.4 = Some(crate::reference::parts::RefPartSubpoint::Alphabetic(IdentifierRange::from_range(
            latin(r.first_in_range()),
            latin(r.last_in_range()),
        )));
    }
    if (p.2.is_some() || p.3.is_some()) && p.0.is_some() && p.1.is_none() {
        p.1 = Some(IdentifierRange::from_single(ArticleIdentifier::from(5)));
    }
    if !spec::valid(&p) {
        p = spec::endpoint(&p, false);
    }
    if !spec::valid(&p) {
        p = (p.0, p.1, None, None, None);
    }
    Reference::verif_new(p)
}
pub fn structural_reference<S: Src>(s: &mut S) -> StructuralReference {
    let n = gen::numeric(s);
    let r = gen::range(s, gen::numeric);
    StructuralReference {
        act: gen::opt(s, gen::act),
        book: gen::opt(s, gen::numeric),
        parent: gen::opt(s, |s| match s.below(6) {
            0 => StructuralReferenceParent::Part(n),
            1 => StructuralReferenceParent::Title(n),
            2 => StructuralReferenceParent::Chapter(n),
            3 => StructuralReferenceParent::SubtitleId(n),
            4 => StructuralReferenceParent::SubtitleRange(r),
            _ => StructuralReferenceParent::SubtitleTitle(text(s)),
        }),
        structural_element: match s.below(11) {
            0 => StructuralReferenceElement::Part(n),
            1 => StructuralReferenceElement::Title(n),
            2 => StructuralReferenceElement::Chapter(n),
            3 => StructuralReferenceElement::SubtitleId(n),
            4 => StructuralReferenceElement::SubtitleRange(r),
            5 => StructuralReferenceElement::SubtitleTitle(text(s)),
            6 => StructuralReferenceElement::SubtitleAfterArticle(gen::article(s)),
            7 => StructuralReferenceElement::SubtitleBeforeArticle(gen::article(s)),
            8 => StructuralReferenceElement::SubtitleBeforeArticleInclusive(gen::article(s)),
            9 => StructuralReferenceElement::SubtitleUnknown,
            _ => StructuralReferenceElement::Article(gen::range(s, gen::article)),
        },
        title_only: s.bool(),
    }
}
pub fn special_phrase<S: Src>(s: &mut S) -> SpecialPhrase {
    match s.below(5) {
        0 => SpecialPhrase::BlockAmendment(semantic_info::BlockAmendment { position: reference(s), pure_insertion: s.bool() }),
        1 => SpecialPhrase::EnforcementDate(EnforcementDate {
            positions: list(s, 2, reference),
            structural_positions: list(s, 2, structural_reference),
            is_default: s.bool(),
            date: match s.below(3) {
                0 => EnforcementDateType::Date(date(s)),
                1 => EnforcementDateType::DaysAfterPublication(s.u16()),
                _ => EnforcementDateType::DayInMonthAfterPublication { month: gen::opt(s, |s| s.u8()), day: s.u16() },
            },
            inline_repeal: gen::opt(s, date),
        }),
        2 => SpecialPhrase::Repeal(list(s, 2, |s| {
            if s.bool() {
                RepealReference::Reference(reference(s))
            } else {
                RepealReference::StructuralReference(structural_reference(s))
            }
        })),
        3 => SpecialPhrase::TextAmendment(list(s, 2, |s| TextAmendment {
            reference: match s.below(3) {
                0 => TextAmendmentReference::SAE {
                    reference: reference(s),
                    amended_part: match s.below(3) {
                        0 => TextAmendmentSAEPart::All,
                        1 => TextAmendmentSAEPart::IntroOnly,
                        _ => TextAmendmentSAEPart::WrapUpOnly,
                    },
                },
                1 => TextAmendmentReference::Structural(structural_reference(s)),
                _ => TextAmendmentReference::ArticleTitle(reference(s)),
            },
            from: text(s),
            to: text(s),
        })),
        _ => SpecialPhrase::StructuralBlockAmendment(semantic_info::StructuralBlockAmendment {
            position: structural_reference(s),
            pure_insertion: s.bool(),
        }),
    }
}
/// Semantic info of an element with the given text: sorted, non-overlapping references in it
pub fn semantic<S: Src>(s: &mut S, text: &str) -> SemanticInfo {
    if s.below(4) != 0 {
        return SemanticInfo::default();
    }
    let bounds: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
    let mut refs = vec![];
    let mut i = 0;
    while refs.len() < 3 && i < bounds.len() {
        let a = i + s.below(12) as usize;
        let b = a + s.below(8) as usize;
        if b >= bounds.len() || s.below(3) == 0 {
            break;
        }
        refs.push(OutgoingReference { start: bounds[a], end: bounds[b], reference: reference(s) });
        i = b;
    }
    let mut abbr = BTreeMap::new();
    if s.below(3) == 0 {
        abbr.insert(text_key(s), gen::act(s));
    }
    SemanticInfo {
        outgoing_references: refs,
        new_abbreviations: abbr,
        special_phrase: if s.below(3) == 0 { Some(special_phrase(s)) } else { None },
    }
}
fn text_key<S: Src>(s: &mut S) -> String {
    gen::one_of(s, &["Tv.", "Ptk.", "a: b", "1", "null"]).to_string()
}
pub fn list<S: Src, T>(s: &mut S, max: u8, mut f: impl FnMut(&mut S) -> T) -> Vec<T> {
    let n = s.below(max + 1);
    (0..n).map(|_| f(s)).collect()
}
fn list1<S: Src, T>(s: &mut S, max: u8, mut f: impl FnMut(&mut S) -> T) -> Vec<T> {
    let n = 1 + s.below(max);
    (0..n).map(|_| f(s)).collect()
}
fn change<S: Src>(s: &mut S) -> Option<LastChange> {
    if s.below(5) != 0 {
        return None;
    }
    Some(LastChange {
        date: date(s),
        cause: match s.below(3) {
            0 => ChangeCause::Amendment(reference(s)),
            1 => ChangeCause::AutoRepeal,
            _ => ChangeCause::Other(text(s)),
        },
    })
}
fn sae<S: Src, I: IdentifierCommon, C: ChildrenCommon>(
    s: &mut S,
    id: I,
    children: impl FnOnce(&mut S) -> Option<C>,
) -> SubArticleElement<I, C> {
    let t = text(s);
    let semantic_info = semantic(s, &t);
    let body = match children(s) {
        Some(children) => SAEBody::Children { intro: t, children, wrap_up: opt_text(s) },
        None => SAEBody::Text(t),
    };
    SubArticleElement { identifier: id, body, semantic_info, last_change: change(s) }
}
fn latin_prefixed<S: Src>(s: &mut S) -> PrefixedAlphabeticIdentifier {
    let p = gen::opt(s, gen::latin);
    PrefixedAlphabeticIdentifier::verif_new(p, gen::latin(s))
}
pub fn alphabetic_subpoint<S: Src>(s: &mut S) -> AlphabeticSubpoint {
    let id = latin_prefixed(s);
    sae(s, id, |_| None)
}
pub fn numeric_subpoint<S: Src>(s: &mut S) -> NumericSubpoint {
    let id = gen::numeric(s);
    sae(s, id, |_| None)
}
pub fn alphabetic_point<S: Src>(s: &mut S) -> AlphabeticPoint {
    let id = gen::letter(s);
    sae(s, id, |s| match s.below(5) {
        0 => Some(AlphabeticPointChildren::AlphabeticSubpoint(list1(s, 2, alphabetic_subpoint))),
        1 => Some(AlphabeticPointChildren::NumericSubpoint(list1(s, 2, numeric_subpoint))),
        _ => None,
    })
}
pub fn numeric_point<S: Src>(s: &mut S) -> NumericPoint {
    let id = gen::numeric(s);
    sae(s, id, |s| match s.below(4) {
        0 => Some(NumericPointChildren::AlphabeticSubpoint(list1(s, 2, alphabetic_subpoint))),
        _ => None,
    })
}
pub fn line<S: Src>(s: &mut S) -> IndentedLine {
    let t = if s.below(4) == 0 { String::new() } else { text(s) };
    gen::plain_line(&t, s.below(20) as f64 * 5.0, s.bool())
}
pub fn paragraph<S: Src>(s: &mut S, depth: u8) -> Paragraph {
    let id = gen::paragraph(s);
    sae(s, id, |s| match s.below(if depth > 0 { 10 } else { 6 }) {
        0 => Some(ParagraphChildren::AlphabeticPoint(list1(s, 2, alphabetic_point))),
        1 => Some(ParagraphChildren::NumericPoint(list1(s, 2, numeric_point))),
        2 => Some(ParagraphChildren::QuotedBlock(list1(s, 2, |s| QuotedBlock {
            intro: opt_text(s),
            lines: list(s, 3, line),
            wrap_up: opt_text(s),
        }))),
        6 => Some(ParagraphChildren::BlockAmendment(BlockAmendment {
            intro: opt_text(s),
            children: match s.below(5) {
                0 => BlockAmendmentChildren::Paragraph(list1(s, 2, |s| paragraph(s, 0))),
                1 => BlockAmendmentChildren::AlphabeticPoint(list1(s, 2, alphabetic_point)),
                2 => BlockAmendmentChildren::NumericPoint(list1(s, 2, numeric_point)),
                3 => BlockAmendmentChildren::AlphabeticSubpoint(list1(s, 2, alphabetic_subpoint)),
                _ => BlockAmendmentChildren::NumericSubpoint(list1(s, 2, numeric_subpoint)),
            },
            wrap_up: opt_text(s),
        })),
        7 => Some(ParagraphChildren::StructuralBlockAmendment(StructuralBlockAmendment {
            intro: opt_text(s),
            children: list1(s, 2, |s| act_child(s, 0)),
            wrap_up: opt_text(s),
        })),
        _ => None,
    })
}
pub fn article<S: Src>(s: &mut S, depth: u8) -> Article {
    Article {
        identifier: gen::article(s),
        title: opt_text(s),
        children: list(s, 3, |s| paragraph(s, depth)),
        last_change: change(s),
    }
}
/// Numbers are in the range that has a Hungarian or Roman name
pub fn structural_element<S: Src>(s: &mut S) -> StructuralElement {
    let ty = match s.below(5) {
        0 => StructuralElementType::Book,
        1 => StructuralElementType::Part { is_special: false },
        2 => StructuralElementType::Part { is_special: true },
        3 => StructuralElementType::Title,
        _ => StructuralElementType::Chapter,
    };
    let n = match ty {
        StructuralElementType::Part { is_special: true } => 1 + s.below(3),
        _ => 1 + s.below(100),
    } as u16;
    let suffix = if matches!(ty, StructuralElementType::Title | StructuralElementType::Chapter) && s.below(4) == 0 {
        Some(gen::letter(s))
    } else {
        None
    };
    StructuralElement {
        identifier: NumericIdentifier::verif_new(n, suffix),
        title: if s.below(4) == 0 { String::new() } else { text(s) },
        element_type: ty,
        last_change: change(s),
    }
}
pub fn act_child<S: Src>(s: &mut S, depth: u8) -> ActChild {
    match s.below(6) {
        0 => ActChild::StructuralElement(structural_element(s)),
        1 => ActChild::Subtitle(Subtitle { identifier: gen::opt(s, gen::numeric), title: text(s), last_change: change(s) }),
        _ => ActChild::Article(article(s, depth)),
    }
}
pub fn act<S: Src>(s: &mut S) -> Act {
    let mut contained_abbreviations = BTreeMap::new();
    if s.below(3) == 0 {
        contained_abbreviations.insert(text_key(s), gen::act(s));
    }
    let mut r = Act {
        identifier: gen::act(s),
        subject: text(s),
        preamble: if s.below(3) == 0 { String::new() } else { text(s) },
        publication_date: date(s),
        contained_abbreviations,
        children: list(s, 4, |s| act_child(s, 1)),
    };
    thin_act(s, &mut r);
    r
}
/// Empties texts, some or all of them
fn thin<S: Src, I: IdentifierCommon, C: ChildrenCommon>(s: &mut S, e: &mut SubArticleElement<I, C>, often: u8, f: impl FnOnce(&mut S, &mut C)) {
    match &mut e.body {
        SAEBody::Text(t) => {
            if s.below(often) != 0 {
                t.clear();
                e.semantic_info.outgoing_references.clear();
            }
        }
        SAEBody::Children { children, .. } => f(s, children),
    }
}
fn thin_asp<S: Src>(s: &mut S, v: &mut [AlphabeticSubpoint], o: u8) {
    v.iter_mut().for_each(|x| thin(s, x, o, |_, _| ()))
}
fn thin_nsp<S: Src>(s: &mut S, v: &mut [NumericSubpoint], o: u8) {
    v.iter_mut().for_each(|x| thin(s, x, o, |_, _| ()))
}
fn thin_ap<S: Src>(s: &mut S, v: &mut [AlphabeticPoint], o: u8) {
    v.iter_mut().for_each(|x| {
        thin(s, x, o, |s, c| match c {
            AlphabeticPointChildren::AlphabeticSubpoint(v) => thin_asp(s, v, o),
            AlphabeticPointChildren::NumericSubpoint(v) => thin_nsp(s, v, o),
        })
    })
}
fn thin_np<S: Src>(s: &mut S, v: &mut [NumericPoint], o: u8) {
    v.iter_mut().for_each(|x| {
        thin(s, x, o, |s, c| match c {
            NumericPointChildren::AlphabeticSubpoint(v) => thin_asp(s, v, o),
        })
    })
}
pub fn thin_paragraph<S: Src>(s: &mut S, x: &mut Paragraph, o: u8) {
    thin(s, x, o, |s, c| match c {
        ParagraphChildren::AlphabeticPoint(v) => thin_ap(s, v, o),
        ParagraphChildren::NumericPoint(v) => thin_np(s, v, o),
        ParagraphChildren::BlockAmendment(b) => match &mut b.children {
            BlockAmendmentChildren::Paragraph(v) => v.iter_mut().for_each(|x| thin_paragraph(s, x, o)),
            BlockAmendmentChildren::AlphabeticPoint(v) => thin_ap(s, v, o),
            BlockAmendmentChildren::NumericPoint(v) => thin_np(s, v, o),
            BlockAmendmentChildren::AlphabeticSubpoint(v) => thin_asp(s, v, o),
            BlockAmendmentChildren::NumericSubpoint(v) => thin_nsp(s, v, o),
        },
        _ => (),
    })
}
/// Some or all texts of some acts
pub fn thin_act<S: Src>(s: &mut S, a: &mut Act) {
    let often = *gen::one_of(s, &[1u8, 8, 1, 3, 1, 1]);
    if often > 1 {
        for x in a.articles_mut() {
            x.children.iter_mut().for_each(|p| thin_paragraph(s, p, often));
        }
    }
}
