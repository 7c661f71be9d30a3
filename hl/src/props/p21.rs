//! P21: converting quoted blocks into block amendments keeps their text and finds their structure.
#[cfg(bare)]
use crate::bare::*;
use crate::gen;
use crate::vf::{Outcome, Src};

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen_act;
    use crate::gen_raw::{self, Gen};
    use crate::identifier::range::*;
    use crate::identifier::*;
    use crate::reference::parts::*;
    use crate::reference::structural::*;
    use crate::reference::Reference;
    use crate::semantic_info::{self, SemanticInfo, SpecialPhrase};
    use crate::structure::*;
    use crate::util::indentedline::{IndentedLine, EMPTY_LINE};

    fn paragraph(lines: Vec<IndentedLine>, phrase: SpecialPhrase, intro: Option<String>, wrap_up: Option<String>) -> Paragraph {
        Paragraph {
            identifier: ParagraphIdentifier::default(),
            body: SAEBody::Children {
                intro: "A következő:".into(),
                children: ParagraphChildren::QuotedBlock(vec![QuotedBlock { intro, lines, wrap_up }]),
                wrap_up: Some("szöveggel.".into()),
            },
            semantic_info: SemanticInfo { special_phrase: Some(phrase), ..Default::default() },
            last_change: None,
        }
    }
    fn block(position: Reference) -> SpecialPhrase {
        SpecialPhrase::BlockAmendment(semantic_info::BlockAmendment { position, pure_insertion: false })
    }
    fn structural(structural_element: StructuralReferenceElement, title_only: bool) -> SpecialPhrase {
        SpecialPhrase::StructuralBlockAmendment(semantic_info::StructuralBlockAmendment {
            position: StructuralReference { act: Some(ActIdentifier { year: 2011, number: 9 }), book: None, parent: None, structural_element, title_only },
            pure_insertion: false,
        })
    }
    fn show(lines: &[IndentedLine]) -> String {
        format!("{:#?}", lines.iter().map(|l| (l.content(), l.is_justified(), l.is_bold())).collect::<Vec<_>>())
    }
    fn phrase<S: Src>(s: &mut S) -> SpecialPhrase {
        let act = Some(ActIdentifier { year: 2011, number: 9 });
        let art = Some(IdentifierRange::from_single(ArticleIdentifier::from(1 + s.below(3) as u16)));
        let n = |s: &mut S| {
            let a = NumericIdentifier::from(1 + s.below(3) as u16);
            IdentifierRange::from_range(a, NumericIdentifier::from(a.verif_parts().0 + s.below(2) as u16))
        };
        let l = |s: &mut S| {
            let a = s.below(3);
            IdentifierRange::from_range(HungarianIdentifierChar::Latin(b'a' + a), HungarianIdentifierChar::Latin(b'a' + a + s.below(2)))
        };
        match s.below(8) {
            0 => block(Reference::verif_new((act, art, Some(n(s)), None, None))),
            1 => block(Reference::verif_new((act, art, None, Some(RefPartPoint::Numeric(n(s))), None))),
            2 => block(Reference::verif_new((act, art, None, Some(RefPartPoint::Alphabetic(l(s))), None))),
            3 => block(Reference::verif_new((act, art, None, Some(RefPartPoint::Alphabetic(IdentifierRange::from_single(HungarianIdentifierChar::Latin(b'b')))), Some(RefPartSubpoint::Numeric(n(s)))))),
            4 => block(Reference::verif_new((
                act,
                art,
                None,
                Some(RefPartPoint::Alphabetic(IdentifierRange::from_single(HungarianIdentifierChar::Latin(b'b')))),
                Some(RefPartSubpoint::Alphabetic(IdentifierRange::from_single(PrefixedAlphabeticIdentifier::verif_new(
                    Some(HungarianIdentifierChar::Latin(b'b')),
                    HungarianIdentifierChar::Latin(b'a' + s.below(3)),
                )))),
            ))),
            5 => structural(StructuralReferenceElement::Article(IdentifierRange::from_single(ArticleIdentifier::from(1 + s.below(3) as u16))), s.bool()),
            6 => structural(StructuralReferenceElement::Chapter(NumericIdentifier::from(2)), s.bool()),
            _ => gen_act::special_phrase(s),
        }
    }
    /// Whatever the quoted lines are: nothing is lost, neither on success nor on failure
    pub fn nothing_lost<S: Src>(s: &mut S) -> Outcome {
        let mut lines = gen_raw::messy_lines(s, 10);
        if s.below(3) == 0 {
            lines.insert(0, gen::plain_line(*gen::one_of(s, &["1. § (1) szöveg", "(1) szöveg", "a) szöveg", "ba) szöveg", "1. szöveg", "II. FEJEZET"]), 45.0, false));
        }
        let p = phrase(s);
        let before = paragraph(lines, p.clone(), gen::opt(s, |_| "bevezető".to_string()), gen::opt(s, |_| "zárás".to_string()));
        let mut after = before.clone();
        let r = after.convert_block_amendments();
        if r.is_err() {
            check!(after == before, "a failed conversion changes nothing", "{p:?}: {r:?}: {before:#?} became {after:#?}");
            return Outcome::Pass;
        }
        let (b, a) = (gen_raw::essence_of_paragraph(&before), gen_raw::essence_of_paragraph(&after));
        let mut ok = a == b;
        if !ok {
            // A paragraph may be quoted with its article's number in front, which is no part of it
            if let SpecialPhrase::BlockAmendment(x) = &p {
                if let (Some(x), AnyReferencePart::Paragraph(_)) = (x.position.article(), x.position.get_last_part()) {
                    let h = gen_raw::essence(&format!("{}. §", x.first_in_range()));
                    ok = b.replacen(&h, "", 1) == a;
                }
            }
            // And a title alone has its number from the phrase
            if let SpecialPhrase::StructuralBlockAmendment(x) = &p {
                ok = ok || x.position.title_only;
            }
        }
        check!(ok, "the text of the paragraph", "{p:?}: {b} became {a}");
        Outcome::Pass
    }
    /// Which blocks are converted at all
    pub fn only_phrases<S: Src>(s: &mut S) -> Outcome {
        let lines = vec![gen::plain_line("(1) szöveg", 45.0, false)];
        let q = |lines: &Vec<IndentedLine>| QuotedBlock { intro: None, lines: lines.clone(), wrap_up: None };
        let n = s.below(3) as usize;
        let p = gen::opt(s, phrase);
        let mut before = paragraph(lines.clone(), block(Reference::default()), None, None);
        before.semantic_info.special_phrase = p.clone();
        let converts = n == 1 && matches!(&p, Some(SpecialPhrase::BlockAmendment(_)) | Some(SpecialPhrase::StructuralBlockAmendment(_)));
        if let SAEBody::Children { children, .. } = &mut before.body {
            *children = ParagraphChildren::QuotedBlock((0..n).map(|_| q(&lines)).collect());
        }
        if s.below(4) == 0 {
            before = gen_act::paragraph(s, 1);
            if let SAEBody::Children { children: ParagraphChildren::QuotedBlock(_), .. } = &before.body {
                return Outcome::Discard;
            }
            let mut after = before.clone();
            check!(after.convert_block_amendments().is_ok() && after == before, "what has no quoted block stays", "{before:#?} became {after:#?}");
            return Outcome::Pass;
        }
        let mut after = before.clone();
        let r = after.convert_block_amendments();
        if !converts {
            check!(r.is_ok() && after == before, "only single blocks with an amending phrase are converted", "{p:?}, {n}: {r:?}: {after:#?}");
        } else if r.is_ok() {
            check!(!matches!(&after.body, SAEBody::Children { children: ParagraphChildren::QuotedBlock(_), .. }), "converted", "{p:?}: {after:#?}");
        }
        Outcome::Pass
    }
    fn runs<S: Src>(s: &mut S, list: &[&'static str], max: u8) -> Vec<&'static str> {
        let a = s.below(list.len() as u8) as usize;
        let b = (a + 1 + s.below(max) as usize).min(list.len());
        list[a..b].to_vec()
    }
    /// The structure of a quoted amendment is recovered
    pub fn recovered<S: Src>(s: &mut S) -> Outcome {
        let numbers: &[&str] = &["1", "2", "2a", "2b", "3", "4", "5", "10"];
        let letters: &[&str] = &["a", "b", "c", "cs", "d", "e", "f", "g", "gy", "h"];
        let act = Some(ActIdentifier { year: 2011, number: 9 });
        let article = *gen::one_of(s, &["5", "1", "12/A", "3:14"]);
        let art: ArticleIdentifier = article.parse().unwrap();
        let arts = Some(IdentifierRange::from_single(art));
        let kind = s.below(8);
        let ids = if matches!(kind, 2 | 4) { runs(s, letters, 3) } else { runs(s, &numbers[..7], 3) };
        let with_header = s.below(3) == 0;
        let mut g = Gen { s, out: vec![], ba: true, margin: 0.0, next: None, at_z: false };
        let mut want_children = None;
        let mut want_structural = None;
        let p = match kind {
            0 => {
                let mut h = if with_header { format!("{article}. § ") } else { String::new() };
                let c: Vec<Paragraph> = ids
                    .iter()
                    .map(|i| {
                        let h = std::mem::take(&mut h);
                        g.paragraph(i.parse().unwrap(), &format!("{h}({i}) "), 40.0)
                    })
                    .collect();
                want_children = Some(BlockAmendmentChildren::Paragraph(c));
                block(Reference::verif_new((act, arts, Some(range(&ids)), None, None)))
            }
            1 => {
                let c: Vec<NumericPoint> = ids.iter().map(|i| g.numeric_point(i)).collect();
                want_children = Some(BlockAmendmentChildren::NumericPoint(c));
                block(Reference::verif_new((act, arts, None, Some(RefPartPoint::Numeric(range(&ids))), None)))
            }
            2 => {
                let c: Vec<AlphabeticPoint> = ids.iter().map(|i| g.alphabetic_point(i)).collect();
                want_children = Some(BlockAmendmentChildren::AlphabeticPoint(c));
                block(Reference::verif_new((act, arts, None, Some(RefPartPoint::Alphabetic(range(&ids))), None)))
            }
            3 => {
                let c: Vec<NumericSubpoint> = ids.iter().map(|i| g.numeric_subpoint(i)).collect();
                want_children = Some(BlockAmendmentChildren::NumericSubpoint(c));
                block(Reference::verif_new((act, arts, None, Some(RefPartPoint::Alphabetic(range(&["c"]))), Some(RefPartSubpoint::Numeric(range(&ids))))))
            }
            4 => {
                let prefix = *gen::one_of(g.s, &["", "c", "d"]);
                let ids: Vec<String> = ids.iter().filter(|i| i.len() == 1).map(|i| format!("{prefix}{i}")).collect();
                // the digraph left out is not the next one's predecessor
                assume!(!ids.is_empty());
                let c: Vec<AlphabeticSubpoint> = ids.iter().map(|i| g.alphabetic_subpoint(i)).collect();
                want_children = Some(BlockAmendmentChildren::AlphabeticSubpoint(c));
                let ids: Vec<&str> = ids.iter().map(|i| i.as_str()).collect();
                let point = if prefix.is_empty() { RefPartPoint::Numeric(range(&["3"])) } else { RefPartPoint::Alphabetic(range(&[prefix])) };
                block(Reference::verif_new((act, arts, None, Some(point), Some(RefPartSubpoint::Alphabetic(range(&ids))))))
            }
            5 => {
                let book = g.s.bool();
                let mut id = (1 + g.s.below(3), 1 + g.s.below(9) as u16, g.s.below(3));
                let mut c: Vec<ActChild> = vec![];
                let first = Gen::<S>::article_id(id, book);
                for _ in 0..1 + g.s.below(3) {
                    c.push(g.article(Gen::<S>::article_id(id, book)).into());
                    id = g.next_article(id, book);
                    if g.s.below(3) == 0 {
                        g.out.push(EMPTY_LINE);
                    }
                }
                want_structural = Some(c);
                structural(StructuralReferenceElement::Article(IdentifierRange::from_single(first)), false)
            }
            6 => {
                want_structural = Some(g.children());
                let e = match g.s.below(4) {
                    0 => StructuralReferenceElement::Part(2.into()),
                    1 => StructuralReferenceElement::Chapter(2.into()),
                    2 => StructuralReferenceElement::SubtitleId(2.into()),
                    _ => StructuralReferenceElement::SubtitleUnknown,
                };
                structural(e, false)
            }
            _ => {
                // a title alone, with its header or without it
                let mut title = vec![];
                let n: NumericIdentifier = (2 + g.s.below(3) as u16).into();
                let (ty, e, h) = match g.s.below(4) {
                    0 => (Some(StructuralElementType::Part { is_special: false }), StructuralReferenceElement::Part(n), ["", "", "MÁSODIK RÉSZ", "HARMADIK RÉSZ", "NEGYEDIK RÉSZ"]),
                    1 => (Some(StructuralElementType::Title), StructuralReferenceElement::Title(n), ["", "", "II. CÍM", "III. CÍM", "IV. CÍM"]),
                    2 => (Some(StructuralElementType::Chapter), StructuralReferenceElement::Chapter(n), ["", "", "II. FEJEZET", "III. Fejezet", "IV. FEJEZET"]),
                    _ => (None, StructuralReferenceElement::SubtitleId(n), [""; 5]),
                };
                if ty.is_some() && with_header {
                    g.put(h[n.verif_parts().0 as usize], 40.0, true);
                }
                for i in 0..1 + g.s.below(2) {
                    let t = *gen::one_of(g.s, if i == 0 { &["A SZERVEZET", "Az állam kis-"] } else { &["és más", "a) szöveg"] });
                    if ty.is_none() && i == 0 && with_header {
                        g.put(&format!("{n}. {t}"), 40.0, true);
                    } else {
                        g.put(t, 40.0, true);
                    }
                    title.push(t.to_string());
                }
                let title = gen_raw::join(&title);
                want_structural = Some(vec![match ty {
                    Some(element_type) => StructuralElement { identifier: n, title, element_type, last_change: None }.into(),
                    None => Subtitle { identifier: if with_header { Some(n) } else { None }, title, last_change: None }.into(),
                }]);
                structural(e, true)
            }
        };
        let mut lines = g.out;
        lines.dedup_by(|a, b| a.is_empty() && b.is_empty());
        let (intro, wrap_up) = (gen::opt(s, |_| "bevezető".to_string()), gen::opt(s, |_| "zárás".to_string()));
        let mut par = paragraph(lines.clone(), p.clone(), intro.clone(), wrap_up.clone());
        let r = par.convert_block_amendments();
        check!(r.is_ok(), "a proper amendment is converted", "{p:?}: {r:?} from {}", show(&lines));
        let children = match (want_children, want_structural) {
            (Some(children), _) => ParagraphChildren::BlockAmendment(BlockAmendment { intro, children, wrap_up }),
            (_, Some(children)) => ParagraphChildren::StructuralBlockAmendment(StructuralBlockAmendment { intro, children, wrap_up }),
            _ => unreachable!(),
        };
        let want = Paragraph {
            identifier: ParagraphIdentifier::default(),
            body: SAEBody::Children { intro: "A következő:".into(), children, wrap_up: Some("szöveggel.".into()) },
            semantic_info: SemanticInfo { special_phrase: Some(p), ..Default::default() },
            last_change: None,
        };
        let (mut got, mut want) = (par, want);
        no_empty_lines(&mut got);
        no_empty_lines(&mut want);
        check!(got == want, "the structure of the amendment", "{got:#?} instead of {want:#?} from {}", show(&lines));
        Outcome::Pass
    }
    fn range<T: IdentifierCommon + std::str::FromStr>(ids: &[&str]) -> IdentifierRange<T> {
        let p = |t: &str| t.parse::<T>().ok().unwrap();
        IdentifierRange::from_range(p(ids[0]), p(ids[ids.len() - 1]))
    }
    // empty lines inside of quoted blocks are not significant
    fn no_empty_lines(p: &mut Paragraph) {
        if let SAEBody::Children { children, .. } = &mut p.body {
            match children {
                ParagraphChildren::QuotedBlock(q) => q.iter_mut().for_each(|b| b.lines.retain(|l| !l.is_empty())),
                ParagraphChildren::BlockAmendment(BlockAmendment { children: BlockAmendmentChildren::Paragraph(v), .. }) => v.iter_mut().for_each(no_empty_lines),
                ParagraphChildren::StructuralBlockAmendment(b) => b.children.iter_mut().for_each(|c| {
                    if let ActChild::Article(a) = c {
                        a.children.iter_mut().for_each(no_empty_lines);
                    }
                }),
                _ => (),
            }
        }
    }
    /// A block that begins with something else than what is to be amended is refused
    pub fn wrong_first<S: Src>(s: &mut S) -> Outcome {
        let first = 1 + s.below(4);
        let expected = 1 + s.below(4);
        assume!(first != expected);
        let c = |n: u8| (b'a' + n) as char;
        let (text, p) = match s.below(5) {
            0 => (format!("({first}) szöveg"), block(Reference::verif_new((None, Some(range(&["5"])), Some(range(&[&expected.to_string()])), None, None)))),
            1 => (format!("{first}. szöveg"), block(Reference::verif_new((None, Some(range(&["5"])), None, Some(RefPartPoint::Numeric(range(&[&expected.to_string()]))), None)))),
            2 => (format!("{}) szöveg", c(first)), block(Reference::verif_new((None, Some(range(&["5"])), None, Some(RefPartPoint::Alphabetic(range(&[&c(expected).to_string()]))), None)))),
            3 => (
                format!("b{}) szöveg", c(first)),
                block(Reference::verif_new((
                    None,
                    Some(range(&["5"])),
                    None,
                    Some(RefPartPoint::Alphabetic(range(&["b"]))),
                    Some(RefPartSubpoint::Alphabetic(range(&[&format!("b{}", c(expected))]))),
                ))),
            ),
            _ => (format!("{first}. § szöveg"), structural(StructuralReferenceElement::Article(range(&[&expected.to_string()])), false)),
        };
        let before = paragraph(vec![gen::plain_line(&text, 45.0, false), gen::plain_line("szöveg", 45.0, false)], p.clone(), None, None);
        let mut after = before.clone();
        let r = after.convert_block_amendments();
        check!(r.is_err() && after == before, "an amendment of something else is refused", "{text} for {p:?}: {after:#?}");
        Outcome::Pass
    }
    /// All paragraphs of all articles
    pub fn everywhere<S: Src>(s: &mut S) -> Outcome {
        let n = 1 + s.below(3) as usize;
        let mut children: Vec<ActChild> = vec![];
        let mut want: Vec<Paragraph> = vec![];
        for i in 0..n {
            let mut ps = vec![];
            for _ in 0..s.below(3) {
                let bad = s.below(12) == 0;
                let t = if bad { "szöveg" } else { "(1) szöveg" };
                let p = block(Reference::verif_new((None, Some(range(&["5"])), Some(range(&["1"])), None, None)));
                ps.push(paragraph(vec![gen::plain_line(t, 45.0, false)], p, None, None));
            }
            want.extend(ps.iter().cloned());
            children.push(Article { identifier: (1 + i as u16).into(), title: None, children: ps, last_change: None }.into());
            if s.bool() {
                children.push(Subtitle { identifier: None, title: "Alcím".into(), last_change: None }.into());
            }
        }
        let mut act = gen_act::act(s);
        act.children = children;
        let r = act.convert_block_amendments();
        let all = want.iter_mut().all(|p| p.convert_block_amendments().is_ok());
        check!(r.is_ok() == all, "an error anywhere is reported", "{r:?}");
        if all {
            let got: Vec<Paragraph> = act.articles().flat_map(|a| a.children.iter().cloned()).collect();
            check!(got == want, "every paragraph is converted", "{got:#?}");
        }
        Outcome::Pass
    }
}
#[cfg(not(kani))]
pub use native::*;

obligations! { P21:
    nothing_lost, standin, "random quoted lines: up to 11, every kind of position", "Paragraph::convert_block_amendments, convert_simple_block_amendment, convert_structural_block_amendment, convert_articles, convert_title_only_block_amendment", [];
    only_phrases, standin, "every kind of phrase, 0 to 2 blocks", "Paragraph::convert_block_amendments", [];
    recovered, standin, "random amendments of up to 3 elements (5 for structural ones)", "Paragraph::convert_block_amendments, convert_simple_block_amendment, convert_structural_block_amendment, convert_articles, convert_title_only_block_amendment, SAEParser::extract_multiple, SAEParser::parse, parse_complex_body", [];
    wrong_first, standin, "all pairs of different identifiers out of four", "convert_simple_block_amendment, convert_articles", [];
    everywhere, standin, "acts of up to 3 articles of up to 2 paragraphs", "Act::convert_block_amendments, Article::convert_block_amendments", [];
}
