//! P25: finding articles, and what counts as empty.
#[cfg(bare)]
use crate::bare::*;
use std::mem::ManuallyDrop;

use crate::gen;
use crate::identifier::*;
use crate::reference::structural::*;
use crate::reference::Reference;
use crate::semantic_info::{OutgoingReference, SemanticInfo, SpecialPhrase};
use crate::structure::*;
use crate::vf::{Outcome, Src};

/// Children that are empty or not, by their contract
#[derive(Clone, PartialEq, Eq, Debug)]
struct Ghost(bool);
impl ChildrenCommon for Ghost {
    fn is_empty(&self) -> bool {
        self.0
    }
    fn parent_type_name() -> &'static str {
        "Ghost"
    }
}
fn text<S: Src>(s: &mut S) -> (String, bool) {
    if s.bool() {
        (String::new(), true)
    } else {
        (String::from("x"), false)
    }
}
/// Any element over its children
pub fn element_empty<S: Src>(s: &mut S) -> Outcome {
    let (a, a_empty) = text(s);
    let g = s.bool();
    let with_children = s.bool();
    let with_wrap_up = s.bool();
    let body = if with_children {
        SAEBody::Children { intro: a, children: Ghost(g), wrap_up: if with_wrap_up { Some(String::from("y")) } else { None } }
    } else {
        SAEBody::Text(a)
    };
    let e: ManuallyDrop<SubArticleElement<NumericIdentifier, Ghost>> =
        ManuallyDrop::new(SubArticleElement { identifier: gen::numeric(s), body, semantic_info: Default::default(), last_change: None });
    check!(e.is_empty() == if with_children { g } else { a_empty }, "empty exactly if its text, or all of its children, are");
    Outcome::Pass
}
fn leaf<S: Src, IT: IdentifierCommon, CT: ChildrenCommon>(s: &mut S, identifier: IT) -> (SubArticleElement<IT, CT>, bool) {
    let (t, e) = text(s);
    (SubArticleElement { identifier, body: SAEBody::Text(t), semantic_info: Default::default(), last_change: None }, e)
}
/// Two subpoints of a point
pub fn point_empty<S: Src>(s: &mut S) -> Outcome {
    let n = NumericIdentifier::from(1u16);
    let p = PrefixedAlphabeticIdentifier::verif_new(None, HungarianIdentifierChar::Latin(b'a'));
    match s.below(3) {
        0 => {
            let ((a, x), (b, y)) = (leaf(s, p), leaf(s, p));
            let c = ManuallyDrop::new(AlphabeticPointChildren::AlphabeticSubpoint(vec![a, b]));
            check!(c.is_empty() == (x && y), "empty exactly if all of them are");
        }
        1 => {
            let ((a, x), (b, y)) = (leaf(s, n), leaf(s, n));
            let c = ManuallyDrop::new(AlphabeticPointChildren::NumericSubpoint(vec![a, b]));
            check!(c.is_empty() == (x && y), "empty exactly if all of them are");
        }
        _ => {
            let ((a, x), (b, y)) = (leaf(s, p), leaf(s, p));
            let c = ManuallyDrop::new(NumericPointChildren::AlphabeticSubpoint(vec![a, b]));
            check!(c.is_empty() == (x && y), "empty exactly if all of them are");
        }
    }
    Outcome::Pass
}
/// What is known about a text
pub fn semantic_empty<S: Src>(s: &mut S) -> Outcome {
    let refs = s.bool();
    let phrase = s.bool();
    let mut outgoing_references = Vec::with_capacity(1);
    if refs {
        outgoing_references.push(OutgoingReference { start: 0, end: 0, reference: Reference::default() });
    }
    let i = ManuallyDrop::new(SemanticInfo {
        outgoing_references,
        new_abbreviations: Default::default(),
        special_phrase: if phrase { Some(SpecialPhrase::Repeal(Vec::new())) } else { None },
    });
    check!(i.is_empty() == (!refs && !phrase), "empty exactly if it says nothing");
    Outcome::Pass
}
/// The position of a structural element as a position itself
pub fn structural_parent<S: Src>(s: &mut S) -> Outcome {
    let n = gen::numeric(s);
    let r = gen::range(s, gen::numeric);
    type P = StructuralReferenceParent;
    type E = StructuralReferenceElement;
    let ok = match s.below(6) {
        0 => matches!(E::from(P::Part(n)), E::Part(x) if x == n),
        1 => matches!(E::from(P::Title(n)), E::Title(x) if x == n),
        2 => matches!(E::from(P::Chapter(n)), E::Chapter(x) if x == n),
        3 => matches!(E::from(P::SubtitleId(n)), E::SubtitleId(x) if x == n),
        4 => matches!(E::from(P::SubtitleRange(r)), E::SubtitleRange(x) if x == r),
        _ => {
            let e = ManuallyDrop::new(E::from(P::SubtitleTitle(String::from("x"))));
            matches!(&*e, E::SubtitleTitle(x) if x.as_str() == "x")
        }
    };
    check!(ok, "the same kind of element, with the same identifier");
    Outcome::Pass
}
/// Three children of an act, articles and others
pub fn find_small<S: Src>(s: &mut S) -> Outcome {
    let mut ids = [None; 3];
    let mut children = Vec::with_capacity(3);
    let mut i = 0;
    while i < 3 {
        if s.bool() {
            let id = gen::article(s);
            ids[i] = Some(id);
            children.push(ActChild::Article(Article { identifier: id, title: None, children: Vec::new(), last_change: None }));
        } else {
            children.push(ActChild::Subtitle(Subtitle { identifier: None, title: String::new(), last_change: None }));
        }
        i += 1;
    }
    let mut act = ManuallyDrop::new(Act {
        identifier: ActIdentifier { year: 2000, number: 1 },
        subject: String::new(),
        preamble: String::new(),
        publication_date: Default::default(),
        contained_abbreviations: Default::default(),
        children,
    });
    let wanted = gen::article(s);
    let mut first = None;
    let mut i = 3;
    while i > 0 {
        i -= 1;
        if ids[i] == Some(wanted) {
            first = Some(i);
        }
    }
    let place = |act: &Act, a: &Article| -> Option<usize> {
        let mut r = None;
        let mut i = 0;
        while i < 3 {
            if let ActChild::Article(x) = &act.children[i] {
                if std::ptr::eq(x, a) {
                    r = Some(i);
                }
            }
            i += 1;
        }
        r
    };
    let found = act.article(wanted).map(|a| place(&act, a).unwrap_or(9));
    check!(found == first, "the first article of that identifier, or none");
    let m = act.article_mut(wanted).map(|a| a as *const Article);
    let m = m.map(|a| place(&act, unsafe { &*a }).unwrap_or(9));
    check!(m == first, "the same one to be changed");
    Outcome::Pass
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen_act;

    // ---- emptiness, from the text of an element alone
    fn sae<I: IdentifierCommon, C: ChildrenCommon>(e: &SubArticleElement<I, C>, f: impl FnOnce(&C) -> bool) -> bool {
        match &e.body {
            SAEBody::Text(t) => t.is_empty(),
            SAEBody::Children { children, .. } => f(children),
        }
    }
    fn asp(e: &AlphabeticSubpoint) -> bool {
        sae(e, |_| unreachable!())
    }
    fn nsp(e: &NumericSubpoint) -> bool {
        sae(e, |_| unreachable!())
    }
    fn ap(e: &AlphabeticPoint) -> bool {
        sae(e, |c| match c {
            AlphabeticPointChildren::AlphabeticSubpoint(v) => !v.iter().any(|x| !asp(x)),
            AlphabeticPointChildren::NumericSubpoint(v) => !v.iter().any(|x| !nsp(x)),
        })
    }
    fn np(e: &NumericPoint) -> bool {
        sae(e, |c| match c {
            NumericPointChildren::AlphabeticSubpoint(v) => !v.iter().any(|x| !asp(x)),
        })
    }
    fn par(e: &Paragraph) -> bool {
        sae(e, |c| match c {
            ParagraphChildren::AlphabeticPoint(v) => !v.iter().any(|x| !ap(x)),
            ParagraphChildren::NumericPoint(v) => !v.iter().any(|x| !np(x)),
            ParagraphChildren::QuotedBlock(q) => q.len() == 0,
            ParagraphChildren::BlockAmendment(b) => ba(b),
            ParagraphChildren::StructuralBlockAmendment(b) => b.children.len() == 0,
        })
    }
    fn ba(b: &BlockAmendment) -> bool {
        match &b.children {
            BlockAmendmentChildren::Paragraph(v) => !v.iter().any(|x| !par(x)),
            BlockAmendmentChildren::AlphabeticPoint(v) => !v.iter().any(|x| !ap(x)),
            BlockAmendmentChildren::NumericPoint(v) => !v.iter().any(|x| !np(x)),
            BlockAmendmentChildren::AlphabeticSubpoint(v) => !v.iter().any(|x| !asp(x)),
            BlockAmendmentChildren::NumericSubpoint(v) => !v.iter().any(|x| !nsp(x)),
        }
    }
    pub fn tree_empty<S: Src>(s: &mut S) -> Outcome {
        let mut p = gen_act::paragraph(s, 1);
        let often = *gen::one_of(s, &[1u8, 8, 1, 3]);
        // below(1) is always 0: nothing is emptied; so the other way round
        if often > 1 {
            gen_act::thin_paragraph(s, &mut p, often);
        }
        check!(p.is_empty() == par(&p), "empty exactly if nothing is left of it", "{p:?}");
        if let SAEBody::Children { children: ParagraphChildren::BlockAmendment(b), .. } = &p.body {
            check!(b.is_empty() == ba(b), "empty exactly if nothing is left of it", "{b:?}");
        }
        if let SAEBody::Children { children: ParagraphChildren::AlphabeticPoint(v), .. } = &p.body {
            for x in v {
                check!(x.is_empty() == ap(x), "empty exactly if nothing is left of it", "{x:?}");
            }
        }
        let i = &p.semantic_info;
        check!(
            i.is_empty() == (i.outgoing_references.len() == 0 && i.new_abbreviations.len() == 0 && i.special_phrase == None),
            "semantic information is empty exactly if it says nothing",
            "{i:?}"
        );
        Outcome::Pass
    }
    pub fn find<S: Src>(s: &mut S) -> Outcome {
        let mut act = gen_act::act(s);
        let want: Vec<Article> = act
            .children
            .iter()
            .filter(|c| matches!(c, ActChild::Article(_)))
            .map(|c| match c {
                ActChild::Article(a) => a.clone(),
                _ => unreachable!(),
            })
            .collect();
        let got: Vec<Article> = act.articles().cloned().collect();
        check!(got == want, "the articles, in order", "{act:?}");
        let got: Vec<Article> = act.articles_mut().map(|a| a.clone()).collect();
        check!(got == want, "the articles, in order, to be changed", "{act:?}");
        let ids: Vec<ArticleIdentifier> = want.iter().map(|a| a.identifier).chain([gen::article(s)]).collect();
        let id = ids[s.below(ids.len() as u8) as usize];
        let first = want.iter().position(|a| a.identifier == id);
        check!(act.article(id) == first.map(|i| &want[i]), "the first of that identifier", "{id} in {act:?}");
        let before = act.clone();
        if let Some(a) = act.article_mut(id) {
            check!(first.is_some(), "no other article", "{id}");
            a.title = Some("changed".to_string());
        } else {
            check!(first.is_none(), "found", "{id}");
        }
        let changed: Vec<usize> = act.articles().zip(before.articles()).enumerate().filter(|(_, (a, b))| a != b).map(|(i, _)| i).collect();
        let expect: Vec<usize> = first.into_iter().filter(|i| want[*i].title.as_deref() != Some("changed")).collect();
        check!(changed == expect && act.children.len() == before.children.len(), "only that one is changed", "{changed:?} {expect:?}");
        Outcome::Pass
    }
    pub fn headers<S: Src>(s: &mut S) -> Outcome {
        let (n, l, p) = (gen::numeric(s), gen::letter(s), gen::prefixed(s));
        let (num, suf) = n.verif_parts();
        let number = format!("{num}{}", suf.map_or(String::new(), |x| x.to_string()));
        let sub = format!("{}{}", p.verif_parts().0.map_or(String::new(), |x| x.to_string()), p.verif_parts().1);
        fn e<I: IdentifierCommon, C: ChildrenCommon>(identifier: I) -> SubArticleElement<I, C> {
            SubArticleElement { identifier, body: SAEBody::Text("x".into()), semantic_info: Default::default(), last_change: None }
        }
        let got = [
            e::<_, NumericPointChildren>(n).header_string(),
            e::<_, NumericSubpointChildren>(n).header_string(),
            e::<_, AlphabeticPointChildren>(l).header_string(),
            e::<_, AlphabeticSubpointChildren>(p).header_string(),
            e::<_, ParagraphChildren>(ParagraphIdentifier::from(n)).header_string(),
            e::<_, ParagraphChildren>(ParagraphIdentifier::default()).header_string(),
        ];
        let want = [format!("{number}."), format!("{number}."), format!("{l})"), format!("{sub})"), format!("({number})"), String::new()];
        check!(got == want, "headers as in the gazette", "{got:?} instead of {want:?}");
        let a = gen::article(s);
        let (book, n) = a.verif_parts();
        let (num, suf) = n.verif_parts();
        let want = format!("{}{num}{}. §", book.map_or(String::new(), |b| format!("{b}:")), suf.map_or(String::new(), |x| format!("/{}", x.to_string().to_uppercase())));
        let got = Article { identifier: a, title: None, children: vec![], last_change: None }.header_string();
        check!(got == want, "headers as in the gazette", "{got:?} instead of {want:?}");
        Outcome::Pass
    }
}
#[cfg(not(kani))]
pub use native::*;

obligations! { P25:
    element_empty, proved, "", "SubArticleElement::is_empty (over the contract of its children)", [kani::proof, kani::unwind(3)];
    point_empty, bounded, "two subpoints", "ChildrenCommon::is_empty of AlphabeticPointChildren, NumericPointChildren", [kani::proof, kani::unwind(4)];
    semantic_empty, bounded, "at most one reference, no abbreviations", "SemanticInfo::is_empty", [kani::proof, kani::unwind(3)];
    structural_parent, proved, "", "From<StructuralReferenceParent> for StructuralReferenceElement", [kani::proof, kani::unwind(3)];
    find_small, bounded, "three children, articles or not", "Act::{articles,article,articles_mut,article_mut}", [kani::proof, kani::unwind(5)];
    tree_empty, standin, "random paragraphs with every kind of content", "is_empty of all elements", [];
    find, standin, "random acts of up to 4 children", "Act::{articles,article,articles_mut,article_mut}", [];
    headers, standin, "enumerated and random identifiers", "header_string of all elements", [];
}
