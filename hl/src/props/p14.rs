//! P14: walking an act visits every element once, in order, with its full reference.
#[cfg(bare)]
use crate::bare::*;
use std::mem::ManuallyDrop;

use anyhow::Result;

use crate::identifier::range::{IdentifierRange, IdentifierRangeFrom};
use crate::identifier::*;
use crate::reference::parts::*;
use crate::reference::Reference;
use crate::vf::VerifReferenceParts;
use crate::structure::*;
use crate::util::walker::*;
use crate::vf::{Outcome, Src};
use crate::{gen, spec};

type Parts = VerifReferenceParts;

#[cfg(not(kani))]
mod native {
    use super::*;
    #[derive(Debug, PartialEq, Clone)]
    pub struct Event {
        enter: bool,
        at: String,
        element: String,
    }
    #[derive(Default)]
    pub struct Log(pub Vec<Event>, pub Option<usize>);
    impl Log {
        fn put<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, enter: bool, at: &Reference, e: &SubArticleElement<IT, CT>) -> Result<()> {
            if self.1 == Some(self.0.len()) {
                return Err(anyhow::anyhow!("stop"));
            }
            self.0.push(event(enter, &at.verif_parts(), e));
            Ok(())
        }
    }
    fn event<IT: IdentifierCommon, CT: ChildrenCommon>(enter: bool, at: &Parts, e: &SubArticleElement<IT, CT>) -> Event {
        Event { enter, at: format!("{at:?}"), element: format!("{} {:?} {}", CT::parent_type_name(), e.identifier, text(&e.body)) }
    }
    fn text<CT: ChildrenCommon>(b: &SAEBody<CT>) -> &str {
        match b {
            SAEBody::Text(t) => t,
            SAEBody::Children { intro, .. } => intro,
        }
    }
    impl SAEVisitor for Log {
        fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, e: &SubArticleElement<IT, CT>) -> Result<()> {
            self.put(true, at, e)
        }
        fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, e: &SubArticleElement<IT, CT>) -> Result<()> {
            self.put(false, at, e)
        }
    }
    impl SAEVisitorMut for Log {
        fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, e: &mut SubArticleElement<IT, CT>) -> Result<()> {
            self.put(true, at, e)
        }
        fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, e: &mut SubArticleElement<IT, CT>) -> Result<()> {
            self.put(false, at, e)
        }
    }
    /// The expected visits, straight from the tree
    pub fn expected(act: &Act) -> Vec<Event> {
        let mut r = vec![];
        for c in &act.children {
            if let ActChild::Article(a) = c {
                let base: Parts = (Some(act.identifier), Some(IdentifierRange::from_single(a.identifier)), None, None, None);
                for p in &a.children {
                    paragraph(&mut r, base, p);
                }
            }
        }
        r
    }
    fn paragraph(r: &mut Vec<Event>, mut at: Parts, p: &Paragraph) {
        at.2 = p.identifier.map(|x| IdentifierRange::from_single(x));
        r.push(event(true, &at, p));
        if let SAEBody::Children { children, .. } = &p.body {
            match children {
                ParagraphChildren::AlphabeticPoint(ps) => {
                    for x in ps {
                        let mut at = at;
                        at.3 = Some(RefPartPoint::Alphabetic(IdentifierRange::from_single(x.identifier)));
                        r.push(event(true, &at, x));
                        if let SAEBody::Children { children, .. } = &x.body {
                            match children {
                                AlphabeticPointChildren::AlphabeticSubpoint(c) => alphabetic(r, at, c),
                                AlphabeticPointChildren::NumericSubpoint(c) => {
                                    for y in c {
                                        let mut at = at;
                                        at.4 = Some(RefPartSubpoint::Numeric(IdentifierRange::from_single(y.identifier)));
                                        r.push(event(true, &at, y));
                                        r.push(event(false, &at, y));
                                    }
                                }
                            }
                        }
                        r.push(event(false, &at, x));
                    }
                }
                ParagraphChildren::NumericPoint(ps) => {
                    for x in ps {
                        let mut at = at;
                        at.3 = Some(RefPartPoint::Numeric(IdentifierRange::from_single(x.identifier)));
                        r.push(event(true, &at, x));
                        if let SAEBody::Children { children: NumericPointChildren::AlphabeticSubpoint(c), .. } = &x.body {
                            alphabetic(r, at, c);
                        }
                        r.push(event(false, &at, x));
                    }
                }
                _ => (),
            }
        }
        r.push(event(false, &at, p));
    }
    fn alphabetic(r: &mut Vec<Event>, at: Parts, c: &[AlphabeticSubpoint]) {
        for y in c {
            let mut at = at;
            at.4 = Some(RefPartSubpoint::Alphabetic(IdentifierRange::from_single(y.identifier)));
            r.push(event(true, &at, y));
            r.push(event(false, &at, y));
        }
    }
    pub fn walk<S: Src>(s: &mut S) -> Outcome {
        let act = crate::gen_act::act(s);
        let want = expected(&act);
        let mut log = Log::default();
        let r = act.walk_saes(&mut log);
        check!(r.is_ok(), "walking failed", "{r:?} {act:?}");
        check!(log.0 == want, "visited elements", "{:#?} instead of {want:#?} in {act:?}", log.0);
        let mut act2 = act.clone();
        let mut log = Log::default();
        let r = act2.walk_saes_mut(&mut log);
        check!(r.is_ok(), "walking failed", "{r:?} {act:?}");
        check!(log.0 == want, "visited elements (mutable walk)", "{:#?} instead of {want:#?} in {act:?}", log.0);
        check!(act2 == act, "walking changed the act");
        // an error of the visitor stops the walk right there and is reported
        if !want.is_empty() {
            let at = s.u8() as usize % want.len();
            let mut log = Log(vec![], Some(at));
            check!(act.walk_saes(&mut log).is_err() && log.0[..] == want[..at], "a visitor's error stops the walk");
            let mut log = Log(vec![], Some(at));
            check!(act2.walk_saes_mut(&mut log).is_err() && log.0[..] == want[..at], "a visitor's error stops the mutable walk");
        }
        Outcome::Pass
    }
}
#[cfg(not(kani))]
pub use native::walk;

// ---- the modular proof: each level against the contract of the level below.
// `Ghost` stands for any children list, and for any child: it only records the base it
// is walked with, so the code under contract is the real generic code of one level.
/// What the visitor and the ghosts saw, in order: 0 enter, 1 exit, 2+id ghost
struct Rec {
    at: [(u8, Parts); 6],
    n: usize,
    fail_at: usize,
}
impl Rec {
    fn new(fail_at: usize) -> Self {
        Rec { at: [(255, (None, None, None, None, None)); 6], n: 0, fail_at }
    }
    fn put(&mut self, what: u8, at: &Reference) -> Result<()> {
        let fail = self.n == self.fail_at;
        if self.n < 6 {
            self.at[self.n] = (what, at.verif_parts());
        }
        self.n += 1;
        if fail {
            Err(anyhow::anyhow!("stop"))
        } else {
            Ok(())
        }
    }
    fn saw(&self, i: usize, what: u8, at: &Parts) -> bool {
        self.at[i].0 == what && spec::same(&self.at[i].1, at)
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
struct Ghost(u8, *mut Rec, bool);
impl Ghost {
    fn seen(&self, base: &Reference) -> Result<()> {
        // the recorder outlives the ghosts, and nobody else touches it during a walk
        unsafe { (*self.1).put(2 + self.0, base) }
    }
}
impl ChildrenCommon for Ghost {
    fn is_empty(&self) -> bool {
        self.2
    }
    fn parent_type_name() -> &'static str {
        "Ghost"
    }
}
impl crate::util::debug::DebugContextString for Ghost {
    fn debug_ctx(&self) -> String {
        String::new()
    }
}
impl WalkSAE for Ghost {
    fn walk_saes<V: SAEVisitor>(&self, base: &Reference, _v: &mut V) -> Result<()> {
        self.seen(base)
    }
}
impl WalkSAEMut for Ghost {
    fn walk_saes_mut<V: SAEVisitorMut>(&mut self, base: &Reference, _v: &mut V) -> Result<()> {
        self.seen(base)
    }
}
type GhostElem = SubArticleElement<NumericIdentifier, Ghost>;
impl crate::reference::to_element::ReferenceToElement for GhostElem {
    fn reference(&self) -> Reference {
        Reference::verif_new(ghost_reference(self.identifier))
    }
}
fn ghost_reference(id: NumericIdentifier) -> Parts {
    (None, None, None, Some(RefPartPoint::Numeric(IdentifierRange::from_single(id))), None)
}
struct Visitor(*mut Rec);
impl SAEVisitor for Visitor {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, _e: &SubArticleElement<IT, CT>) -> Result<()> {
        unsafe { (*self.0).put(0, at) }
    }
    fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, _e: &SubArticleElement<IT, CT>) -> Result<()> {
        unsafe { (*self.0).put(1, at) }
    }
}
impl SAEVisitorMut for Visitor {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, _e: &mut SubArticleElement<IT, CT>) -> Result<()> {
        unsafe { (*self.0).put(0, at) }
    }
    fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, _e: &mut SubArticleElement<IT, CT>) -> Result<()> {
        unsafe { (*self.0).put(1, at) }
    }
}
fn elem<IT: IdentifierCommon, CT: ChildrenCommon>(identifier: IT, children: Option<CT>) -> SubArticleElement<IT, CT> {
    SubArticleElement {
        identifier,
        body: match children {
            Some(children) => SAEBody::Children { intro: String::new(), children, wrap_up: None },
            None => SAEBody::Text(String::new()),
        },
        semantic_info: Default::default(),
        last_change: None,
    }
}
/// One element, over any base, with any children: enter, children, exit, all at base + own part
pub fn step<S: Src>(s: &mut S) -> Outcome {
    let base = gen::parts(s);
    assume!(spec::valid(&base));
    let id = gen::numeric(s);
    let fail_at = s.below(4) as usize;
    let with_children = s.bool();
    let mutable = s.bool();
    let mut rec = Rec::new(fail_at);
    let p: *mut Rec = &mut rec;
    let mut e = ManuallyDrop::new(elem(id, if with_children { Some(Ghost(0, p, s.bool())) } else { None }));
    // what the element says must not matter
    let (said, wrapped) = (s.bool(), s.bool());
    match &mut e.body {
        SAEBody::Text(t) => *t = String::from(if said { "x" } else { "" }),
        SAEBody::Children { intro, wrap_up, .. } => {
            *intro = String::from(if said { "x" } else { "" });
            *wrap_up = if wrapped { Some(String::from("y")) } else { None };
        }
    }
    let b = Reference::verif_new(base);
    let r = if mutable { e.walk_saes_mut(&b, &mut Visitor(p)) } else { e.walk_saes(&b, &mut Visitor(p)) };
    let at = spec::resolve(&ghost_reference(id), &base);
    let possible = spec::valid(&at);
    let all = if with_children { 3 } else { 2 };
    check!(r.is_ok() == (possible && fail_at >= all), "succeeds exactly if the reference exists and no visit failed");
    if !possible {
        check!(rec.n == 0, "nothing is visited at a reference that does not exist");
        return Outcome::Pass;
    }
    check!(rec.n == if fail_at + 1 < all { fail_at + 1 } else { all }, "every visit exactly once, and none after a failed one");
    check!(rec.saw(0, 0, &at), "entering, at the element's full reference");
    if with_children && rec.n > 1 {
        check!(rec.saw(1, 2, &at), "children, below the element's full reference");
    }
    if rec.n == all {
        check!(rec.saw(all - 1, 1, &at), "leaving, at the element's full reference");
    }
    Outcome::Pass
}
/// A list of children: each once, in order, over the same base; stops at the first error
pub fn list<S: Src>(s: &mut S) -> Outcome {
    let base = gen::parts(s);
    assume!(spec::valid(&base));
    let mut rec = Rec::new(s.below(4) as usize);
    let fail_at = rec.fail_at;
    let p: *mut Rec = &mut rec;
    let mut v = ManuallyDrop::new(vec![Ghost(0, p, s.bool()), Ghost(1, p, s.bool()), Ghost(2, p, s.bool())]);
    let b = Reference::verif_new(base);
    let mutable = s.bool();
    let r = if mutable { v.walk_saes_mut(&b, &mut Visitor(p)) } else { v.walk_saes(&b, &mut Visitor(p)) };
    check!(r.is_ok() == (fail_at >= 3), "fails exactly if a child does");
    check!(rec.n == if fail_at < 3 { fail_at + 1 } else { 3 }, "each child once, none after an error");
    let mut i = 0;
    while i < rec.n {
        check!(rec.saw(i, 2 + i as u8, &base), "in order, over the same base");
        i += 1;
    }
    Outcome::Pass
}
/// The own part of every kind of element
pub fn own_parts<S: Src>(s: &mut S) -> Outcome {
    use crate::reference::to_element::ReferenceToElement;
    let (p, l, n, x, a) = (gen::paragraph(s), gen::letter(s), gen::numeric(s), gen::prefixed(s), gen::article(s));
    let e: ManuallyDrop<Paragraph> = ManuallyDrop::new(elem(p, None));
    check!(spec::same(&e.reference().verif_parts(), &(None, None, p.map(|x| IdentifierRange::from_single(x)), None, None)), "paragraph");
    let e: ManuallyDrop<AlphabeticPoint> = ManuallyDrop::new(elem(l, None));
    check!(spec::same(&e.reference().verif_parts(), &(None, None, None, Some(RefPartPoint::Alphabetic(IdentifierRange::from_single(l))), None)), "alphabetic point");
    let e: ManuallyDrop<NumericPoint> = ManuallyDrop::new(elem(n, None));
    check!(spec::same(&e.reference().verif_parts(), &ghost_reference(n)), "numeric point");
    let e: ManuallyDrop<AlphabeticSubpoint> = ManuallyDrop::new(elem(x, None));
    check!(spec::same(&e.reference().verif_parts(), &(None, None, None, None, Some(RefPartSubpoint::Alphabetic(IdentifierRange::from_single(x))))), "alphabetic subpoint");
    let e: ManuallyDrop<NumericSubpoint> = ManuallyDrop::new(elem(n, None));
    check!(spec::same(&e.reference().verif_parts(), &(None, None, None, None, Some(RefPartSubpoint::Numeric(IdentifierRange::from_single(n))))), "numeric subpoint");
    let e = ManuallyDrop::new(Article { identifier: a, title: None, children: Vec::new(), last_change: None });
    check!(spec::same(&e.reference().verif_parts(), &(None, Some(IdentifierRange::from_single(a)), None, None, None)), "article");
    Outcome::Pass
}
/// Which children each kind of children list hands on: one leaf each
pub fn dispatch<S: Src>(s: &mut S) -> Outcome {
    let base = gen::parts(s);
    assume!(spec::valid(&base) && base.1.is_some() && base.3.is_none() && base.4.is_none() && !spec::ranged(&base)[1] && !spec::ranged(&base)[2]);
    let (l, n) = (gen::letter(s), gen::numeric(s));
    let b = Reference::verif_new(base);
    let mut rec = Rec::new(9);
    let p: *mut Rec = &mut rec;
    let c = ManuallyDrop::new(ParagraphChildren::AlphabeticPoint(vec![elem(l, None)]));
    let r = c.walk_saes(&b, &mut Visitor(p));
    let at: Parts = (base.0, base.1, base.2, Some(RefPartPoint::Alphabetic(IdentifierRange::from_single(l))), None);
    check!(r.is_ok() && rec.n == 2 && rec.saw(0, 0, &at) && rec.saw(1, 1, &at), "alphabetic points of a paragraph");
    let mut rec = Rec::new(9);
    let p: *mut Rec = &mut rec;
    let c = ManuallyDrop::new(ParagraphChildren::NumericPoint(vec![elem(n, None)]));
    let r = c.walk_saes(&b, &mut Visitor(p));
    let at: Parts = (base.0, base.1, base.2, Some(RefPartPoint::Numeric(IdentifierRange::from_single(n))), None);
    check!(r.is_ok() && rec.n == 2 && rec.saw(0, 0, &at) && rec.saw(1, 1, &at), "numeric points of a paragraph");
    Outcome::Pass
}
/// Same for the children of points
pub fn dispatch_points<S: Src>(s: &mut S) -> Outcome {
    let base: Parts = (gen::opt(s, gen::act), Some(IdentifierRange::from_single(gen::article(s))), None, Some(RefPartPoint::Numeric(IdentifierRange::from_single(gen::numeric(s)))), None);
    let (x, n) = (gen::prefixed(s), gen::numeric(s));
    let b = Reference::verif_new(base);
    let sub = |p| -> Parts { (base.0, base.1, base.2, base.3, Some(p)) };
    let mut rec = Rec::new(9);
    let p: *mut Rec = &mut rec;
    let c = ManuallyDrop::new(AlphabeticPointChildren::AlphabeticSubpoint(vec![elem(x, None)]));
    let r = c.walk_saes(&b, &mut Visitor(p));
    let at = sub(RefPartSubpoint::Alphabetic(IdentifierRange::from_single(x)));
    check!(r.is_ok() && rec.n == 2 && rec.saw(0, 0, &at) && rec.saw(1, 1, &at), "alphabetic subpoints of an alphabetic point");
    let mut rec = Rec::new(9);
    let p: *mut Rec = &mut rec;
    let c = ManuallyDrop::new(NumericPointChildren::AlphabeticSubpoint(vec![elem(x, None)]));
    let r = c.walk_saes(&b, &mut Visitor(p));
    check!(r.is_ok() && rec.n == 2 && rec.saw(0, 0, &at) && rec.saw(1, 1, &at), "alphabetic subpoints of a numeric point");
    let mut rec = Rec::new(9);
    let p: *mut Rec = &mut rec;
    let c = ManuallyDrop::new(AlphabeticPointChildren::NumericSubpoint(vec![elem(n, None)]));
    let r = c.walk_saes(&b, &mut Visitor(p));
    let at = sub(RefPartSubpoint::Numeric(IdentifierRange::from_single(n)));
    check!(r.is_ok() && rec.n == 2 && rec.saw(0, 0, &at) && rec.saw(1, 1, &at), "numeric subpoints of an alphabetic point");
    Outcome::Pass
}
/// Quoted blocks are not entered
pub fn quoted<S: Src>(s: &mut S) -> Outcome {
    let (act, a, p) = (gen::act(s), gen::article(s), gen::paragraph(s));
    let at: Parts = (Some(act), Some(IdentifierRange::from_single(a)), p.map(|x| IdentifierRange::from_single(x)), None, None);
    let mut rec = Rec::new(9);
    let q: *mut Rec = &mut rec;
    let mut c = ManuallyDrop::new(ParagraphChildren::QuotedBlock(Vec::new()));
    let r = if s.bool() { c.walk_saes(&Reference::verif_new(at), &mut Visitor(q)) } else { c.walk_saes_mut(&Reference::verif_new(at), &mut Visitor(q)) };
    check!(r.is_ok() && rec.n == 0, "quoted blocks are not entered");
    Outcome::Pass
}
/// The articles of an act, one leaf paragraph each; headings are passed by
pub fn articles<S: Src>(s: &mut S) -> Outcome {
    let (act, a, p) = (gen::act(s), gen::article(s), gen::paragraph(s));
    let mut rec = Rec::new(9);
    let q: *mut Rec = &mut rec;
    let article = Article { identifier: a, title: None, children: vec![elem(p, None)], last_change: None };
    let base = Reference::verif_new((Some(act), None, None, None, None));
    let mut c = ManuallyDrop::new(ActChild::Article(article));
    let r = if s.bool() { c.walk_saes_mut(&base, &mut Visitor(q)) } else { c.walk_saes(&base, &mut Visitor(q)) };
    let at: Parts = (Some(act), Some(IdentifierRange::from_single(a)), p.map(|x| IdentifierRange::from_single(x)), None, None);
    check!(r.is_ok() && rec.n == 2, "the paragraph is entered and left once");
    check!(rec.saw(0, 0, &at) && rec.saw(1, 1, &at), "at its full reference");
    Outcome::Pass
}
pub fn headings<S: Src>(s: &mut S) -> Outcome {
    let act = gen::act(s);
    let mut rec = Rec::new(9);
    let q: *mut Rec = &mut rec;
    let base = Reference::verif_new((Some(act), None, None, None, None));
    let mut c = ManuallyDrop::new(if s.bool() {
        ActChild::Subtitle(Subtitle { identifier: gen::opt(s, gen::numeric), title: String::new(), last_change: None })
    } else {
        ActChild::StructuralElement(StructuralElement { identifier: gen::numeric(s), title: String::new(), element_type: StructuralElementType::Chapter, last_change: None })
    });
    let r = if s.bool() { c.walk_saes_mut(&base, &mut Visitor(q)) } else { c.walk_saes(&base, &mut Visitor(q)) };
    check!(r.is_ok() && rec.n == 0, "headings are passed by");
    Outcome::Pass
}
obligations! { P14:
    step, proved, "", "walk_saes / walk_saes_mut of SubArticleElement (one level, over the contract of its children)", [kani::proof, kani::unwind(7)];
    list, bounded, "lists of three", "walk_saes / walk_saes_mut of Vec", [kani::proof, kani::unwind(7)];
    own_parts, proved, "", "ReferenceToElement for every kind of element", [kani::proof, kani::unwind(7)];
    dispatch, bounded, "one leaf, all identifiers and bases", "walk_saes of ParagraphChildren", [kani::proof, kani::unwind(7)];
    dispatch_points, bounded, "one leaf, all identifiers and bases", "walk_saes of AlphabeticPointChildren, NumericPointChildren", [kani::proof, kani::unwind(7)];
    quoted, bounded, "an empty quoted block", "walk_saes / walk_saes_mut of ParagraphChildren", [kani::proof, kani::unwind(7)];
    articles, standin, "one leaf, all identifiers", "walk_saes / walk_saes_mut of ActChild, Article", [];
    headings, proved, "", "walk_saes / walk_saes_mut of ActChild", [kani::proof, kani::unwind(7)];
    walk, standin, "random acts of up to 4 articles", "walk_saes / walk_saes_mut of Act and everything below", [];
}
