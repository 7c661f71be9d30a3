//! P04: every obtainable reference keeps the documented guarantees.
#[cfg(bare)]
use crate::bare::*;
use crate::identifier::range::IdentifierRangeFrom;
use crate::reference::builder::{ReferenceBuilder, ReferenceBuilderSetPart};
use crate::reference::parts::*;
use crate::reference::unchecked::UncheckedReference;
use crate::reference::Reference;
use crate::vf::VerifReferenceParts as Parts;
use crate::vf::{Outcome, Src};
use crate::{gen, spec};

/// The checked constructor: Ok iff well formed, and it never alters the parts
pub fn checked_constructor<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    let r: Result<Reference, _> = UncheckedReference::verif_new(p).try_into();
    match r {
        Ok(r) => {
            check!(spec::valid(&p), "a malformed reference was accepted", "{r:?}");
            check!(spec::same(&r.verif_parts(), &p), "parts changed", "{r:?}");
            let u: UncheckedReference = (&r).into();
            check!(spec::same(&u.verif_parts(), &p), "parts changed on the way back", "{r:?}");
            let u: UncheckedReference = r.into();
            check!(spec::same(&u.verif_parts(), &p), "parts changed on the way back");
        }
        Err(_) => {
            check!(!spec::valid(&p), "a well formed reference was rejected", "{:?}", Reference::verif_new(p));
        }
    }
    Outcome::Pass
}

fn builder(p: &Parts) -> ReferenceBuilder {
    let mut b = ReferenceBuilder::new();
    if let Some(x) = p.0 {
        b.set_part(x);
    }
    if let Some(x) = p.1 {
        b.set_part(x);
    }
    if let Some(x) = p.2 {
        b.set_part(x);
    }
    if let Some(x) = p.3 {
        b.set_part(x);
    }
    if let Some(x) = p.4 {
        b.set_part(x);
    }
    b
}
fn builds(b: &ReferenceBuilder, p: &Parts) -> bool {
    match b.build() {
        Ok(r) => spec::valid(p) && spec::same(&r.verif_parts(), p),
        Err(_) => !spec::valid(p),
    }
}
/// From any builder state, setting (or resetting) a level keeps what is above and
/// clears what is below
pub fn builder_set<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    let q = gen::parts_near(s, &p);
    let level = s.below(5) as usize;
    let mut b = builder(&p);
    let want = splice_set(&mut b, &p, &q, level);
    check!(builds(&b, &want), "builder state after setting one level", "from {:?}, level {level} of {:?}", Reference::verif_new(p), Reference::verif_new(q));
    Outcome::Pass
}
fn splice_set(b: &mut ReferenceBuilder, p: &Parts, q: &Parts, level: usize) -> Parts {
    let upper = spec::splice(p, &spec::NOTHING, 0, level);
    // level from q, if q has it; otherwise reset that level
    match level {
        0 => match q.0 {
            Some(x) => {
                b.set_part(x);
            }
            // There is no way to reset the act
            None => {
                b.reset_article();
                return spec::splice(p, &spec::NOTHING, 0, 1);
            }
        },
        1 => match q.1 {
            Some(x) => {
                b.set_part(x);
            }
            None => {
                b.reset_article();
            }
        },
        2 => match q.2 {
            Some(x) => {
                b.set_part(x);
            }
            None => {
                b.reset_paragraph();
            }
        },
        3 => match q.3 {
            Some(x) => {
                b.set_part(x);
            }
            None => {
                b.reset_point();
            }
        },
        _ => match q.4 {
            Some(x) => {
                b.set_part(x);
            }
            None => {
                b.reset_subpoint();
            }
        },
    }
    spec::splice(q, &upper, level, level + 1)
}
/// All the operations that make references out of references keep the guarantees
pub fn operations_preserve<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    assume!(spec::valid(&p));
    let r = Reference::verif_new(p);
    check!(spec::valid(&r.parent().verif_parts()), "parent", "{r:?}");
    check!(spec::valid(&r.without_act().verif_parts()), "without_act", "{r:?}");
    check!(spec::valid(&r.first_in_range().verif_parts()), "first_in_range", "{r:?}");
    check!(spec::valid(&r.last_in_range().verif_parts()), "last_in_range", "{r:?}");
    check!(spec::valid(&r.clone().verif_parts()), "clone", "{r:?}");
    Outcome::Pass
}
pub fn relative_preserves<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    let q = gen::parts_near(s, &p);
    assume!(spec::valid(&p) && spec::valid(&q));
    let (r, o) = (Reference::verif_new(p), Reference::verif_new(q));
    if let Ok(x) = r.relative_to(&o) {
        check!(spec::valid(&x.verif_parts()), "relative_to", "{r:?} {o:?}");
    }
    Outcome::Pass
}
pub fn range_preserves<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    let q = gen::parts_near(s, &p);
    assume!(spec::valid(&p) && spec::valid(&q));
    let (r, o) = (Reference::verif_new(p), Reference::verif_new(q));
    if let Ok(x) = Reference::make_range(&r, &o) {
        check!(spec::valid(&x.verif_parts()), "make_range", "{r:?} {o:?}");
    }
    Outcome::Pass
}
/// Direct conversions and the accessors
pub fn conversions<S: Src>(s: &mut S) -> Outcome {
    let a = gen::act(s);
    let r: RefPartArticle = gen::range(s, gen::article);
    check!(spec::same(&Reference::from(a).verif_parts(), &(Some(a), None, None, None, None)), "from act");
    check!(spec::same(&Reference::from(r).verif_parts(), &(None, Some(r), None, None, None)), "from article");
    check!(spec::same(&Reference::from((a, r)).verif_parts(), &(Some(a), Some(r), None, None, None)), "from act+article");
    Outcome::Pass
}
pub fn accessors<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    assume!(spec::valid(&p));
    let r = Reference::verif_new(p);
    check!(r.act() == p.0 && r.article() == p.1, "act and article", "{r:?}");
    check!(r.is_act_only() == p.1.is_none(), "is_act_only", "{r:?}");
    check!(
        spec::same(&r.without_act().verif_parts(), &spec::splice(&spec::NOTHING, &p, 0, 1)),
        "without_act drops the act only", "{r:?}"
    );
    let last = r.get_last_part();
    let ok = match spec::last_filled(&p) {
        None => last == AnyReferencePart::Empty,
        Some(0) => last.act() == p.0,
        Some(1) => last.article() == p.1,
        Some(2) => last.paragraph() == p.2,
        Some(3) => match p.3 {
            Some(RefPartPoint::Numeric(x)) => last.numeric_point() == Some(x) && last.alphabetic_point().is_none(),
            Some(RefPartPoint::Alphabetic(x)) => last.alphabetic_point() == Some(x) && last.numeric_point().is_none(),
            None => false,
        },
        _ => match p.4 {
            Some(RefPartSubpoint::Numeric(x)) => last.numeric_subpoint() == Some(x) && last.alphabetic_subpoint().is_none(),
            Some(RefPartSubpoint::Alphabetic(x)) => last.alphabetic_subpoint() == Some(x) && last.numeric_subpoint().is_none(),
            None => false,
        },
    };
    check!(ok, "get_last_part", "{r:?}: {last:?}");
    Outcome::Pass
}
/// Ranges are stored as given
pub fn range_constructors<S: Src>(s: &mut S) -> Outcome {
    let (a, b) = (gen::numeric(s), gen::numeric(s));
    let r = RefPartParagraph::from_range(a, b);
    check!(r.first_in_range() == a && r.last_in_range() == b, "range endpoints");
    check!(RefPartPoint::from_range(a, b) == RefPartPoint::Numeric(r), "numeric point range");
    check!(RefPartSubpoint::from_range(a, b) == RefPartSubpoint::Numeric(r), "numeric subpoint range");
    check!(RefPartPoint::from_range(a, b).is_range() == (a != b), "is_range of a point");
    check!(RefPartSubpoint::from_range(a, b).is_range() == (a != b), "is_range of a subpoint");
    let r = RefPartParagraph::from_single(a);
    check!(r.first_in_range() == a && r.last_in_range() == a && !r.is_range(), "single endpoints");
    let (c, d) = (gen::letter(s), gen::letter(s));
    let p = RefPartPoint::from_range(c, d);
    check!(matches!(p, RefPartPoint::Alphabetic(r) if r.first_in_range() == c && r.last_in_range() == d), "alphabetic point range");
    check!(p.is_range() == (c != d), "is_range of a point");
    let (e, f) = (gen::prefixed(s), gen::prefixed(s));
    let p = RefPartSubpoint::from_range(e, f);
    check!(matches!(p, RefPartSubpoint::Alphabetic(r) if r.first_in_range() == e && r.last_in_range() == f), "alphabetic subpoint range");
    check!(p.is_range() == (e != f), "is_range of a subpoint");
    Outcome::Pass
}
obligations! { P04:
    checked_constructor, proved, "", "TryFrom<UncheckedReference> for Reference, UncheckedReference::{check_part_combination,check_ranges}, From<Reference> for UncheckedReference", [kani::proof, kani::unwind(7)];
    builder_set, proved, "", "ReferenceBuilder::{set_part (5 levels), reset_*, build}", [kani::proof, kani::unwind(7)];
    operations_preserve, proved, "", "Reference::{parent,without_act,first_in_range,last_in_range}", [kani::proof, kani::unwind(7)];
    relative_preserves, proved, "", "Reference::relative_to", [kani::proof, kani::unwind(7)];
    range_preserves, proved, "", "Reference::make_range", [kani::proof, kani::unwind(7)];
    conversions, proved, "", "From<ActIdentifier>, From<IdentifierRange<ArticleIdentifier>>, From<(..)> for Reference", [kani::proof, kani::unwind(7)];
    accessors, proved, "", "Reference::{act,article,is_act_only,without_act,get_last_part}, AnyReferencePart accessors", [kani::proof, kani::unwind(7)];
    range_constructors, proved, "", "IdentifierRangeFrom::{from_range,from_single} of all range types", [kani::proof];
}
