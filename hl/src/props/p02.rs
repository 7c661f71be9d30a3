//! P02: identifiers and references sort in legal (document) order.
#[cfg(bare)]
use crate::bare::*;
use std::cmp::Ordering;

use crate::identifier::range::IdentifierRange;
use crate::reference::Reference;
use crate::vf::{Outcome, Src};
use crate::{gen, spec};

/// Every comparison operator of the type agrees with the specified order
fn agrees<T: Ord>(a: &T, b: &T, o: Ordering) -> bool {
    a.cmp(b) == o
        && b.cmp(a) == o.reverse()
        && a.partial_cmp(b) == Some(o)
        && (a == b) == (o == Ordering::Equal)
        && (a != b) == (o != Ordering::Equal)
        && (a < b) == (o == Ordering::Less)
        && (a <= b) == (o != Ordering::Greater)
        && (a > b) == (o == Ordering::Greater)
        && (a >= b) == (o != Ordering::Less)
}
macro_rules! order_ob {
    ($name:ident, $gen:path, $key:path) => {
        pub fn $name<S: Src>(s: &mut S) -> Outcome {
            let a = $gen(s);
            let b = $gen(s);
            let o = $key(a).cmp(&$key(b));
            check!(agrees(&a, &b, o), "comparison disagrees with legal order", "{a:?} vs {b:?}, expected {o:?}");
            Outcome::Pass
        }
    };
}
order_ob!(letter, gen::letter, spec::letter_pos);
order_ob!(numeric, gen::numeric, spec::numeric_key);
order_ob!(article, gen::article, spec::article_key);
order_ob!(paragraph, gen::paragraph, spec::paragraph_key);
order_ob!(prefixed, gen::prefixed, spec::prefixed_key);
order_ob!(act, gen::act, spec::act_key);

pub fn range_membership<S: Src>(s: &mut S) -> Outcome {
    let r: IdentifierRange<_> = gen::range(s, gen::numeric);
    let x = gen::numeric(s);
    let (a, b, k) = (
        spec::numeric_key(r.first_in_range()),
        spec::numeric_key(r.last_in_range()),
        spec::numeric_key(x),
    );
    check!(r.contains(x) == (a <= k && k <= b), "range membership", "{r:?} contains {x:?} = {}", r.contains(x));
    check!(r.is_range() == (a != b), "a range has two different endpoints", "{r:?}");
    Outcome::Pass
}
pub fn article_range_membership<S: Src>(s: &mut S) -> Outcome {
    let r: IdentifierRange<_> = gen::range(s, gen::article);
    let x = gen::article(s);
    let (a, b, k) = (
        spec::article_key(r.first_in_range()),
        spec::article_key(r.last_in_range()),
        spec::article_key(x),
    );
    check!(r.contains(x) == (a <= k && k <= b), "range membership", "{r:?} contains {x:?} = {}", r.contains(x));
    check!(r.is_range() == (a != b), "a range has two different endpoints", "{r:?}");
    Outcome::Pass
}
pub fn letter_range_membership<S: Src>(s: &mut S) -> Outcome {
    let r: IdentifierRange<_> = gen::range(s, gen::letter);
    let x = gen::letter(s);
    let (a, b, k) = (
        spec::letter_pos(r.first_in_range()),
        spec::letter_pos(r.last_in_range()),
        spec::letter_pos(x),
    );
    check!(r.contains(x) == (a <= k && k <= b), "range membership", "{r:?} contains {x:?} = {}", r.contains(x));
    check!(r.is_range() == (a != b), "a range has two different endpoints", "{r:?}");
    Outcome::Pass
}
pub fn prefixed_range_membership<S: Src>(s: &mut S) -> Outcome {
    let r: IdentifierRange<_> = gen::range(s, gen::prefixed);
    let x = gen::prefixed(s);
    let (a, b, k) = (
        spec::prefixed_key(r.first_in_range()),
        spec::prefixed_key(r.last_in_range()),
        spec::prefixed_key(x),
    );
    check!(r.contains(x) == (a <= k && k <= b), "range membership", "{r:?} contains {x:?} = {}", r.contains(x));
    check!(r.is_range() == (a != b), "a range has two different endpoints", "{r:?}");
    Outcome::Pass
}
pub fn reference<S: Src>(s: &mut S) -> Outcome {
    let pa = gen::parts(s);
    let pb = gen::parts_near(s, &pa);
    assume!(spec::valid(&pa) && spec::valid(&pb));
    let (a, b) = (Reference::verif_new(pa), Reference::verif_new(pb));
    let o = spec::document_order(&pa, &pb);
    check!(agrees(&a, &b, o), "comparison disagrees with document order", "{a:?} vs {b:?}, expected {o:?}");
    Outcome::Pass
}
obligations! { P02:
    letter, proved, "", "HungarianIdentifierChar: Ord, PartialOrd, Eq, ord_helper", [kani::proof];
    numeric, proved, "", "NumericIdentifier: Ord, PartialOrd, Eq", [kani::proof];
    article, proved, "", "ArticleIdentifier: Ord, PartialOrd, Eq", [kani::proof];
    paragraph, proved, "", "ParagraphIdentifier: Ord, PartialOrd, Eq", [kani::proof];
    prefixed, proved, "", "PrefixedAlphabeticIdentifier: Ord, PartialOrd, Eq", [kani::proof];
    act, proved, "", "ActIdentifier: Ord, PartialOrd, Eq", [kani::proof];
    range_membership, proved, "", "IdentifierRange<NumericIdentifier>::{contains,is_range}", [kani::proof];
    article_range_membership, proved, "", "IdentifierRange<ArticleIdentifier>::{contains,is_range}", [kani::proof];
    letter_range_membership, proved, "", "IdentifierRange<HungarianIdentifierChar>::{contains,is_range}", [kani::proof];
    prefixed_range_membership, proved, "", "IdentifierRange<PrefixedAlphabeticIdentifier>::{contains,is_range}", [kani::proof];
    reference, proved, "", "Reference: Ord, PartialOrd, Eq", [kani::proof, kani::unwind(7)];
}
