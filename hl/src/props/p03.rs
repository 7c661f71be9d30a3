//! P03: "is the next one" is exactly the legal succession relation.
use crate::identifier::IdentifierCommon;
use crate::vf::{Outcome, Src};
use crate::{gen, spec};

macro_rules! next_ob {
    ($name:ident, $gen:path, $next:path, $first:path, $key:path) => {
        pub fn $name<S: Src>(s: &mut S) -> Outcome {
            let a = $gen(s);
            let b = $gen(s);
            let n = a.is_next_from(b);
            check!(n == $next(a, b), "is_next_from is not the legal succession", "{a:?} after {b:?}: {n}");
            check!(!n || $key(b) < $key(a), "a successor must be greater", "{a:?} after {b:?}");
            check!(a.is_first() == $first(a), "is_first", "{a:?}: {}", a.is_first());
            Outcome::Pass
        }
    };
}
next_ob!(letter, gen::letter, spec::letter_next, spec::letter_first, spec::letter_pos);
next_ob!(numeric, gen::numeric, spec::numeric_next, spec::numeric_first, spec::numeric_key);
next_ob!(article, gen::article, spec::article_next, spec::article_first, spec::article_key);
next_ob!(paragraph, gen::paragraph, spec::paragraph_next, spec::paragraph_first, spec::paragraph_key);
next_ob!(prefixed, gen::prefixed, spec::prefixed_next, spec::prefixed_first, spec::prefixed_key);

pub fn emptiness<S: Src>(s: &mut S) -> Outcome {
    let p = gen::paragraph(s);
    check!(p.is_empty() == p.map(|_| ()).is_none(), "only a missing paragraph number is empty", "{p:?}");
    check!(!gen::letter(s).is_empty() && !gen::numeric(s).is_empty(), "identifiers are not empty");
    check!(!gen::article(s).is_empty() && !gen::prefixed(s).is_empty(), "identifiers are not empty");
    Outcome::Pass
}
obligations! { P03:
    letter, proved, "", "HungarianIdentifierChar::{is_next_from,is_first}", [kani::proof];
    numeric, proved, "", "NumericIdentifier::{is_next_from,is_first}", [kani::proof];
    article, proved, "", "ArticleIdentifier::{is_next_from,is_first}", [kani::proof];
    paragraph, proved, "", "ParagraphIdentifier::{is_next_from,is_first}", [kani::proof];
    prefixed, proved, "", "PrefixedAlphabeticIdentifier::{is_next_from,is_first}", [kani::proof];
    emptiness, proved, "", "IdentifierCommon::is_empty of all identifiers", [kani::proof];
}
