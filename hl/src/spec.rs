//! Specification functions: the mathematical meaning the contracts compare the
//! real code with. Written from the property statements, not from the code.
#[cfg(bare)]
use crate::bare::*;
use std::cmp::Ordering;

use crate::identifier::range::IdentifierRange;
use crate::identifier::*;
use crate::reference::parts::*;
use crate::vf::VerifReferenceParts as Parts;

// ---------------------------------------------------------------- identifiers

/// Position of a letter in the extended alphabet a, b, c, cs, d, dz, ..., z, zs:
/// latin letters sit at even places, a digraph right after its base letter.
pub fn letter_pos(c: HungarianIdentifierChar) -> u16 {
    use HungarianIdentifierChar::*;
    let (base, digraph) = match c {
        Latin(x) => (x, 0),
        Cs => (b'c', 1),
        Dz => (b'd', 1),
        Gy => (b'g', 1),
        Ly => (b'l', 1),
        Ny => (b'n', 1),
        Sz => (b's', 1),
        Ty => (b't', 1),
        Zs => (b'z', 1),
    };
    base as u16 * 2 + digraph
}
pub fn is_latin(c: HungarianIdentifierChar) -> bool {
    matches!(c, HungarianIdentifierChar::Latin(_))
}
/// 0 for "no suffix", so that it sorts first
pub fn opt_letter_pos(c: Option<HungarianIdentifierChar>) -> u16 {
    match c {
        None => 0,
        Some(c) => letter_pos(c),
    }
}
pub fn numeric_key(n: NumericIdentifier) -> (u16, u16) {
    let (num, suffix) = n.verif_parts();
    (num, opt_letter_pos(suffix))
}
pub fn article_key(a: ArticleIdentifier) -> (u16, u16, u16) {
    let (book, id) = a.verif_parts();
    let (n, s) = numeric_key(id);
    // no book sorts before every book
    let b = match book {
        None => 0,
        Some(b) => b as u16 + 1,
    };
    (b, n, s)
}
pub fn paragraph_key(p: ParagraphIdentifier) -> (u16, u16, u16) {
    match p.map(|n| n) {
        None => (0, 0, 0),
        Some(n) => {
            let (a, b) = numeric_key(n);
            (1, a, b)
        }
    }
}
pub fn prefixed_key(p: PrefixedAlphabeticIdentifier) -> (u16, u16) {
    let (prefix, chr) = p.verif_parts();
    (opt_letter_pos(prefix), letter_pos(chr))
}
pub fn act_key(a: ActIdentifier) -> (i16, i32) {
    (a.year, a.number)
}

/// Does letter `c` directly follow letter `p` in an enumeration?
pub fn letter_next(c: HungarianIdentifierChar, p: HungarianIdentifierChar) -> bool {
    let (kc, kp) = (letter_pos(c), letter_pos(p));
    // direct neighbours in the extended alphabet (a digraph and its base, or a
    // digraph and the following letter), neighbouring latin letters, or the one
    // tolerated skip of 'q'.
    kc == kp + 1
        || (kc == kp + 2 && is_latin(c) && is_latin(p))
        || (c == HungarianIdentifierChar::Latin(b'r') && p == HungarianIdentifierChar::Latin(b'p'))
}
pub fn letter_first(c: HungarianIdentifierChar) -> bool {
    letter_pos(c) == b'a' as u16 * 2
}
pub fn numeric_next(c: NumericIdentifier, p: NumericIdentifier) -> bool {
    let ((cn, cs), (pn, ps)) = (c.verif_parts(), p.verif_parts());
    match (cs, ps) {
        // An unsuffixed number follows anything with the number one less
        (None, _) => cn as u32 == pn as u32 + 1,
        // The first suffix of a number follows the bare number
        (Some(c), None) => cn == pn && letter_first(c),
        (Some(c), Some(p)) => cn == pn && letter_next(c, p),
    }
}
pub fn numeric_first(n: NumericIdentifier) -> bool {
    numeric_key(n) == (1, 0)
}
pub fn article_next(c: ArticleIdentifier, p: ArticleIdentifier) -> bool {
    let ((cb, ci), (pb, pi)) = (c.verif_parts(), p.verif_parts());
    match (cb, pb) {
        (None, None) => numeric_next(ci, pi),
        (Some(cb), Some(pb)) => {
            (cb == pb && numeric_next(ci, pi)) || (cb as u32 == pb as u32 + 1 && numeric_first(ci))
        }
        _ => false,
    }
}
pub fn article_first(a: ArticleIdentifier) -> bool {
    let (b, i) = a.verif_parts();
    numeric_first(i) && (b.is_none() || b == Some(1))
}
pub fn paragraph_next(c: ParagraphIdentifier, p: ParagraphIdentifier) -> bool {
    match (c.map(|n| n), p.map(|n| n)) {
        (Some(c), Some(p)) => numeric_next(c, p),
        _ => false,
    }
}
pub fn paragraph_first(p: ParagraphIdentifier) -> bool {
    match p.map(|n| n) {
        Some(n) => numeric_first(n),
        None => false,
    }
}
pub fn prefixed_next(c: PrefixedAlphabeticIdentifier, p: PrefixedAlphabeticIdentifier) -> bool {
    let ((cp, cc), (pp, pc)) = (c.verif_parts(), p.verif_parts());
    opt_letter_pos(cp) == opt_letter_pos(pp) && letter_next(cc, pc)
}
pub fn prefixed_first(p: PrefixedAlphabeticIdentifier) -> bool {
    letter_first(p.verif_parts().1)
}

// ----------------------------------------------------------------- references

/// The levels of a reference, top to bottom.
pub const ACT: usize = 0;
pub const ARTICLE: usize = 1;
pub const PARAGRAPH: usize = 2;
pub const POINT: usize = 3;
pub const SUBPOINT: usize = 4;

pub fn filled(p: &Parts) -> [bool; 5] {
    [p.0.is_some(), p.1.is_some(), p.2.is_some(), p.3.is_some(), p.4.is_some()]
}
fn two<T: IdentifierCommon>(r: &IdentifierRange<T>) -> bool {
    r.first_in_range().cmp(&r.last_in_range()) != Ordering::Equal
}
/// Which levels hold a range with two different endpoints
pub fn ranged(p: &Parts) -> [bool; 5] {
    [
        false,
        p.1.as_ref().map_or(false, two),
        p.2.as_ref().map_or(false, two),
        match &p.3 {
            None => false,
            Some(RefPartPoint::Numeric(r)) => two(r),
            Some(RefPartPoint::Alphabetic(r)) => two(r),
        },
        match &p.4 {
            None => false,
            Some(RefPartSubpoint::Numeric(r)) => two(r),
            Some(RefPartSubpoint::Alphabetic(r)) => two(r),
        },
    ]
}
/// The documented guarantees of a Reference: no gaps, except for the paragraph,
/// and only the last part may be a range.
pub fn valid(p: &Parts) -> bool {
    let f = filled(p);
    let r = ranged(p);
    let mut i = 0;
    while i < 5 {
        let mut j = i + 1;
        while j < 5 {
            if f[i] && f[j] {
                if r[i] {
                    return false;
                }
                let mut k = i + 1;
                while k < j {
                    if k != PARAGRAPH && !f[k] {
                        return false;
                    }
                    k += 1;
                }
            }
            j += 1;
        }
        i += 1;
    }
    true
}
pub fn first_filled(p: &Parts) -> Option<usize> {
    let f = filled(p);
    let mut i = 0;
    while i < 5 {
        if f[i] {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn last_filled(p: &Parts) -> Option<usize> {
    let f = filled(p);
    let mut i = 5;
    while i > 0 {
        i -= 1;
        if f[i] {
            return Some(i);
        }
    }
    None
}
/// Levels lo..hi from `a`, the others from `b`
pub fn splice(a: &Parts, b: &Parts, lo: usize, hi: usize) -> Parts {
    let t = |l: usize| lo <= l && l < hi;
    (
        if t(0) { a.0 } else { b.0 },
        if t(1) { a.1 } else { b.1 },
        if t(2) { a.2 } else { b.2 },
        if t(3) { a.3 } else { b.3 },
        if t(4) { a.4 } else { b.4 },
    )
}
pub const NOTHING: Parts = (None, None, None, None, None);

fn range_same<T: IdentifierCommon>(a: &IdentifierRange<T>, b: &IdentifierRange<T>) -> bool {
    a.first_in_range().cmp(&b.first_in_range()) == Ordering::Equal
        && a.last_in_range().cmp(&b.last_in_range()) == Ordering::Equal
}
/// Are the two references the same at one level? (Independent of the derived PartialEq)
pub fn same_at(a: &Parts, b: &Parts, level: usize) -> bool {
    match level {
        ACT => a.0.map(act_key) == b.0.map(act_key),
        ARTICLE => match (&a.1, &b.1) {
            (None, None) => true,
            (Some(a), Some(b)) => range_same(a, b),
            _ => false,
        },
        PARAGRAPH => match (&a.2, &b.2) {
            (None, None) => true,
            (Some(a), Some(b)) => range_same(a, b),
            _ => false,
        },
        POINT => match (&a.3, &b.3) {
            (None, None) => true,
            (Some(RefPartPoint::Numeric(a)), Some(RefPartPoint::Numeric(b))) => range_same(a, b),
            (Some(RefPartPoint::Alphabetic(a)), Some(RefPartPoint::Alphabetic(b))) => range_same(a, b),
            _ => false,
        },
        _ => match (&a.4, &b.4) {
            (None, None) => true,
            (Some(RefPartSubpoint::Numeric(a)), Some(RefPartSubpoint::Numeric(b))) => range_same(a, b),
            (Some(RefPartSubpoint::Alphabetic(a)), Some(RefPartSubpoint::Alphabetic(b))) => range_same(a, b),
            _ => false,
        },
    }
}
pub fn same_upto(a: &Parts, b: &Parts, levels: usize) -> bool {
    let mut i = 0;
    while i < levels {
        if !same_at(a, b, i) {
            return false;
        }
        i += 1;
    }
    true
}
pub fn same(a: &Parts, b: &Parts) -> bool {
    same_upto(a, b, 5)
}

/// Resolving a relative reference: the caller's levels above the first one that
/// `a` names, `a`'s own from there on. Well formed or not.
pub fn resolve(a: &Parts, base: &Parts) -> Parts {
    match first_filled(a) {
        None => *base,
        Some(top) => splice(base, a, 0, top),
    }
}

/// The reference with its last part removed
pub fn parent(a: &Parts) -> Parts {
    match last_filled(a) {
        None => NOTHING,
        Some(l) => splice(a, &NOTHING, 0, l),
    }
}

/// Strict ancestor within the same act: `b` is `a` plus at least one more, lower part
pub fn ancestor(a: &Parts, b: &Parts) -> bool {
    let l = last_filled(a).unwrap_or(0);
    let lb = last_filled(b).unwrap_or(0);
    same_upto(a, b, l + 1) && lb > l
}

fn inside<T: IdentifierCommon>(outer: &IdentifierRange<T>, inner: &IdentifierRange<T>) -> bool {
    outer.first_in_range().cmp(&inner.first_in_range()) != Ordering::Greater
        && inner.last_in_range().cmp(&outer.last_in_range()) != Ordering::Greater
}
/// Is everything `b` denotes denoted by `a`, too?
pub fn covers(a: &Parts, b: &Parts) -> bool {
    let l = last_filled(a).unwrap_or(0);
    if l == 0 {
        // A bare act (or nothing): everything in the same act
        return same_at(a, b, ACT);
    }
    same_upto(a, b, l)
        && match l {
            ARTICLE => match (&a.1, &b.1) {
                (Some(a), Some(b)) => inside(a, b),
                _ => false,
            },
            PARAGRAPH => match (&a.2, &b.2) {
                (Some(a), Some(b)) => inside(a, b),
                _ => false,
            },
            POINT => match (&a.3, &b.3) {
                (Some(RefPartPoint::Numeric(a)), Some(RefPartPoint::Numeric(b))) => inside(a, b),
                (Some(RefPartPoint::Alphabetic(a)), Some(RefPartPoint::Alphabetic(b))) => inside(a, b),
                _ => false,
            },
            _ => match (&a.4, &b.4) {
                (Some(RefPartSubpoint::Numeric(a)), Some(RefPartSubpoint::Numeric(b))) => inside(a, b),
                (Some(RefPartSubpoint::Alphabetic(a)), Some(RefPartSubpoint::Alphabetic(b))) => inside(a, b),
                _ => false,
            },
        }
}
fn fwd<T: IdentifierCommon>(r: &IdentifierRange<T>) -> bool {
    r.first_in_range().cmp(&r.last_in_range()) != Ordering::Greater
}
/// No range in it runs backwards
pub fn forward(p: &Parts) -> bool {
    p.1.as_ref().map_or(true, fwd)
        && p.2.as_ref().map_or(true, fwd)
        && match &p.3 {
            None => true,
            Some(RefPartPoint::Numeric(r)) => fwd(r),
            Some(RefPartPoint::Alphabetic(r)) => fwd(r),
        }
        && match &p.4 {
            None => true,
            Some(RefPartSubpoint::Numeric(r)) => fwd(r),
            Some(RefPartSubpoint::Alphabetic(r)) => fwd(r),
        }
}

use crate::identifier::range::IdentifierRangeFrom;
fn join<T: IdentifierCommon>(a: &IdentifierRange<T>, b: &IdentifierRange<T>) -> IdentifierRange<T> {
    IdentifierRange::from_range(a.first_in_range(), b.last_in_range())
}
/// The range from `a` to `b`; None if there is no such range.
pub fn range_between(a: &Parts, b: &Parts) -> Option<Parts> {
    let mut d = 0;
    while d < 5 && same_at(a, b, d) {
        d += 1;
    }
    if d == 5 {
        return Some(*a);
    }
    // Nothing may follow the level that differs, and both must have that level
    if d == 0 || last_filled(a) != Some(d) || last_filled(b) != Some(d) {
        return None;
    }
    let mut r = *a;
    match d {
        ARTICLE => match (&a.1, &b.1) {
            (Some(a), Some(b)) => r.1 = Some(join(a, b)),
            _ => return None,
        },
        PARAGRAPH => match (&a.2, &b.2) {
            (Some(a), Some(b)) => r.2 = Some(join(a, b)),
            _ => return None,
        },
        POINT => match (&a.3, &b.3) {
            (Some(RefPartPoint::Numeric(a)), Some(RefPartPoint::Numeric(b))) => {
                r.3 = Some(RefPartPoint::Numeric(join(a, b)))
            }
            (Some(RefPartPoint::Alphabetic(a)), Some(RefPartPoint::Alphabetic(b))) => {
                r.3 = Some(RefPartPoint::Alphabetic(join(a, b)))
            }
            _ => return None,
        },
        _ => match (&a.4, &b.4) {
            (Some(RefPartSubpoint::Numeric(a)), Some(RefPartSubpoint::Numeric(b))) => {
                r.4 = Some(RefPartSubpoint::Numeric(join(a, b)))
            }
            (Some(RefPartSubpoint::Alphabetic(a)), Some(RefPartSubpoint::Alphabetic(b))) => {
                r.4 = Some(RefPartSubpoint::Alphabetic(join(a, b)))
            }
            _ => return None,
        },
    }
    Some(r)
}
fn ends<T: IdentifierCommon>(r: IdentifierRange<T>, last: bool) -> IdentifierRange<T> {
    let x = if last { r.last_in_range() } else { r.first_in_range() };
    IdentifierRange::from_range(x, x)
}
/// The first (or last) element a reference denotes
pub fn endpoint(p: &Parts, last: bool) -> Parts {
    (
        p.0,
        p.1.map(|r| ends(r, last)),
        p.2.map(|r| ends(r, last)),
        p.3.map(|r| match r {
            RefPartPoint::Numeric(r) => RefPartPoint::Numeric(ends(r, last)),
            RefPartPoint::Alphabetic(r) => RefPartPoint::Alphabetic(ends(r, last)),
        }),
        p.4.map(|r| match r {
            RefPartSubpoint::Numeric(r) => RefPartSubpoint::Numeric(ends(r, last)),
            RefPartSubpoint::Alphabetic(r) => RefPartSubpoint::Alphabetic(ends(r, last)),
        }),
    )
}

fn range_cmp<T: IdentifierCommon>(a: &IdentifierRange<T>, b: &IdentifierRange<T>) -> Ordering {
    a.first_in_range()
        .cmp(&b.first_in_range())
        .then(a.last_in_range().cmp(&b.last_in_range()))
}
fn opt_cmp<T>(a: &Option<T>, b: &Option<T>, f: impl Fn(&T, &T) -> Ordering) -> Ordering {
    match (a, b) {
        (None, None) => Ordering::Equal,
        (None, Some(_)) => Ordering::Less,
        (Some(_), None) => Ordering::Greater,
        (Some(a), Some(b)) => f(a, b),
    }
}
/// Document order: level by level, a missing level first, numbered points before lettered ones
pub fn document_order(a: &Parts, b: &Parts) -> Ordering {
    opt_cmp(&a.0, &b.0, |a, b| act_key(*a).cmp(&act_key(*b)))
        .then_with(|| opt_cmp(&a.1, &b.1, range_cmp))
        .then_with(|| opt_cmp(&a.2, &b.2, range_cmp))
        .then_with(|| {
            opt_cmp(&a.3, &b.3, |a, b| match (a, b) {
                (RefPartPoint::Numeric(a), RefPartPoint::Numeric(b)) => range_cmp(a, b),
                (RefPartPoint::Alphabetic(a), RefPartPoint::Alphabetic(b)) => range_cmp(a, b),
                (RefPartPoint::Numeric(_), _) => Ordering::Less,
                _ => Ordering::Greater,
            })
        })
        .then_with(|| {
            opt_cmp(&a.4, &b.4, |a, b| match (a, b) {
                (RefPartSubpoint::Numeric(a), RefPartSubpoint::Numeric(b)) => range_cmp(a, b),
                (RefPartSubpoint::Alphabetic(a), RefPartSubpoint::Alphabetic(b)) => range_cmp(a, b),
                (RefPartSubpoint::Numeric(_), _) => Ordering::Less,
                _ => Ordering::Greater,
            })
        })
}
