//! P08: references survive their compact form, and their printed name names every part.
#[cfg(bare)]
use crate::bare::*;
use crate::gen::print;
use crate::identifier::range::{IdentifierRange, IdentifierRangeFrom};
use crate::identifier::*;
use crate::reference::parts::*;
use crate::reference::Reference;
use crate::vf::VerifReferenceParts;
use crate::util::compact_string::CompactString;
use crate::vf::{Outcome, Src};
use crate::{gen, spec};

/// Prefixed identifiers never contain digraphs (see P01)
fn latin_only(p: &VerifReferenceParts) -> bool {
    fn ok(x: PrefixedAlphabeticIdentifier) -> bool {
        let (a, b) = x.verif_parts();
        a.map_or(true, spec::is_latin) && spec::is_latin(b)
    }
    match &p.4 {
        Some(RefPartSubpoint::Alphabetic(r)) => ok(r.first_in_range()) && ok(r.last_in_range()),
        _ => true,
    }
}
#[cfg(not(kani))]
pub fn round_trip<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    assume!(spec::valid(&p) && latin_only(&p));
    let r = Reference::verif_new(p);
    let t = r.compact_string().to_string();
    let back = Reference::from_compact_string(&t);
    check!(
        matches!(&back, Ok(b) if spec::same(&b.verif_parts(), &p)),
        "compact string round trip", "{p:?} printed as {t:?}, read back as {back:?}"
    );
    Outcome::Pass
}
fn num(d: u8) -> IdentifierRange<NumericIdentifier> {
    IdentifierRange::from_single(NumericIdentifier::verif_new(d as u16, None))
}
/// One-character fields: printing puts each part in its own field
pub fn print_small<S: Src>(s: &mut S) -> Outcome {
    let (y, n, a, p, d) = (1 + s.below(9), 1 + s.below(9), 1 + s.below(9), 1 + s.below(9), 1 + s.below(9));
    let l = s.below(26);
    let article = IdentifierRange::from_single(ArticleIdentifier::from_book_and_id(None, NumericIdentifier::verif_new(a as u16, None)));
    let point = RefPartPoint::Alphabetic(IdentifierRange::from_single(HungarianIdentifierChar::Latin(b'a' + l)));
    let parts: VerifReferenceParts = (
        Some(ActIdentifier { year: y as i16, number: n as i32 }),
        Some(article),
        Some(num(p)),
        Some(point),
        Some(RefPartSubpoint::Numeric(num(d))),
    );
    let b = print(&Reference::verif_new(parts).compact_string());
    let want = [b'0' + y, b'.', b'0' + n, b'_', b'0' + a, b'_', b'0' + p, b'_', b'a' + l, b'_', b'0' + d];
    check!(b.len == want.len(), "compact form", "{:?}", b.str());
    let mut i = 0;
    while i < want.len() {
        check!(b.data[i] == want[i], "compact form", "{:?}", b.str());
        i += 1;
    }
    Outcome::Pass
}
/// One-character fields: reading takes each part from its own field
pub fn read_small<S: Src>(s: &mut S) -> Outcome {
    let (y, n, a, p, d) = (1 + s.below(9), 1 + s.below(9), 1 + s.below(9), 1 + s.below(9), 1 + s.below(9));
    let text = [b'0' + y, b'.', b'0' + n, b'_', b'0' + a, b'_', b'0' + p, b'_', b'0' + d, b'_'];
    let r = Reference::from_compact_string(unsafe { std::str::from_utf8_unchecked(&text) });
    let article = IdentifierRange::from_single(ArticleIdentifier::from_book_and_id(None, NumericIdentifier::verif_new(a as u16, None)));
    let want: VerifReferenceParts = (
        Some(ActIdentifier { year: y as i16, number: n as i32 }),
        Some(article),
        Some(num(p)),
        Some(RefPartPoint::Numeric(num(d))),
        None,
    );
    check!(matches!(&r, Ok(r) if spec::same(&r.verif_parts(), &want)), "reading the compact form", "{r:?}");
    Outcome::Pass
}
/// One field of the point level: digits are numbers, letters are letters
pub fn point_field<S: Src>(s: &mut S) -> Outcome {
    let c = s.u8();
    assume!(c.is_ascii_digit() || c.is_ascii_lowercase());
    let t = [c];
    let t = unsafe { std::str::from_utf8_unchecked(&t) };
    let r = RefPartPoint::from_compact_string(t);
    if c.is_ascii_digit() {
        check!(matches!(&r, Ok(RefPartPoint::Numeric(n)) if n.first_in_range() == NumericIdentifier::verif_new((c - b'0') as u16, None) && !n.is_range()), "a number", "{r:?}");
    } else {
        check!(matches!(&r, Ok(RefPartPoint::Alphabetic(l)) if l.first_in_range() == HungarianIdentifierChar::Latin(c) && !l.is_range()), "a letter", "{r:?}");
    }
    let r = RefPartSubpoint::from_compact_string(t);
    if c.is_ascii_digit() {
        check!(matches!(&r, Ok(RefPartSubpoint::Numeric(n)) if n.first_in_range() == NumericIdentifier::verif_new((c - b'0') as u16, None) && !n.is_range()), "a number", "{r:?}");
    } else {
        check!(matches!(&r, Ok(RefPartSubpoint::Alphabetic(l)) if l.first_in_range().verif_parts() == (None, HungarianIdentifierChar::Latin(c)) && !l.is_range()), "a letter", "{r:?}");
    }
    Outcome::Pass
}
/// The compact form is five fields separated by underscores
#[cfg(not(kani))]
fn read_spec(t: &str) -> Option<VerifReferenceParts> {
    fn field<T: CompactString>(t: &str) -> Option<Option<T>> {
        if t.is_empty() {
            Some(None)
        } else {
            T::from_compact_string(t).ok().map(Some)
        }
    }
    fn single_or_range<T: IdentifierCommon>(t: &str) -> Option<IdentifierRange<T>> {
        let mut it = t.split('-');
        let a = T::from_compact_string(it.next()?).ok()?;
        match it.next() {
            None => Some(IdentifierRange::from_single(a)),
            Some(b) => {
                let b = T::from_compact_string(b).ok()?;
                it.next().is_none().then(|| IdentifierRange::from_range(a, b))
            }
        }
    }
    fn part<T>(t: &str, f: impl Fn(&str) -> Option<T>) -> Option<Option<T>> {
        if t.is_empty() {
            Some(None)
        } else {
            f(t).map(Some)
        }
    }
    let f: Vec<&str> = t.split('_').collect();
    if f.len() != 5 {
        return None;
    }
    let p = (
        field::<ActIdentifier>(f[0])?,
        part(f[1], single_or_range::<ArticleIdentifier>)?,
        part(f[2], single_or_range::<NumericIdentifier>)?,
        part(f[3], |t| {
            single_or_range::<NumericIdentifier>(t)
                .map(RefPartPoint::Numeric)
                .or_else(|| single_or_range::<AlphabeticIdentifier>(t).map(RefPartPoint::Alphabetic))
        })?,
        part(f[4], |t| {
            single_or_range::<NumericIdentifier>(t)
                .map(RefPartSubpoint::Numeric)
                .or_else(|| single_or_range::<PrefixedAlphabeticIdentifier>(t).map(RefPartSubpoint::Alphabetic))
        })?,
    );
    spec::valid(&p).then_some(p)
}
#[cfg(not(kani))]
fn agrees(t: &str) -> Outcome {
    let got = Reference::from_compact_string(t);
    let want = read_spec(t);
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            check!(spec::same(&g.verif_parts(), w), "read differently than written", "{t:?}: {g:?}, expected {w:?}");
        }
        (Ok(g), None) => {
            check!(false, "malformed text accepted", "{t:?}: {g:?}");
        }
        (Err(e), Some(_)) => {
            check!(false, "valid text rejected", "{t:?}: {e:?}");
        }
        (Err(_), None) => (),
    }
    Outcome::Pass
}
#[cfg(not(kani))]
pub fn reading<S: Src>(s: &mut S) -> Outcome {
    // fields, valid or not, in any number
    let n = s.below(8);
    let mut t = String::new();
    for i in 0..n {
        if i > 0 {
            t.push('_');
        }
        t.push_str(*gen::one_of::<_, &str>(s, &["", "1", "2012.1", "1-2", "a", "b-d", "ab", "1a", "1a-1b", "aa-ac", "3.5", "-", "2-2", "1-2-3", "x1", " 1", "1.", "0"]));
    }
    agrees(&t)
}
#[cfg(not(kani))]
pub fn mutated<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    let mut t: Vec<char> = Reference::verif_new(p).compact_string().to_string().chars().collect();
    for _ in 0..s.below(3) {
        let i = s.below(24) as usize;
        let c = *gen::one_of(s, &['_', '-', '1', 'a', '.', 'z', ' ', '/']);
        match s.below(3) {
            0 if i < t.len() => {
                t.remove(i);
            }
            1 if i <= t.len() => t.insert(i, c),
            2 if i < t.len() => t[i] = c,
            _ => (),
        }
    }
    agrees(&t.into_iter().collect::<String>())
}
/// The printed name: every part, in order, in Hungarian
#[cfg(not(kani))]
fn name_spec(p: &VerifReferenceParts) -> String {
    fn span(first: String, last: String, ranged: bool) -> String {
        if ranged {
            format!("{first}–{last}")
        } else {
            first
        }
    }
    let mut words: Vec<String> = vec![];
    if let Some(a) = &p.0 {
        words.push(a.to_string());
    }
    if let Some(a) = &p.1 {
        let s = span(a.first_in_range().to_string(), a.last_in_range().to_string(), a.is_range());
        words.push(format!("{s}. {}", if p.2.is_some() || p.3.is_some() { "§" } else { "§-a" }));
    }
    if let Some(a) = &p.2 {
        let s = span(format!("({})", a.first_in_range()), format!("({})", a.last_in_range()), a.is_range());
        words.push(format!("{s} {}", if p.3.is_some() { "bekezdés" } else { "bekezdése" }));
    }
    if let Some(a) = &p.3 {
        let s = match a {
            RefPartPoint::Numeric(a) => span(a.first_in_range().to_string(), a.last_in_range().to_string(), a.is_range()) + ".",
            RefPartPoint::Alphabetic(a) => span(format!("{})", a.first_in_range()), format!("{})", a.last_in_range()), a.is_range()),
        };
        words.push(format!("{s} {}", if p.4.is_some() { "pont" } else { "pontja" }));
    }
    if let Some(a) = &p.4 {
        let s = match a {
            RefPartSubpoint::Numeric(a) => span(a.first_in_range().to_string(), a.last_in_range().to_string(), a.is_range()) + ".",
            RefPartSubpoint::Alphabetic(a) => span(format!("{})", a.first_in_range()), format!("{})", a.last_in_range()), a.is_range()),
        };
        words.push(format!("{s} alpontja"));
    }
    words.join(" ")
}
#[cfg(not(kani))]
pub fn name<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    assume!(spec::valid(&p));
    let r = Reference::verif_new(p);
    let (got, want) = (r.to_string(), name_spec(&p));
    check!(got == want, "printed name", "{p:?}: {got:?}, expected {want:?}");
    Outcome::Pass
}
obligations! { P08:
    print_small, bounded, "one-character identifiers, all parts present", "Reference, Option<T>: CompactString (print)", [kani::proof, kani::unwind(14)];
    read_small, standin, "one-digit identifiers, all parts but the subpoint (exhaustive)", "Reference, Option<T>: CompactString (parse)", [];
    point_field, standin, "one-character identifiers (exhaustive)", "RefPartPoint, RefPartSubpoint: CompactString (parse)", [];
    round_trip, standin, "enumerated and random references, all identifier values", "Reference: CompactString", [];
    reading, standin, "up to 7 fields out of 18 field texts", "Reference::from_compact_string", [];
    mutated, standin, "random references with up to two characters changed", "Reference::from_compact_string", [];
    name, standin, "enumerated and random references", "Reference: Display", [];
}
