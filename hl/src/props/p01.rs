//! P01: identifiers survive printing and parsing.
#[cfg(bare)]
use crate::bare::*;
use crate::gen::print;
use crate::identifier::range::IdentifierRange;
use crate::identifier::*;
use crate::util::compact_string::CompactString;
use crate::vf::{Outcome, Src};
use crate::{gen, spec};

pub fn letter<S: Src>(s: &mut S) -> Outcome {
    let x = gen::letter(s);
    let b = print(&x);
    let y = b.str().parse::<HungarianIdentifierChar>();
    check!(matches!(y, Ok(y) if spec::letter_pos(y) == spec::letter_pos(x)), "print -> parse", "{x:?} printed as {:?}", b.str());
    Outcome::Pass
}
pub fn letter_uppercase<S: Src>(s: &mut S) -> Outcome {
    let x = gen::letter(s);
    let b = print(&x.to_uppercase());
    let y = b.str().parse::<HungarianIdentifierChar>();
    check!(matches!(y, Ok(y) if spec::letter_pos(y) == spec::letter_pos(x)), "print uppercase -> parse", "{x:?} printed as {:?}", b.str());
    Outcome::Pass
}
pub fn letter_from_char<S: Src>(s: &mut S) -> Outcome {
    // every char, not just the valid ones
    let c = char::from_u32(s.u32() % 0x110000);
    if let Some(c) = c {
        let r = HungarianIdentifierChar::try_from(c);
        let lower = if ('A'..='Z').contains(&c) { (c as u8 + 32) as char } else { c };
        let want = ('a'..='z').contains(&lower);
        check!(r.is_ok() == want, "exactly the latin letters are accepted", "{c:?}");
        if let Ok(r) = r {
            check!(spec::letter_pos(r) == lower as u16 * 2, "wrong letter", "{c:?}: {r:?}");
        }
    }
    Outcome::Pass
}
fn same_numeric(a: NumericIdentifier, b: NumericIdentifier) -> bool {
    spec::numeric_key(a) == spec::numeric_key(b)
}
pub fn numeric<S: Src>(s: &mut S) -> Outcome {
    let x = gen::numeric(s);
    let b = print(&x);
    let y = b.str().parse::<NumericIdentifier>();
    check!(matches!(y, Ok(y) if same_numeric(x, y)), "print -> parse", "{x:?} printed as {:?}", b.str());
    Outcome::Pass
}
pub fn numeric_with_slash<S: Src>(s: &mut S) -> Outcome {
    let x = gen::numeric(s);
    let b = print(&x.with_slash());
    let y = b.str().parse::<NumericIdentifier>();
    check!(matches!(y, Ok(y) if same_numeric(x, y)), "print with slash -> parse", "{x:?} printed as {:?}", b.str());
    Outcome::Pass
}
pub fn article<S: Src>(s: &mut S) -> Outcome {
    let x = gen::article(s);
    let b = print(&x);
    let y = b.str().parse::<ArticleIdentifier>();
    check!(matches!(y, Ok(y) if spec::article_key(x) == spec::article_key(y)), "print -> parse", "{x:?} printed as {:?}", b.str());
    Outcome::Pass
}
pub fn article_compact<S: Src>(s: &mut S) -> Outcome {
    let x = gen::article(s);
    let b = print(&x.compact_string());
    let y = ArticleIdentifier::from_compact_string(b.str());
    check!(matches!(y, Ok(y) if spec::article_key(x) == spec::article_key(y)), "compact string round trip", "{x:?} printed as {:?}", b.str());
    Outcome::Pass
}
pub fn paragraph<S: Src>(s: &mut S) -> Outcome {
    let x = gen::paragraph(s);
    let b = print(&x);
    let y = b.str().parse::<ParagraphIdentifier>();
    check!(matches!(y, Ok(y) if spec::paragraph_key(x) == spec::paragraph_key(y)), "print -> parse", "{x:?} printed as {:?}", b.str());
    Outcome::Pass
}
pub fn prefixed<S: Src>(s: &mut S) -> Outcome {
    // Digraphs can not occur in these: "sz)" is the 'z' after 's'
    let p = gen::opt(s, gen::latin);
    let x = PrefixedAlphabeticIdentifier::verif_new(p, gen::latin(s));
    let b = print(&x);
    let y = b.str().parse::<PrefixedAlphabeticIdentifier>();
    check!(matches!(y, Ok(y) if spec::prefixed_key(x) == spec::prefixed_key(y)), "print -> parse", "{x:?} printed as {:?}", b.str());
    Outcome::Pass
}
pub fn prefixed_parse<S: Src>(s: &mut S) -> Outcome {
    let t = gen::ascii::<3, S>(s);
    let y = t.str().parse::<PrefixedAlphabeticIdentifier>();
    let b = t.bytes();
    let letters = b.iter().all(|c| c.is_ascii_alphabetic());
    match y {
        Ok(y) => {
            check!(letters && (b.len() == 1 || b.len() == 2), "accepted garbage", "{:?}: {y:?}", t.str());
            let (p, c) = y.verif_parts();
            check!(spec::letter_pos(c) == b[b.len() - 1].to_ascii_lowercase() as u16 * 2, "wrong letter", "{:?}: {y:?}", t.str());
            check!(p.map(spec::letter_pos) == if b.len() == 2 { Some(b[0].to_ascii_lowercase() as u16 * 2) } else { None }, "wrong prefix", "{:?}: {y:?}", t.str());
        }
        Err(_) => {
            check!(!letters || (b.len() != 1 && b.len() != 2), "rejected a valid identifier", "{:?}", t.str());
        }
    }
    Outcome::Pass
}
/// What the numeric identifier grammar says about a text: digits, then optionally
/// a letter or digraph, maybe after a slash. None: not an identifier.
fn numeric_grammar(b: &[u8]) -> Option<(u32, u16)> {
    let mut i = 0;
    let mut n: u32 = 0;
    while i < b.len() && b[i].is_ascii_digit() {
        n = n * 10 + (b[i] - b'0') as u32;
        i += 1;
    }
    if i == 0 || n > 65535 {
        return None;
    }
    if i == b.len() {
        return Some((n, 0));
    }
    if b[i] == b'/' {
        i += 1;
    }
    match b.len() - i {
        1 if b[i].is_ascii_alphabetic() => Some((n, b[i].to_ascii_lowercase() as u16 * 2)),
        2 => {
            let (x, y) = (b[i].to_ascii_lowercase(), b[i + 1].to_ascii_lowercase());
            // "cs", "Cs" or "CS", but not "cS"
            if b[i].is_ascii_lowercase() && b[i + 1].is_ascii_uppercase() {
                return None;
            }
            let ok = matches!(
                (x, y),
                (b'c', b's') | (b'd', b'z') | (b'g', b'y') | (b'l', b'y') | (b'n', b'y') | (b's', b'z') | (b't', b'y') | (b'z', b's')
            );
            if ok {
                Some((n, x as u16 * 2 + 1))
            } else {
                None
            }
        }
        _ => None,
    }
}
/// A letter in either case, or a digraph in lower, upper or title case, and nothing else
pub fn letter_parse<S: Src>(s: &mut S) -> Outcome {
    let t = gen::ascii::<3, S>(s);
    let y = t.str().parse::<HungarianIdentifierChar>();
    let b = t.bytes();
    let want = match b.len() {
        1 | 2 if b[0].is_ascii_alphabetic() => {
            let mut n = [b'1', b[0], 0];
            if b.len() == 2 {
                n[2] = b[1];
            }
            numeric_grammar(&n[..b.len() + 1])
        }
        _ => None,
    };
    match y {
        Ok(y) => {
            check!(want == Some((1, spec::letter_pos(y))), "parsing disagrees with the alphabet", "{:?}: {y:?}", t.str());
        }
        Err(_) => {
            check!(want.is_none(), "a letter was rejected", "{:?}", t.str());
        }
    }
    Outcome::Pass
}
pub fn numeric_parse<S: Src>(s: &mut S) -> Outcome {
    let t = gen::text_of::<6, S>(s, b"0159/aAbcCszSyn .-");
    let y = t.str().parse::<NumericIdentifier>();
    let want = numeric_grammar(t.bytes());
    let got = y.ok().map(|y| {
        let (n, s) = spec::numeric_key(y);
        (n as u32, s)
    });
    check!(got == want, "parsing disagrees with the identifier grammar", "{:?}: {got:?}, expected {want:?}", t.str());
    Outcome::Pass
}
pub fn act_compact<S: Src>(s: &mut S) -> Outcome {
    let x = gen::act(s);
    let b = print(&x.compact_string());
    let y = ActIdentifier::from_compact_string(b.str());
    check!(matches!(y, Ok(y) if spec::act_key(x) == spec::act_key(y)), "compact string round trip", "{x:?} printed as {:?}", b.str());
    Outcome::Pass
}
pub fn numeric_range_compact<S: Src>(s: &mut S) -> Outcome {
    let x = gen::range(s, gen::numeric);
    let b = print(&x.compact_string());
    let y = IdentifierRange::<NumericIdentifier>::from_compact_string(b.str());
    check!(
        matches!(y, Ok(y) if same_numeric(x.first_in_range(), y.first_in_range()) && same_numeric(x.last_in_range(), y.last_in_range())),
        "compact string round trip", "{x:?} printed as {:?}", b.str()
    );
    Outcome::Pass
}
pub fn letter_range_compact<S: Src>(s: &mut S) -> Outcome {
    let x = gen::range(s, gen::letter);
    let b = print(&x.compact_string());
    let y = IdentifierRange::<HungarianIdentifierChar>::from_compact_string(b.str());
    check!(
        matches!(y, Ok(y) if y.first_in_range() == x.first_in_range() && y.last_in_range() == x.last_in_range()),
        "compact string round trip", "{x:?} printed as {:?}", b.str()
    );
    Outcome::Pass
}
/// The act's full name, for every act that has one in four-digit years
pub fn act_full_name<S: Src>(s: &mut S) -> Outcome {
    let x = ActIdentifier { year: 1000 + (s.u16() % 9000) as i16, number: 1 + (s.u16() % 3999) as i32 };
    let t = x.to_string();
    let y = t.parse::<ActIdentifier>();
    check!(matches!(&y, Ok(y) if spec::act_key(x) == spec::act_key(*y)), "name -> parse", "{x:?} printed as {t:?}: {y:?}");
    let sep = ["/", "_", ".", "-"][s.below(4) as usize];
    let t = format!("{}{sep}{}", x.year, x.number);
    let y = t.parse::<ActIdentifier>();
    check!(matches!(&y, Ok(y) if spec::act_key(x) == spec::act_key(*y)), "decimal form -> parse", "{t:?}: {y:?}");
    Outcome::Pass
}
/// Printing never panics, whatever the number
pub fn act_print_total<S: Src>(s: &mut S) -> Outcome {
    let x = gen::act(s);
    let t = x.to_string();
    check!(t.starts_with(&x.year.to_string()) && t.ends_with(". törvény"), "name", "{t}");
    Outcome::Pass
}
/// The String conversions used by serialization
pub fn string_bridge<S: Src>(s: &mut S) -> Outcome {
    let x = gen::numeric(s);
    check!(matches!(NumericIdentifier::try_from(String::from(x)), Ok(y) if y == x), "numeric", "{x:?}");
    let x = gen::letter(s);
    check!(matches!(HungarianIdentifierChar::try_from(String::from(x)), Ok(y) if y == x), "letter", "{x:?}");
    let x = gen::article(s);
    check!(matches!(ArticleIdentifier::try_from(String::from(x)), Ok(y) if y == x), "article", "{x:?}");
    let x = gen::paragraph(s);
    check!(matches!(ParagraphIdentifier::try_from(String::from(x)), Ok(y) if y == x), "paragraph", "{x:?}");
    let p = gen::opt(s, gen::latin);
    let x = PrefixedAlphabeticIdentifier::verif_new(p, gen::latin(s));
    check!(matches!(PrefixedAlphabeticIdentifier::try_from(String::from(x)), Ok(y) if y == x), "prefixed", "{x:?}");
    Outcome::Pass
}
obligations! { P01:
    letter, proved, "", "HungarianIdentifierChar: Display, FromStr, TryFrom<char>", [kani::proof, kani::unwind(8)];
    letter_uppercase, proved, "", "UppercaseHungarianIdentifierChar: Display; HungarianIdentifierChar: FromStr", [kani::proof, kani::unwind(8)];
    letter_from_char, proved, "", "TryFrom<char> for HungarianIdentifierChar", [kani::proof];
    letter_parse, bounded, "all ASCII texts of at most 3 bytes", "HungarianIdentifierChar: FromStr", [kani::proof, kani::unwind(8)];
    numeric, proved, "", "NumericIdentifier: Display, FromStr, split_suffix", [kani::proof, kani::unwind(12)];
    numeric_with_slash, proved, "", "NumericIdentifierWithSlash: Display; NumericIdentifier: FromStr", [kani::proof, kani::unwind(12)];
    article, deep, "", "ArticleIdentifier: Display, FromStr", [kani::proof, kani::unwind(14)];
    article_compact, deep, "", "ArticleIdentifier: CompactString", [kani::proof, kani::unwind(14)];
    paragraph, proved, "", "ParagraphIdentifier: Display, FromStr", [kani::proof, kani::unwind(12)];
    prefixed, standin, "all 702 identifiers, enumerated natively", "PrefixedAlphabeticIdentifier: Display, FromStr", [kani::proof, kani::unwind(8)];
    prefixed_parse, standin, "ASCII texts of at most 3 bytes, random and enumerated", "PrefixedAlphabeticIdentifier: FromStr", [kani::proof, kani::unwind(8)];
    numeric_parse, bounded, "texts of at most 6 bytes over an 18 character alphabet", "NumericIdentifier: FromStr", [kani::proof, kani::unwind(12)];
    act_compact, deep, "", "ActIdentifier: CompactString", [kani::proof, kani::unwind(20)];
    numeric_range_compact, standin, "enumerated and random values", "IdentifierRange<NumericIdentifier>: CompactString", [];
    letter_range_compact, proved, "", "IdentifierRange<HungarianIdentifierChar>: CompactString", [kani::proof, kani::unwind(8)];
    act_full_name, standin, "random years 1000..=9999 and numbers 1..=3999 (the regex engine is out of the verifier's reach)", "ActIdentifier: Display, FromStr", [];
    act_print_total, standin, "enumerated and random values", "ActIdentifier: Display", [];
    string_bridge, standin, "enumerated and random values", "From<_> for String / TryFrom<String> of all identifiers", [];
}
