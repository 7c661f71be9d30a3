//! P19: numbers, ordinals, months and dates written in words mean the same both ways.
#[cfg(bare)]
use crate::bare::*;
use crate::gen;
use crate::identifier::NumericIdentifier;
use crate::structure::{StructuralElement, StructuralElementType};
use crate::util::hun_str::*;
use crate::vf::{Outcome, Src};

const TENS: [&str; 10] = ["", "tizen", "huszon", "harminc", "negyven", "ötven", "hatvan", "hetven", "nyolcvan", "kilencven"];
const ROUND: [&str; 10] = ["nulladik", "tizedik", "huszadik", "harmincadik", "negyvenedik", "ötvenedik", "hatvanadik", "hetvenedik", "nyolcvanadik", "kilencvenedik"];
const ONES: [&str; 10] = ["", "egyedik", "kettedik", "harmadik", "negyedik", "ötödik", "hatodik", "hetedik", "nyolcadik", "kilencedik"];

/// The text consists of these two pieces
fn is(text: &str, a: &str, b: &str) -> bool {
    let (t, a, b) = (text.as_bytes(), a.as_bytes(), b.as_bytes());
    if t.len() != a.len() + b.len() {
        return false;
    }
    let mut i = 0;
    let mut ok = true;
    while i < t.len() {
        let want = if i < a.len() { a[i] } else { b[i - a.len()] };
        ok = ok && t[i] == want;
        i += 1;
    }
    ok
}
/// Hungarian ordinals
fn is_ordinal(n: usize, text: &str) -> bool {
    match n {
        1 => is(text, "első", ""),
        2 => is(text, "második", ""),
        100 => is(text, "századik", ""),
        _ if n % 10 == 0 => is(text, ROUND[n / 10], ""),
        _ => is(text, TENS[n / 10], ONES[n % 10]),
    }
}
/// Every number up to a hundred has its ordinal, no other number has one
pub fn ordinal<S: Src>(s: &mut S) -> Outcome {
    let n = s.u16();
    let r = n.to_hungarian();
    check!(r.is_ok() == (n <= 100), "numbers up to 100 have a name", "{n}: {r:?}");
    if let Ok(t) = r {
        check!(is_ordinal(n as usize, t), "the ordinal", "{n} is not {t}");
    }
    Outcome::Pass
}
pub fn ordinal_u8<S: Src>(s: &mut S) -> Outcome {
    let n = s.u8();
    let r = n.to_hungarian();
    check!(r.is_ok() == (n <= 100), "numbers up to 100 have a name", "{n}: {r:?}");
    if let Ok(t) = r {
        check!(is_ordinal(n as usize, t), "the ordinal", "{n} is not {t}");
    }
    Outcome::Pass
}
const MONTHS: [&str; 12] = ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"];
/// Names of months
pub fn month<S: Src>(s: &mut S) -> Outcome {
    let m = s.below(12);
    let r = text_to_month_hun(MONTHS[m as usize]);
    check!(matches!(r, Ok(x) if x == m + 1), "the month", "{}: {r:?}", MONTHS[m as usize]);
    Outcome::Pass
}
/// Special parts have their fixed names
pub fn special_part<S: Src>(s: &mut S) -> Outcome {
    let i = s.below(3);
    let t = StructuralElementType::Part { is_special: true };
    let r = t.parse_identifier(["ÁLTALÁNOS", "KÜLÖNÖS", "ZÁRÓ"][i as usize]);
    check!(matches!(&r, Ok(x) if x.verif_parts() == (i as u16 + 1, None)), "the number of a special part", "{r:?}");
    std::mem::forget(r);
    Outcome::Pass
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use chrono::{Datelike, NaiveDate};

    fn capital(t: &str) -> String {
        let mut c = t.chars();
        c.next().map_or(String::new(), |f| f.to_uppercase().collect::<String>() + c.as_str())
    }
    pub fn ordinal_back<S: Src>(s: &mut S) -> Outcome {
        let n = s.below(101);
        let lower: String = {
            let k = n as usize;
            match k {
                1 => "első".into(),
                2 => "második".into(),
                100 => "századik".into(),
                _ if k % 10 == 0 => ROUND[k / 10].into(),
                _ => format!("{}{}", TENS[k / 10], ONES[k % 10]),
            }
        };
        for t in [lower.clone(), capital(&lower), lower.to_uppercase()] {
            let r = u16::from_hungarian(&t);
            check!(matches!(r, Ok(x) if x == n as u16), "the number of an ordinal", "{t}: {r:?}");
            let r = u8::from_hungarian(&t);
            check!(matches!(r, Ok(x) if x == n), "the number of an ordinal", "{t}: {r:?}");
            let mut bad = t.clone();
            match s.below(4) {
                0 => bad.push(' '),
                1 => bad.insert(0, 'x'),
                2 => {
                    bad.pop();
                }
                _ => bad = format!("{bad}{t}"),
            }
            check!(u16::from_hungarian(&bad).is_err(), "not an ordinal", "{bad} was accepted");
        }
        Outcome::Pass
    }
    pub fn months<S: Src>(s: &mut S) -> Outcome {
        let m = s.below(12) as usize;
        let t = MONTHS[m];
        for bad in [capital(t), t.to_uppercase(), format!("{t} "), format!("{t}i"), t[..t.len() - 1].to_string(), String::new()] {
            check!(text_to_month_hun(&bad).is_err(), "not a month", "{bad} was accepted");
        }
        Outcome::Pass
    }
    pub fn date<S: Src>(s: &mut S) -> Outcome {
        let y = *gen::one_of(s, &[1945i32, 1990, 1996, 2000, 2004, 2010, 2011, 2012, 2024, 2100]);
        let (m, d) = (s.below(12) as u32 + 1, s.below(33) as u32);
        let rest = *gen::one_of(s, &["", ", kedd", " napján"]);
        let t = format!("{y}. {} {d}.{rest}", MONTHS[m as usize - 1]);
        let r = NaiveDate::from_hungarian(&t);
        let want = NaiveDate::from_ymd_opt(y, m, d);
        check!(r.as_ref().ok() == want.as_ref(), "the date", "{t}: {r:?} instead of {want:?}");
        for bad in [format!("{y}. {} {d}", MONTHS[m as usize - 1].to_uppercase()), format!("{y} {d}"), format!("x{t}"), String::new()] {
            check!(NaiveDate::from_hungarian(&bad).is_err(), "not a date", "{bad} was accepted");
        }
        Outcome::Pass
    }
    fn roman_digits(mut n: u16) -> String {
        let mut r = String::new();
        for (v, t) in [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")] {
            while n >= v {
                r.push_str(t);
                n -= v;
            }
        }
        r
    }
    /// Roman numerals, and those with a suffix
    pub fn roman<S: Src>(s: &mut S) -> Outcome {
        let n = s.u16();
        let suffix = gen::opt(s, gen::letter);
        let id = NumericIdentifier::verif_new(n, suffix);
        let r = id.to_roman();
        check!(r.is_ok() == (1..4000).contains(&n), "the numbers with a Roman form", "{n}: {r:?}");
        if let Ok(t) = r {
            let mut want = roman_digits(n);
            if let Some(x) = suffix {
                want += &format!("/{}", x.to_string().to_uppercase());
            }
            check!(t.to_uppercase() == want.to_uppercase(), "the Roman form", "{id:?}: {t}");
            let back = NumericIdentifier::from_roman(&t);
            check!(matches!(&back, Ok(x) if *x == id), "back from the Roman form", "{t}: {back:?}");
        }
        Outcome::Pass
    }
    /// What stands in front of a structural element's header is read back as its number
    pub fn header<S: Src>(s: &mut S) -> Outcome {
        let e = crate::gen_act::structural_element(s);
        let h = e.header_string();
        check!(h.is_ok(), "a header", "{e:?}");
        let h = h.unwrap();
        let (word, tail) = match e.element_type {
            StructuralElementType::Book => (" KÖNYV", ""),
            StructuralElementType::Part { .. } => (" RÉSZ", ""),
            StructuralElementType::Title => (". CÍM", ""),
            StructuralElementType::Chapter => (". FEJEZET", ""),
        };
        let word = format!("{word}{tail}");
        check!(h.ends_with(&word), "the header says what it is", "{e:?}: {h}");
        let r = e.element_type.parse_identifier(&h[..h.len() - word.len()]);
        check!(matches!(&r, Ok(x) if *x == e.identifier), "the header says which one it is", "{e:?}: {h}: {r:?}");
        Outcome::Pass
    }
    /// Same, where the numbers have no name
    pub fn header_any<S: Src>(s: &mut S) -> Outcome {
        let identifier = gen::numeric(s);
        let (n, suffix) = identifier.verif_parts();
        let element_type = match s.below(5) {
            0 => StructuralElementType::Book,
            1 => StructuralElementType::Part { is_special: false },
            2 => StructuralElementType::Part { is_special: true },
            3 => StructuralElementType::Title,
            _ => StructuralElementType::Chapter,
        };
        let e = StructuralElement { identifier, title: String::new(), element_type, last_change: None };
        let r = e.header_string();
        let nameable = match element_type {
            StructuralElementType::Book | StructuralElementType::Part { is_special: false } => n <= 100,
            StructuralElementType::Part { is_special: true } => (1..=3).contains(&n) && suffix.is_none(),
            _ => (1..4000).contains(&n),
        };
        check!(r.is_ok() == nameable, "a header exactly where there is a name", "{e:?}: {r:?}");
        let word = if element_type == StructuralElementType::Title { ". CÍM" } else { ". FEJEZET" };
        if let Some(number) = r.as_ref().ok().and_then(|h| h.strip_suffix(word)) {
            let back = element_type.parse_identifier(number);
            check!(matches!(&back, Ok(x) if *x == e.identifier), "the header says which one it is", "{e:?}: {r:?}: {back:?}");
        }
        Outcome::Pass
    }
}
#[cfg(not(kani))]
pub use native::*;

obligations! { P19:
    ordinal, proved, "", "ToHungarianString for u16, generated table", [kani::proof, kani::unwind(30)];
    ordinal_u8, proved, "", "ToHungarianString for u8, generated table", [kani::proof, kani::unwind(30)];
    month, proved, "", "text_to_month_hun", [kani::proof, kani::unwind(14)];
    special_part, proved, "", "StructuralElementType::parse_identifier, parse_special_part_identifier", [kani::proof, kani::unwind(14)];
    ordinal_back, standin, "all ordinals 0..=100 in three letter cases, and damaged ones", "FromHungarianString for u8, u16", [];
    months, standin, "damaged month names", "text_to_month_hun", [];
    date, standin, "all days of ten years", "FromHungarianString for NaiveDate", [];
    roman, standin, "representative and random numbers, all suffixes", "NumericIdentifier::to_roman, NumericIdentifier::from_roman", [];
    header, standin, "all kinds and numbers up to 100", "StructuralElement::header_string, StructuralElementType::parse_identifier", [];
    header_any, standin, "representative and random numbers", "StructuralElement::header_string", [];
}
