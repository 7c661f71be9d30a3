//! P10: joining lines into text.
use crate::gen;
use crate::util::indentedline::IndentedLine;
use crate::vf::{Outcome, Src};

/// What joining means: a single space between the texts, unless one of them is empty
/// or the first one ends in a hyphen that is a word break (not the one of "kis- és nagy")
fn needs_space(s: &str, l: &str) -> bool {
    if s.is_empty() || l.is_empty() {
        return false;
    }
    let b = s.as_bytes();
    b[b.len() - 1] != b'-' || l.starts_with("és ") || l.starts_with("vagy ")
}
/// r == s + [space] + l
fn is_joined(r: &str, s: &str, l: &str) -> bool {
    let sp = needs_space(s, l) as usize;
    let (r, s, l) = (r.as_bytes(), s.as_bytes(), l.as_bytes());
    if r.len() != s.len() + sp + l.len() {
        return false;
    }
    let mut i = 0;
    while i < r.len() {
        let want = if i < s.len() {
            s[i]
        } else if i < s.len() + sp {
            b' '
        } else {
            l[i - s.len() - sp]
        };
        if r[i] != want {
            return false;
        }
        i += 1;
    }
    true
}
const MENU: &[&str] = &["", "a", "-", "és ", "és", "vagy ", "vagya", "b-", " és ", "é", "vagy", "a b-", "és más", "vagy más", "–", "a –", "−", "\u{ad}", ".-", "és\u{a0}", "És "];

/// Every pair of texts of the menu, the verifier choosing
pub fn append_menu<S: Src>(s: &mut S) -> Outcome {
    let a = MENU[s.below(8) as usize];
    let b = MENU[s.below(6) as usize];
    let line = gen::plain_line(b, 5.0, false);
    let mut r = String::from(a);
    line.append_to(&mut r);
    check!(is_joined(&r, a, b), "append_to", "{a:?} + {b:?} = {r:?}");
    Outcome::Pass
}
pub fn append<S: Src>(s: &mut S) -> Outcome {
    let a = gen::pieces(s, 4, MENU);
    let b = gen::pieces(s, 4, MENU);
    let mut r = a.clone();
    gen::plain_line(&b, 5.0, false).append_to(&mut r);
    check!(is_joined(&r, &a, &b), "append_to", "{a:?} + {b:?} = {r:?}");
    Outcome::Pass
}
/// Any ASCII character before, each line of a short menu after
pub fn append_small<S: Src>(s: &mut S) -> Outcome {
    const LINES: [&str; 4] = ["", "x", "és ", "és"];
    let a = [s.below(128)];
    let text = unsafe { std::str::from_utf8_unchecked(&a) };
    let mut i = 0;
    while i < LINES.len() {
        let l = gen::plain_line(LINES[i], 5.0, false);
        let mut r = String::with_capacity(16);
        r.push_str(text);
        l.append_to(&mut r);
        check!(is_joined(&r, text, LINES[i]), "append_to", "{text:?} + {l:?} = {r:?}");
        i += 1;
    }
    Outcome::Pass
}
pub fn join<S: Src>(s: &mut S) -> Outcome {
    let n = s.below(6);
    let texts: Vec<String> = (0..n).map(|_| gen::pieces(s, 3, MENU)).collect();
    let lines: Vec<IndentedLine> = texts.iter().map(|t| gen::plain_line(t, 5.0, false)).collect();
    let r = IndentedLine::join(&lines);
    let mut want = String::new();
    for t in &texts {
        if needs_space(&want, t) {
            want.push(' ');
        }
        want.push_str(t);
    }
    check!(r == want, "join", "{texts:?}: {r:?}, expected {want:?}");
    let strip = |x: &str| x.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    check!(strip(&r) == strip(&texts.concat()), "text lost", "{texts:?}: {r:?}");
    Outcome::Pass
}
obligations! { P10:
    append_small, bounded, "any ASCII character before, each of four lines", "IndentedLine::append_to", [kani::proof, kani::unwind(9)];
    append_menu, standin, "pairs out of a menu of texts", "IndentedLine::append_to", [kani::proof, kani::unwind(16)];
    append, standin, "texts of up to 4 pieces", "IndentedLine::append_to", [];
    join, standin, "up to 5 lines of up to 3 pieces", "IndentedLine::join", [];
}
