//! P11: quote levels.
#[cfg(bare)]
use crate::bare::*;
use crate::gen;
use crate::util::QuoteCheck;
use crate::vf::{Outcome, Src};

fn change(line: &str) -> i64 {
    let mut n = 0;
    for c in line.chars() {
        if c == '„' || c == '“' {
            n += 1;
        } else if c == '”' {
            n -= 1;
        }
    }
    n
}
/// One line after any history: the state is arbitrary
fn step_contract(q0: QuoteCheck, l: &crate::util::indentedline::IndentedLine) -> Outcome {
    let level = q0.quote_level;
    let mut q = q0;
    let r = q.update(l);
    let mut delta = 0;
    for p in l.verif_parts() {
        if p.content == '„' || p.content == '“' {
            delta += 1;
        } else if p.content == '”' {
            delta -= 1;
        }
    }
    check!(q.quote_level == level + delta, "the level counts opening minus closing marks", "{level} {l:?}: {q:?}");
    check!(q.beginning_is_quoted == (level > 0), "beginning_is_quoted", "{level} {l:?}: {q:?}");
    check!(q.end_is_quoted == (level + delta > 0), "end_is_quoted", "{level} {l:?}: {q:?}");
    check!(r.is_ok() == (level + delta >= 0), "malformed exactly if the level goes below zero", "{level} {l:?}: {q:?}");
    let lvl = q.quote_level;
    check!(q.check_end().is_ok() == (lvl == 0), "check_end accepts exactly level zero", "{lvl}");
    Outcome::Pass
}
fn state<S: Src>(s: &mut S) -> QuoteCheck {
    QuoteCheck { quote_level: s.i32() as i64, beginning_is_quoted: s.bool(), end_is_quoted: s.bool() }
}
pub fn step_small<S: Src>(s: &mut S) -> Outcome {
    // any state the history may have left, and each of these lines
    const LINES: [&str; 7] = ["", "„", "“", "”", "a", "„a“", "””"];
    let mut i = 0;
    while i < LINES.len() {
        let q = state(s);
        let l = gen::plain_line(LINES[i], 5.0, false);
        match step_contract(q, &l) {
            Outcome::Pass => (),
            o => return o,
        }
        i += 1;
    }
    Outcome::Pass
}
pub fn step<S: Src>(s: &mut S) -> Outcome {
    let q = state(s);
    let l = gen::line(s, 8, &['„', '“', '”', 'a', '"', '’', '»', ' ']);
    step_contract(q, &l)
}
pub fn fresh_and_end<S: Src>(s: &mut S) -> Outcome {
    let q = QuoteCheck::default();
    check!(q.quote_level == 0 && !q.beginning_is_quoted && !q.end_is_quoted, "starts outside quotes");
    let level = s.i64();
    let q = QuoteCheck { quote_level: level, beginning_is_quoted: s.bool(), end_is_quoted: s.bool() };
    check!(q.check_end().is_ok() == (level == 0), "check_end accepts exactly level zero", "{level}");
    Outcome::Pass
}
/// Whole documents: accepted exactly if every closing mark closes something, and all are closed
pub fn document<S: Src>(s: &mut S) -> Outcome {
    let n = s.below(6);
    let mut q = QuoteCheck::default();
    let (mut level, mut ok) = (0, true);
    for _ in 0..n {
        let t = gen::pieces(s, 4, &["„", "“", "”", "ab"]);
        let r = q.update(&gen::plain_line(&t, 5.0, false));
        level += change(&t);
        check!(r.is_ok() == (level >= 0), "malformed exactly if the level is below zero", "{t:?}");
        ok &= r.is_ok();
    }
    let e = q.check_end();
    check!((ok && e.is_ok()) == (ok && level == 0), "balanced exactly if accepted");
    Outcome::Pass
}
obligations! { P11:
    step_small, bounded, "seven lines of at most 2 characters, any state with a 32 bit level before", "QuoteCheck::{update,check_end}", [kani::proof, kani::unwind(10)];
    fresh_and_end, proved, "", "QuoteCheck::{default,check_end}", [kani::proof];
    step, standin, "lines of at most 8 characters, any level before", "QuoteCheck::{update,check_end}", [];
    document, standin, "documents of up to 5 lines", "QuoteCheck", [];
}
