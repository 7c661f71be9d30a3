//! P09: slicing and concatenating lines keeps every character, where it was.
#[cfg(bare)]
use crate::bare::*;
use crate::gen;
use crate::util::indentedline::{IndentedLine, IndentedLinePart, EMPTY_LINE};
use crate::vf::{Outcome, Src};

const ABC: &[char] = &['a', 'b', ' '];
const HUN: &[char] = &['a', ' ', 'é', 'ű', '„', '”', '§', '-', '1'];

/// Absolute position of the i-th character
fn position(p: &[IndentedLinePart], i: usize) -> f64 {
    let mut x = 0.0;
    let mut j = 0;
    while j <= i {
        x += p[j].dx;
        j += 1;
    }
    x
}
/// Index as in Python: negative ones count from the end; clamped to the line
fn index(i: i64, len: usize) -> usize {
    let len = len as i128;
    let i = if i < 0 { i as i128 + len } else { i as i128 };
    if i < 0 {
        0
    } else if i > len {
        len as usize
    } else {
        i as usize
    }
}
fn is_part_of(r: &IndentedLine, l: &IndentedLine, lo: usize, hi: usize) -> Outcome {
    let (rp, lp) = (r.verif_parts(), l.verif_parts());
    check!(rp.len() == hi - lo, "number of characters", "{l:?} [{lo}..{hi}]: {r:?}");
    let mut i = 0;
    while i < rp.len() {
        check!(rp[i].content == lp[lo + i].content, "characters", "{l:?} [{lo}..{hi}]: {r:?}");
        check!(rp[i].bold == lp[lo + i].bold, "boldness of characters", "{l:?} [{lo}..{hi}]: {r:?}");
        check!(position(rp, i) == position(lp, lo + i), "positions of characters", "{l:?} [{lo}..{hi}]: {r:?}");
        i += 1;
    }
    check!(r.is_justified() == (l.is_justified() && hi == lp.len() && lo < hi), "justified exactly if it reaches the justified end", "{l:?} [{lo}..{hi}]: {r:?}");
    Outcome::Pass
}
/// The derived data of a line agrees with its characters
fn coherent(r: &IndentedLine) -> Outcome {
    let p = r.verif_parts();
    let mut bold = 0;
    let mut i = 0;
    let mut it = r.content().chars();
    while i < p.len() {
        check!(it.next() == Some(p[i].content), "content() disagrees with the characters", "{r:?}");
        if p[i].bold {
            bold += 1;
        }
        i += 1;
    }
    check!(it.next().is_none(), "content() has more characters", "{r:?}");
    check!(r.is_bold() == (bold * 3 > p.len() * 2), "bold exactly if more than two thirds of it is", "{r:?}");
    check!(r.len() == p.len() && r.is_empty() == p.is_empty(), "length", "{r:?}");
    check!(r.indent() == if p.is_empty() { 0.0 } else { p[0].dx }, "indent", "{r:?}");
    Outcome::Pass
}
macro_rules! sub {
    ($e:expr) => {
        match $e {
            Outcome::Pass => (),
            o => return o,
        }
    };
}
fn slice_contract<S: Src>(s: &mut S, l: &IndentedLine) -> Outcome {
    let from = s.i64();
    let to = gen::opt(s, |s| s.i64());
    slice_at(l, from, to)
}
fn slice_at(l: &IndentedLine, from: i64, to: Option<i64>) -> Outcome {
    let n = l.verif_parts().len();
    let lo = index(from, n);
    let hi = match to {
        Some(t) => index(t, n),
        None => n,
    };
    let r = l.slice(from, to);
    if lo >= hi {
        check!(r.verif_parts().is_empty() && r.content().is_empty(), "an empty slice is empty", "{l:?} [{from}..{to:?}]: {r:?}");
    } else {
        sub!(is_part_of(&r, l, lo, hi));
    }
    coherent(&r)
}
/// Every pair of indices around the ends of a line, in turn; any positions and boldness
pub fn slice_small<S: Src>(s: &mut S) -> Outcome {
    const IDX: [i64; 4] = [i64::MIN, -1, 1, 3];
    let l = gen::marked_line(s, 2);
    let mut i = 0;
    while i < IDX.len() {
        let mut j = 0;
        while j <= IDX.len() {
            let to = if j < IDX.len() { Some(IDX[j]) } else { None };
            sub!(slice_at(&l, IDX[i], to));
            j += 1;
        }
        i += 1;
    }
    Outcome::Pass
}
pub fn slice<S: Src>(s: &mut S) -> Outcome {
    let l = gen::line(s, 9, HUN);
    slice_contract(s, &l)
}
pub fn construction_small<S: Src>(s: &mut S) -> Outcome {
    let l = gen::marked_line(s, 4);
    coherent(&l)
}
pub fn construction<S: Src>(s: &mut S) -> Outcome {
    let j = s.bool();
    let p = gen::line_parts(s, 12, HUN);
    let l = IndentedLine::from_parts(p.clone(), j);
    sub!(coherent(&l));
    check!(l.is_justified() == j, "justified as told", "{l:?}");
    check!(l.verif_parts().len() == p.len(), "keeps all parts", "{l:?}");
    check!(p.iter().zip(l.verif_parts()).all(|(x, y)| x.dx == y.dx && x.content == y.content && x.bold == y.bold), "keeps all parts", "{l:?}");
    let b = l.as_bold();
    check!(b.content() == l.content() && b.is_justified() == l.is_justified() && b.verif_parts().len() == l.verif_parts().len(), "as_bold keeps the text", "{l:?}: {b:?}");
    check!(b.is_bold() && b.verif_parts().iter().all(|p| p.bold), "as_bold is bold", "{l:?}: {b:?}");
    check!(b.verif_parts().iter().zip(l.verif_parts()).all(|(x, y)| x.dx == y.dx && x.content == y.content), "as_bold keeps the positions", "{l:?}: {b:?}");
    Outcome::Pass
}
/// The same by byte offsets, at every character boundary
pub fn slice_bytes<S: Src>(s: &mut S) -> Outcome {
    let l = gen::line(s, 6, HUN);
    let n = l.verif_parts().len();
    let lo = s.below(7) as usize;
    let hi = s.below(9) as usize;
    assume!(lo <= n);
    let off = |i: usize| l.verif_parts()[..i.min(n)].iter().map(|p| p.content.len_utf8()).sum::<usize>() + i.saturating_sub(n);
    let to = if hi == 8 { None } else { Some(off(hi)) };
    let hi = hi.min(n);
    let r = l.slice_bytes(off(lo), to);
    if lo >= hi {
        check!(r.is_empty() && r.content().is_empty(), "an empty slice is empty", "{l:?} [{lo}..{hi}]: {r:?}");
        Outcome::Pass
    } else {
        sub!(is_part_of(&r, &l, lo, hi));
        check!(r.content() == &l.content()[off(lo)..off(hi)], "the bytes asked for", "{l:?} [{lo}..{hi}]: {r:?}");
        coherent(&r)
    }
}
fn concat_contract(ls: &[IndentedLine]) -> Outcome {
    let refs: Vec<&IndentedLine> = ls.iter().collect();
    let r = IndentedLine::from_multiple(&refs);
    let rp = r.verif_parts();
    let mut k = 0;
    let mut justified = false;
    for l in ls {
        let lp = l.verif_parts();
        let mut i = 0;
        while i < lp.len() {
            check!(k < rp.len(), "characters lost", "{ls:?}: {r:?}");
            check!(rp[k].content == lp[i].content, "characters", "{ls:?}: {r:?}");
            check!(rp[k].bold == lp[i].bold, "boldness", "{ls:?}: {r:?}");
            check!(position(rp, k) == position(lp, i), "positions of characters", "{ls:?}: {r:?}");
            k += 1;
            i += 1;
        }
        if !lp.is_empty() {
            justified = l.is_justified();
        }
    }
    check!(k == rp.len(), "extra characters", "{ls:?}: {r:?}");
    check!(r.is_justified() == justified, "justified as its last non-empty line is", "{ls:?}: {r:?}");
    coherent(&r)
}
pub fn concat_small<S: Src>(s: &mut S) -> Outcome {
    let a = gen::marked_line(s, 2);
    let b = gen::marked_line(s, 2);
    concat_contract(&[a, b])
}
pub fn concat<S: Src>(s: &mut S) -> Outcome {
    let n = s.below(5);
    let mut ls = vec![];
    for _ in 0..n {
        ls.push(gen::line(s, 4, HUN));
    }
    concat_contract(&ls)
}
/// Slices of a line at a point put together give the line back
pub fn split_and_concat<S: Src>(s: &mut S) -> Outcome {
    let l = gen::line(s, 8, HUN);
    let at = s.i64();
    let r = IndentedLine::from_multiple(&[&l.slice(0, Some(at)), &l.slice(at, None)]);
    assume!(!l.is_empty());
    is_part_of(&r, &l, 0, l.len())
}
fn indent_at_contract<S: Src>(s: &mut S, l: &IndentedLine) -> Outcome {
    let i = s.i64();
    let n = l.verif_parts().len();
    let r = l.indent_at(i);
    if n == 0 {
        check!(r == 0.0, "an empty line starts at 0", "{l:?} at {i}: {r}");
    } else {
        let k = index(i, n);
        let k = if k >= n { n - 1 } else { k };
        check!(r == position(l.verif_parts(), k), "position of a character, or of the last one past the end", "{l:?} at {i}: {r}");
    }
    Outcome::Pass
}
pub fn indent_at_small<S: Src>(s: &mut S) -> Outcome {
    let l = gen::marked_line(s, 3);
    indent_at_contract(s, &l)
}
pub fn indent_at<S: Src>(s: &mut S) -> Outcome {
    let l = gen::line(s, 9, HUN);
    indent_at_contract(s, &l)
}
pub fn empty_line<S: Src>(_s: &mut S) -> Outcome {
    sub!(coherent(&EMPTY_LINE));
    check!(EMPTY_LINE.is_empty() && !EMPTY_LINE.is_justified(), "the empty line");
    Outcome::Pass
}
obligations! { P09:
    slice_small, bounded, "lines of 2 characters with any positions and boldness, each pair out of 4 boundary indices (all indices: native stand-in, and the indent_at contract for index conversion)", "IndentedLine::{slice,convert_index,from_parts}", [kani::proof, kani::unwind(12)];
    construction_small, bounded, "lines of 4 characters with any positions and boldness", "IndentedLine::{from_parts,content,is_bold,len,is_empty,indent}", [kani::proof, kani::unwind(7)];
    concat_small, bounded, "two lines of 2 characters with any positions and boldness", "IndentedLine::from_multiple", [kani::proof, kani::unwind(7)];
    indent_at_small, bounded, "lines of 3 characters with any positions, all i64 indices", "IndentedLine::{indent_at,convert_index}", [kani::proof, kani::unwind(7)];
    empty_line, proved, "", "EMPTY_LINE", [kani::proof, kani::unwind(3)];
    slice, standin, "lines of at most 9 characters", "IndentedLine::slice", [];
    slice_bytes, standin, "lines of at most 6 characters, all boundaries", "IndentedLine::slice_bytes", [];
    construction, standin, "lines of at most 12 characters", "IndentedLine::{from_parts,as_bold}", [];
    concat, standin, "up to 4 lines of at most 4 characters", "IndentedLine::from_multiple", [];
    split_and_concat, standin, "lines of at most 8 characters", "IndentedLine::{slice,from_multiple}", [];
    indent_at, standin, "lines of at most 9 characters", "IndentedLine::indent_at", [];
}
