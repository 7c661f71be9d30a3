//! Lines for the modular contracts of the structure parsers. A line is told apart by its
//! letter; the rest of a header line has the capital one.
use crate::util::indentedline::IndentedLine;

#[derive(Debug, Clone, Copy)]
pub struct Desc {
    pub place: usize,
    pub empty: bool,
    pub rest: bool,
    /// how it begins and ends: index into BEGIN and END
    pub begin: usize,
    pub end: usize,
    pub indent: f64,
    pub justified: bool,
    pub bold: bool,
}
pub const BEGIN: [&str; 5] = ["", "„", "“", "(", "["];
pub const END: [&str; 6] = ["", "”", ")", "]", ":", "„"];
pub fn desc(place: usize) -> Desc {
    Desc { place, empty: false, rest: false, begin: 0, end: 0, indent: 10.0, justified: true, bold: false }
}
pub fn quotes(d: &Desc) -> i8 {
    if d.empty {
        0
    } else {
        (d.begin == 1 || d.begin == 2) as i8 + (d.end == 5) as i8 - (d.end == 1) as i8
    }
}

mod imp {
    use super::*;
    use crate::util::indentedline::{IndentedLinePart, EMPTY_LINE};
    pub fn line(d: &Desc) -> IndentedLine {
        if d.empty {
            return EMPTY_LINE;
        }
        let text = format!("{}{}{}", BEGIN[d.begin], (if d.rest { b'A' } else { b'a' } + d.place as u8) as char, END[d.end]);
        let mut dx = d.indent;
        IndentedLine::from_parts(text.chars().map(|content| IndentedLinePart { dx: std::mem::replace(&mut dx, 1.0), content, bold: d.bold }).collect(), d.justified)
    }
    pub fn letter(l: &IndentedLine) -> u8 {
        l.content().bytes().find(|b| b.is_ascii_alphabetic()).unwrap_or(0)
    }
}
pub use imp::*;

pub fn place(l: &IndentedLine) -> usize {
    let c = letter(l);
    (if c >= b'a' { c - b'a' } else { c - b'A' }) as usize
}
/// A list of lines as a number: 4 bits for each, 1 + its place
pub fn pack(acc: u32, place: usize) -> u32 {
    acc * 16 + 1 + place as u32
}
pub fn pack_lines(acc: u32, l: &[IndentedLine]) -> u32 {
    let mut acc = acc;
    let mut i = 0;
    while i < l.len() {
        if !l[i].is_empty() {
            acc = pack(acc, place(&l[i]));
        }
        i += 1;
    }
    acc
}
/// The lines a text was joined from
pub fn pack_text(acc: u32, t: &str) -> u32 {
    let b = t.as_bytes();
    let mut acc = acc;
    let mut i = 0;
    while i < b.len() {
        if b[i] >= b'a' && b[i] <= b'z' {
            acc = pack(acc, (b[i] - b'a') as usize);
        } else if b[i] >= b'A' && b[i] <= b'Z' {
            acc = pack(acc, (b[i] - b'A') as usize);
        }
        i += 1;
    }
    acc
}
pub fn pack_opt(acc: u32, t: &Option<String>) -> u32 {
    match t {
        Some(t) => pack_text(acc, t),
        None => acc,
    }
}
