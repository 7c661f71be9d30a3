//! Symbolic / sampled values of the real types (type invariants only).
#[cfg(bare)]
use crate::bare::*;
use crate::identifier::range::{IdentifierRange, IdentifierRangeFrom};
use crate::identifier::*;
use crate::reference::parts::*;
use crate::vf::VerifReferenceParts;
use crate::vf::Src;

/// Any letter the type documents: 'a'..='z' or one of the eight digraphs.
pub fn letter<S: Src>(s: &mut S) -> HungarianIdentifierChar {
    use HungarianIdentifierChar::*;
    match s.below(34) {
        26 => Cs,
        27 => Dz,
        28 => Gy,
        29 => Ly,
        30 => Ny,
        31 => Sz,
        32 => Ty,
        33 => Zs,
        x => Latin(b'a' + x),
    }
}
pub fn latin<S: Src>(s: &mut S) -> HungarianIdentifierChar {
    HungarianIdentifierChar::Latin(b'a' + s.below(26))
}
pub fn opt<S: Src, T>(s: &mut S, f: impl FnOnce(&mut S) -> T) -> Option<T> {
    if s.bool() {
        Some(f(s))
    } else {
        None
    }
}
pub fn numeric<S: Src>(s: &mut S) -> NumericIdentifier {
    let n = s.u16();
    NumericIdentifier::verif_new(n, opt(s, letter))
}
pub fn article<S: Src>(s: &mut S) -> ArticleIdentifier {
    let b = opt(s, |s| s.u8());
    ArticleIdentifier::from_book_and_id(b, numeric(s))
}
pub fn paragraph<S: Src>(s: &mut S) -> ParagraphIdentifier {
    match opt(s, numeric) {
        Some(n) => n.into(),
        None => ParagraphIdentifier::default(),
    }
}
pub fn prefixed<S: Src>(s: &mut S) -> PrefixedAlphabeticIdentifier {
    let p = opt(s, letter);
    PrefixedAlphabeticIdentifier::verif_new(p, letter(s))
}
pub fn act<S: Src>(s: &mut S) -> ActIdentifier {
    ActIdentifier { year: s.i16(), number: s.i32() }
}
/// Any range, including reversed and single-element ones
pub fn range<S: Src, T: IdentifierCommon>(s: &mut S, f: impl Fn(&mut S) -> T) -> IdentifierRange<T> {
    let a = f(s);
    if s.bool() {
        IdentifierRange::from_single(a)
    } else {
        let b = f(s);
        IdentifierRange::from_range(a, b)
    }
}
pub fn point<S: Src>(s: &mut S) -> RefPartPoint {
    if s.bool() {
        RefPartPoint::Numeric(range(s, numeric))
    } else {
        RefPartPoint::Alphabetic(range(s, letter))
    }
}
pub fn subpoint<S: Src>(s: &mut S) -> RefPartSubpoint {
    if s.bool() {
        RefPartSubpoint::Numeric(range(s, numeric))
    } else {
        RefPartSubpoint::Alphabetic(range(s, prefixed))
    }
}
/// Any combination of reference parts, well formed or not
pub fn parts<S: Src>(s: &mut S) -> VerifReferenceParts {
    (
        opt(s, act),
        opt(s, |s| range(s, article)),
        opt(s, |s| range(s, numeric)),
        opt(s, point),
        opt(s, subpoint),
    )
}

/// A second set of parts: any, but often sharing its upper levels with the first one
pub fn parts_near<S: Src>(s: &mut S, p: &VerifReferenceParts) -> VerifReferenceParts {
    let k = s.below(6) as usize;
    let q = parts(s);
    crate::spec::splice(p, &q, 0, k)
}

/// A fixed-size text buffer, so that printing needs no allocation under the verifier
pub struct Buf {
    pub data: [u8; 48],
    pub len: usize,
}
impl Buf {
    pub fn new() -> Self {
        Buf { data: [0; 48], len: 0 }
    }
    pub fn str(&self) -> &str {
        // Only whole strs are ever written
        unsafe { std::str::from_utf8_unchecked(&self.data[..self.len]) }
    }
}
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        if self.len + b.len() > 48 {
            return Err(std::fmt::Error);
        }
        let mut i = 0;
        while i < b.len() {
            self.data[self.len + i] = b[i];
            i += 1;
        }
        self.len += b.len();
        Ok(())
    }
}
pub fn print(x: &impl std::fmt::Display) -> Buf {
    use std::fmt::Write;
    let mut b = Buf::new();
    let r = write!(b, "{x}");
    if r.is_err() {
        // cannot be parsed by anything
        b.len = 0;
    }
    b
}
/// A string of up to N bytes out of a fixed ASCII alphabet
pub struct Text<const N: usize> {
    pub data: [u8; N],
    pub len: usize,
}
impl<const N: usize> Text<N> {
    pub fn str(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.data[..self.len]) }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.data[..self.len]
    }
}
pub fn ascii<const N: usize, S: Src>(s: &mut S) -> Text<N> {
    let mut data = [0; N];
    let len = s.below(N as u8 + 1) as usize;
    let mut i = 0;
    while i < N {
        if i < len {
            data[i] = s.below(128);
        }
        i += 1;
    }
    Text { data, len }
}
/// Same, from the given alphabet
pub fn text_of<const N: usize, S: Src>(s: &mut S, alphabet: &[u8]) -> Text<N> {
    let mut data = [0; N];
    let len = s.below(N as u8 + 1) as usize;
    let mut i = 0;
    while i < N {
        if i < len {
            data[i] = alphabet[s.below(alphabet.len() as u8) as usize];
        }
        i += 1;
    }
    Text { data, len }
}

// ------------------------------------------------------------------ lines
use crate::util::indentedline::{IndentedLine, IndentedLinePart};

/// Up to `max` parts over the given characters; positions are multiples of 0.5,
/// so that sums are exact in whatever order they are taken
pub fn line_parts<S: Src>(s: &mut S, max: u8, alphabet: &[char]) -> Vec<IndentedLinePart> {
    let n = s.below(max + 1);
    let mut v = Vec::with_capacity(n as usize);
    let mut i = 0;
    while i < n {
        let content = alphabet[s.below(alphabet.len() as u8) as usize];
        let dx = s.below(16) as f64 * 0.5;
        let bold = s.bool();
        v.push(IndentedLinePart { dx, content, bold });
        i += 1;
    }
    v
}
pub fn line<S: Src>(s: &mut S, max: u8, alphabet: &[char]) -> IndentedLine {
    let justified = s.bool();
    IndentedLine::from_parts(line_parts(s, max, alphabet), justified)
}
/// A line with the given text, all characters 5 units wide
pub fn plain_line(text: &str, indent: f64, bold: bool) -> IndentedLine {
    let mut first = true;
    let parts = text
        .chars()
        .map(|content| {
            let dx = if first { indent } else { 5.0 };
            first = false;
            IndentedLinePart { dx, content, bold }
        })
        .collect();
    IndentedLine::from_parts(parts, true)
}
/// A text of up to `max` pieces out of the list
pub fn pieces<S: Src>(s: &mut S, max: u8, list: &[&str]) -> String {
    let n = s.below(max + 1);
    let mut r = String::new();
    for _ in 0..n {
        r.push_str(list[s.below(list.len() as u8) as usize]);
    }
    r
}
pub fn one_of<'a, S: Src, T>(s: &mut S, list: &'a [T]) -> &'a T {
    &list[s.below(list.len() as u8) as usize]
}

/// The first `n` letters of the alphabet as a line: distinct characters and widths, any
/// boldness. (The code under contract never looks at which characters or widths these are.)
pub fn marked_line<S: Src>(s: &mut S, n: usize) -> IndentedLine {
    let justified = s.bool();
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        // powers of two: every sum of some of these tells which ones
        let dx = (1u64 << i) as f64;
        let bold = s.bool();
        v.push(IndentedLinePart { dx, content: (b'a' + i as u8) as char, bold });
        i += 1;
    }
    IndentedLine::from_parts(v, justified)
}
/// A one-character line that tells which one it is
pub fn tagged_line(tag: usize) -> IndentedLine {
    let mut v = Vec::with_capacity(1);
    v.push(IndentedLinePart { dx: 1.0, content: (b'a' + tag as u8) as char, bold: false });
    IndentedLine::from_parts(v, true)
}
pub fn tag_of(l: &IndentedLine) -> usize {
    let p = l.verif_parts();
    if p.len() == 1 {
        (p[0].content as usize).wrapping_sub('a' as usize)
    } else {
        usize::MAX
    }
}
