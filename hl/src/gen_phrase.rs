//! Sentences in the gazette's phrasing, written together with what they say.
#[cfg(bare)]
use crate::bare::*;
use crate::gen;
use crate::identifier::range::{IdentifierRange, IdentifierRangeFrom};
use crate::identifier::*;
use crate::reference::parts::*;
use crate::reference::structural::*;
use crate::reference::Reference;
use crate::vf::VerifReferenceParts;
use crate::semantic_info::{self, OutgoingReference, SpecialPhrase};
use crate::spec;
use crate::vf::Src;
use std::collections::BTreeMap;

/// Known in every text. One is the beginning of another one.
pub const KNOWN: &[(&str, i16, i32)] = &[("Ptk.", 2013, 5), ("Eva tv.", 2002, 43), ("Kt.", 1999, 7), ("Kt. vhr.", 2001, 70), ("Ötv.", 1990, 65)];
const ORDINALS: [&str; 27] = [
    "első", "második", "harmadik", "negyedik", "ötödik", "hatodik", "hetedik", "nyolcadik", "kilencedik", "tizedik", "tizenegyedik", "tizenkettedik", "tizenharmadik", "tizennegyedik", "tizenötödik", "tizenhatodik", "tizenhetedik",
    "tizennyolcadik", "tizenkilencedik", "huszadik", "harmincadik", "negyvenedik", "ötvenedik", "hatvanadik", "hetvenedik", "nyolcvanadik", "kilencvenedik",
];
const NEW: &[&str] = &["Áfa tv.", "Tbj.", "új Btk.", "Kt."];
pub fn known() -> BTreeMap<String, ActIdentifier> {
    KNOWN.iter().map(|(a, year, number)| (a.to_string(), ActIdentifier { year: *year, number: *number })).collect()
}
pub fn roman(mut n: i32) -> String {
    const D: [(i32, &str); 13] =
        [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")];
    let mut r = String::new();
    for (v, t) in D {
        while n >= v {
            r += t;
            n -= v;
        }
    }
    r
}
fn numeric(n: u16, suffix: Option<u8>) -> NumericIdentifier {
    NumericIdentifier::verif_new(n, suffix.map(|c| HungarianIdentifierChar::Latin(c)))
}
fn latin(c: u8) -> HungarianIdentifierChar {
    HungarianIdentifierChar::Latin(c)
}
const DIGRAPHS: &[(&str, HungarianIdentifierChar)] = &[("cs", HungarianIdentifierChar::Cs), ("ny", HungarianIdentifierChar::Ny), ("sz", HungarianIdentifierChar::Sz), ("zs", HungarianIdentifierChar::Zs)];

pub struct W<'a, S: Src> {
    pub s: &'a mut S,
    pub t: String,
    /// what is to be found
    pub refs: Vec<OutgoingReference>,
    pub abbreviations: BTreeMap<String, ActIdentifier>,
    pub known: BTreeMap<String, ActIdentifier>,
    /// the known ones are not the same ones any more
    pub changed: bool,
    /// what a relative reference is relative to
    cur: VerifReferenceParts,
    start: Option<usize>,
    /// a combination no reference can have was written
    pub bad: bool,
    used: Vec<String>,
    /// an article was named only for the reader
    pub aside: bool,
    /// the last article was only a place to stand beside
    beside: bool,
}
impl<'a, S: Src> W<'a, S> {
    pub fn new(s: &'a mut S) -> Self {
        Self::after(s, known())
    }
    pub fn after(s: &'a mut S, known: BTreeMap<String, ActIdentifier>) -> Self {
        W { s, t: String::new(), refs: vec![], abbreviations: BTreeMap::new(), known, changed: false, cur: spec::NOTHING, start: None, bad: false, used: vec![], aside: false, beside: false }
    }
    pub fn put(&mut self, t: &str) {
        self.t += t;
    }
    pub fn pick(&mut self, list: &[&'static str]) -> &'static str {
        *gen::one_of(self.s, list)
    }
    fn any(&mut self, list: &[&'static str]) {
        let t = self.pick(list);
        self.put(t);
    }
    fn set(&mut self, level: usize, part: VerifReferenceParts, start: usize) {
        let upper = spec::splice(&self.cur, &spec::NOTHING, 0, level);
        self.cur = spec::splice(&part, &upper, level, level + 1);
        self.start.get_or_insert(start);
    }
    fn record(&mut self) {
        if !spec::valid(&self.cur) {
            self.bad = true;
        }
        let reference = Reference::verif_new(self.cur);
        let start = self.start.take().unwrap_or(0);
        self.refs.push(OutgoingReference { start, end: self.t.len(), reference });
    }
    /// Relative references are not relative to what came before this
    pub fn forget(&mut self) {
        self.cur = spec::NOTHING;
        self.start = None;
    }
    pub fn separator(&mut self) {
        self.any(&[", ", " és ", ", valamint ", " vagy ", ", illetve ", "; ", " és a ", ", a ", " valamint az ", " és az ", "; és ", "; illetve a "]);
    }
    // ------------------------------------------------------------------- acts
    fn act_id(&mut self) -> ActIdentifier {
        let a = ActIdentifier { year: 1990 + self.s.below(40) as i16, number: 1 + self.s.below(250) as i32 };
        let start = self.t.len();
        let suffix = self.pick(&["törvény", "törvénynek", "tv."]);
        self.put(&format!("{}. évi {}. {suffix}", a.year, roman(a.number)));
        self.set(0, (Some(a), None, None, None, None), start);
        a
    }
    /// A name of an act; it is a reference
    pub fn act(&mut self) -> ActIdentifier {
        if self.s.bool() {
            let all: Vec<(String, ActIdentifier)> = self.known.iter().map(|(a, b)| (a.clone(), *b)).collect();
            let (t, a) = gen::one_of(self.s, &all).clone();
            let start = self.t.len();
            self.put(&t);
            self.used.push(t);
            self.set(0, (Some(a), None, None, None, None), start);
            self.record();
            return a;
        }
        let a = self.act_id();
        self.record();
        match self.s.below(4) {
            0 => {
                let n = self.pick(NEW);
                let colon = self.pick(&[":", ""]);
                self.put(&format!(" (a továbbiakban{colon} {n})"));
                // what an abbreviation meant before it was given another meaning: not said here
                self.bad |= self.used.iter().any(|u| u == n);
                self.abbreviations.insert(n.into(), a);
                self.changed |= self.known.insert(n.into(), a) != Some(a);
            }
            1 => self.put(&format!(" (a továbbiakban: {}. évi {}. törvény)", a.year, roman(a.number))),
            _ => (),
        }
        a
    }
    /// "A ... szóló Ptk."
    pub fn the_act(&mut self, the: &[&'static str]) -> ActIdentifier {
        self.any(the);
        match self.s.below(4) {
            0 => self.put("Polgári Törvénykönyvről szóló "),
            1 => self.put("jövedéki adóról szóló 2016. évi LXVIII. törvény módosításáról szóló "),
            _ => (),
        }
        self.act()
    }
    // ------------------------------------------------------------- references
    fn list(&mut self, level: usize, max: u8, range_last: bool, mut one: impl FnMut(&mut Self, bool) -> VerifReferenceParts) {
        let n = 1 + self.s.below(max);
        for i in 0..n {
            if i > 0 {
                self.record();
                self.separator();
            }
            let start = self.t.len();
            let ranged = (i + 1 < n || range_last) && self.s.below(4) == 0;
            let p = one(self, ranged);
            self.set(level, p, start);
        }
    }
    fn dash(&mut self) -> &'static str {
        self.pick(&["–", "-", "−"])
    }
    fn number(&mut self) -> u16 {
        match self.s.below(8) {
            0 => 100 + self.s.below(200) as u16,
            1 => 65000,
            _ => 1 + self.s.below(20) as u16,
        }
    }
    fn one_article(&mut self, ranged: bool) -> IdentifierRange<ArticleIdentifier> {
        let book = if self.s.below(4) == 0 { Some(1 + self.s.below(8)) } else { None };
        let b = book.map_or(String::new(), |b| format!("{b}:"));
        let n = self.number();
        let suffix = if self.s.below(3) == 0 { Some(b'a' + self.s.below(25)) } else { None };
        let show = |n: u16, c: Option<u8>| c.map_or(format!("{n}"), |c| format!("{n}/{}", (c as char).to_ascii_uppercase()));
        let id = |n, c| ArticleIdentifier::from_book_and_id(book, numeric(n, c));
        if !ranged {
            self.put(&format!("{b}{}.", show(n, suffix)));
            return IdentifierRange::from_single(id(n, suffix));
        }
        let (n2, c2) = match suffix {
            Some(c) if self.s.bool() => (n, Some(c + 1)),
            _ => (n + 1 + self.s.below(9) as u16, None),
        };
        let d = self.dash();
        let first = show(n, suffix) + self.pick(&["", ". §", ". §-"]);
        let first = if first.ends_with('-') { first + "a" } else { first };
        let again = if self.s.bool() { b.clone() } else { String::new() };
        self.put(&format!("{b}{first}{d}{again}{}.", show(n2, c2)));
        IdentifierRange::from_range(id(n, suffix), id(n2, c2))
    }
    fn paragraphs(&mut self, max: u8, range_last: bool, suffix: &[&'static str]) {
        self.list(spec::PARAGRAPH, max, range_last, |w, ranged| {
            let n = w.number();
            let (t, c) = match w.s.below(6) {
                0 => ("a".to_string(), Some(latin(b'a'))),
                1 => {
                    let (t, c) = *gen::one_of(w.s, DIGRAPHS);
                    (t.to_string(), Some(c))
                }
                _ => (String::new(), None),
            };
            let a = NumericIdentifier::verif_new(n, c);
            w.put(&format!("({n}{t})"));
            if !ranged {
                return (None, None, Some(IdentifierRange::from_single(a)), None, None);
            }
            let d = w.dash();
            let m = n + 1 + w.s.below(5) as u16;
            w.put(&format!("{d}({m})"));
            (None, None, Some(IdentifierRange::from_range(a, m.into())), None, None)
        });
        self.put(" ");
        self.any(suffix);
    }
    fn points(&mut self, max: u8, range_last: bool, suffix: &[&'static str]) {
        if self.s.bool() {
            self.list(spec::POINT, max, range_last, |w, ranged| {
                let n = w.number();
                let (slash, c) = match w.s.below(6) {
                    0 => ("/", Some(b'a' + w.s.below(25))),
                    1 => ("", Some(b'a' + w.s.below(25))),
                    _ => ("", None),
                };
                let a = numeric(n, c);
                let t = c.map_or(String::new(), |c| format!("{slash}{}", c as char));
                if !ranged {
                    w.put(&format!("{n}{t}."));
                    return (None, None, None, Some(RefPartPoint::Numeric(IdentifierRange::from_single(a))), None);
                }
                let (d, m) = (w.dash(), n + 1 + w.s.below(5) as u16);
                w.put(&format!("{n}{t}{d}{m}."));
                (None, None, None, Some(RefPartPoint::Numeric(IdentifierRange::from_range(a, m.into()))), None)
            });
        } else {
            self.list(spec::POINT, max, range_last, |w, ranged| {
                if !ranged && w.s.below(4) == 0 {
                    let (t, c) = *gen::one_of(w.s, DIGRAPHS);
                    w.put(&format!("{t})"));
                    return (None, None, None, Some(RefPartPoint::Alphabetic(IdentifierRange::from_single(c))), None);
                }
                let c = b'a' + w.s.below(20);
                if !ranged {
                    w.put(&format!("{})", c as char));
                    return (None, None, None, Some(RefPartPoint::Alphabetic(IdentifierRange::from_single(latin(c)))), None);
                }
                let (d, e) = (w.dash(), c + 1 + w.s.below(5));
                let p = w.pick(&[")", ""]);
                w.put(&format!("{}{p}{d}{})", c as char, e as char));
                (None, None, None, Some(RefPartPoint::Alphabetic(IdentifierRange::from_range(latin(c), latin(e)))), None)
            });
        }
        self.put(" ");
        self.any(suffix);
    }
    fn subpoints(&mut self, max: u8, suffix: &[&'static str]) {
        if self.s.bool() {
            self.list(spec::SUBPOINT, max, true, |w, ranged| {
                let n = w.number();
                let a = NumericIdentifier::from(n);
                if !ranged {
                    w.put(&format!("{n}."));
                    return (None, None, None, None, Some(RefPartSubpoint::Numeric(IdentifierRange::from_single(a))));
                }
                let (d, m) = (w.dash(), n + 1 + w.s.below(5) as u16);
                w.put(&format!("{n}{d}{m}."));
                (None, None, None, None, Some(RefPartSubpoint::Numeric(IdentifierRange::from_range(a, m.into()))))
            });
        } else {
            self.list(spec::SUBPOINT, max, true, |w, ranged| {
                let p = if w.s.bool() { Some(b'a' + w.s.below(26)) } else { None };
                let c = b'a' + w.s.below(20);
                let id = |c| PrefixedAlphabeticIdentifier::verif_new(p.map(latin), latin(c));
                let show = |c: u8| format!("{}{}", p.map_or(String::new(), |p| (p as char).to_string()), c as char);
                if !ranged {
                    w.put(&format!("{})", show(c)));
                    return (None, None, None, None, Some(RefPartSubpoint::Alphabetic(IdentifierRange::from_single(id(c)))));
                }
                let (d, e) = (w.dash(), c + 1 + w.s.below(5));
                w.put(&format!("{}){d}{})", show(c), show(e)));
                (None, None, None, None, Some(RefPartSubpoint::Alphabetic(IdentifierRange::from_range(id(c), id(e)))))
            });
        }
        self.put(" ");
        self.any(suffix);
    }
    /// One reference, from one level to another. `end`: what its last word may end in
    pub fn reference_at(&mut self, from: usize, to: usize, max: u8, with_paragraph: bool) {
        if from == spec::ARTICLE {
            self.list(spec::ARTICLE, max, to == spec::ARTICLE, |w, ranged| (None, Some(w.one_article(ranged)), None, None, None));
            self.put(" ");
            self.any(&["§", "§-a", "§-ában", "§-át", "§-ról", "§-től", "§-ökkel", "§-ű", "§-úí", "§-ü"]);
        }
        let mut first = from != spec::ARTICLE;
        if from <= spec::PARAGRAPH && to >= spec::PARAGRAPH && (with_paragraph || to == spec::PARAGRAPH || from == spec::PARAGRAPH) {
            if !std::mem::take(&mut first) {
                self.put(" ");
            }
            self.paragraphs(max, to == spec::PARAGRAPH, &["bekezdés", "bekezdése", "bekezdésének", "bekezdésében", "bekezdésétől", "bekezdéséről"]);
        }
        if from <= spec::POINT && to >= spec::POINT {
            if !std::mem::take(&mut first) {
                self.put(" ");
            }
            self.points(max, to == spec::POINT, &["pont", "pontja", "pontjában", "pontjáról"]);
        }
        if to >= spec::SUBPOINT {
            if !first {
                self.put(" ");
            }
            self.subpoints(max, &["alpont", "alpontja", "alpontjában"]);
        }
        self.record();
    }
    pub fn reference(&mut self, max: u8) -> usize {
        let from = 1 + self.s.below(4) as usize;
        let to = from + self.s.below(5 - from as u8) as usize;
        let p = self.s.bool();
        self.reference_at(from, to, max, p);
        from
    }
    /// Any number of references in a row
    pub fn references(&mut self, max: u8) {
        for i in 0..1 + self.s.below(3) {
            if i > 0 {
                self.separator();
            }
            self.reference(max);
        }
    }
    pub fn quote(&mut self) -> String {
        let t = self.pick(&["a régi szöveg", "5. § (1) bekezdése", "x", ", valamint", "a „belső” rész", "Hatályát veszti a Ptk. 5. §-a.", "2013. évi V. törvény"]);
        self.put(&format!("„{t}”"));
        t.to_string()
    }
    pub fn attachment(&mut self) {
        self.any(&["1. melléklete", "2. számú melléklet", "3–5. melléklete", "1. és 2. melléklete"]);
    }
    /// Words, numbers and signs that mean nothing here
    pub fn words(&mut self) {
        self.any(&["szerint", "eljáró hatóság", "nem alkalmazható", "12 napon belül", "a fogalom – ha van –", "(bírság)", "100%", "ÁRVÍZTŰRŐ", "e törvény", "köz-ben", "Törvény 5."]);
    }
    // --------------------------------------------------- structural references
    fn structural_id(&mut self) -> NumericIdentifier {
        let n = 1 + self.s.below(30) as u16;
        let suffix = if self.s.below(3) == 0 { Some(b'a' + self.s.below(26)) } else { None };
        let c = suffix.map_or(String::new(), |c| format!("/{}", (c as char).to_ascii_uppercase()));
        self.put(&format!("{}{c}.", roman(n as i32)));
        numeric(n, suffix)
    }
    fn ordinal(&mut self) -> NumericIdentifier {
        let n = 1 + self.s.below(19) as u16;
        let t = ORDINALS[n as usize - 1];
        let t = if self.s.bool() {
            t.to_uppercase()
        } else {
            let mut c = t.chars();
            c.next().unwrap().to_uppercase().chain(c).collect()
        };
        self.put(&t);
        n.into()
    }
    pub fn book(&mut self) -> NumericIdentifier {
        let n = self.ordinal();
        self.put(" ");
        self.any(&["Könyv", "könyve", "KÖNYVE"]);
        n
    }
    fn subtitle_id(&mut self) -> NumericIdentifier {
        let n = 1 + self.s.below(90) as u16;
        let suffix = if self.s.below(3) == 0 { Some(b'a' + self.s.below(26)) } else { None };
        let c = suffix.map_or(String::new(), |c| format!("/{}", (c as char).to_ascii_uppercase()));
        self.put(&format!("{n}{c}"));
        numeric(n, suffix)
    }
    pub fn structural(&mut self) -> StructuralReferenceParent {
        self.structural_or_title(false)
    }
    /// The title of it will follow
    fn structural_or_title(&mut self, title: bool) -> StructuralReferenceParent {
        match self.s.below(6) {
            0 => {
                let n = self.structural_id();
                self.put(" ");
                self.any(&["fejezete", "Fejezet", "FEJEZETE"]);
                StructuralReferenceParent::Chapter(n)
            }
            1 => {
                let n = self.ordinal();
                self.put(" ");
                self.any(&["része", "RÉSZE", "Rész"]);
                StructuralReferenceParent::Part(n)
            }
            2 => {
                let n = self.structural_id();
                self.put(" ");
                self.any(&["cím", "Cím", "CÍM"]);
                StructuralReferenceParent::Title(n)
            }
            3 => {
                let n = self.subtitle_id();
                if self.s.below(3) == 0 {
                    let d = self.dash();
                    self.put(d);
                    let m = self.subtitle_id();
                    self.put(". alcím");
                    return StructuralReferenceParent::SubtitleRange(IdentifierRange::from_range(n, m));
                }
                self.put(". ");
                self.any(&["alcím", "alcíme"]);
                StructuralReferenceParent::SubtitleId(n)
            }
            4 => {
                let t = self.quote();
                self.put(" ");
                self.any(&["alcíme", "című alcíme", "alcím"]);
                StructuralReferenceParent::SubtitleTitle(t)
            }
            _ => {
                let t = self.pick(&["Terrorizmus", "Terrorizmus finanszírozása", "A gyámság megszűnése"]);
                self.put(t);
                if title {
                    self.any(&[" alcím", " című alcím"]);
                } else {
                    self.any(&[" alcíme", " című alcíme", " alcímében"]);
                }
                StructuralReferenceParent::SubtitleTitle(t.into())
            }
        }
    }
    fn single_article(&mut self, suffix: &[&'static str]) -> ArticleIdentifier {
        let start = self.t.len();
        let a = self.one_article(false);
        self.put(" ");
        self.any(suffix);
        self.set(spec::ARTICLE, (None, Some(a), None, None, None), start);
        self.record();
        a.first_in_range()
    }
    /// Next to an article
    fn beside(&mut self, the: &'static str) -> StructuralReferenceElement {
        self.put(the);
        if self.s.bool() {
            let a = self.single_article(&["§-t", "§"]);
            self.any(&[" követően", " követő"]);
            StructuralReferenceElement::SubtitleAfterArticle(a)
        } else {
            let a = self.single_article(&["§-t", "§-át"]);
            self.any(&[" megelőzően", " megelőző", " előtti"]);
            StructuralReferenceElement::SubtitleBeforeArticle(a)
        }
    }
    // ----------------------------------------------------------- text amendments
    fn amended(&mut self, act: ActIdentifier, repeal: bool, out: &mut Vec<semantic_info::TextAmendmentReference>) {
        use semantic_info::{TextAmendmentReference as R, TextAmendmentSAEPart as P};
        match self.s.below(8) {
            0 if !repeal => {
                self.single_article(&["§", "§-ának"]);
                self.beside = false;
                self.any(&[" címében", " szakaszcíme", " szakaszcímében"]);
                out.push(R::ArticleTitle(self.refs[self.refs.len() - 1].reference.clone()));
            }
            1 => {
                let parent = if self.s.below(3) == 0 {
                    let p = self.structural();
                    self.put(" ");
                    Some(p)
                } else {
                    None
                };
                let mut book = None;
                if parent.is_none() && self.s.below(4) == 0 {
                    book = Some(self.book());
                    self.put(" ");
                }
                let title_only = self.s.below(3) == 0;
                let e = self.structural_or_title(title_only).into();
                if title_only {
                    self.any(&[" címe", " címében"]);
                }
                out.push(R::Structural(StructuralReference { act: Some(act), book, parent, structural_element: e, title_only }));
            }
            2 => {
                let e = self.beside("");
                self.beside = true;
                self.any(&[" alcím", " 5. alcím", " alcím címében"]);
                out.push(R::Structural(StructuralReference { act: Some(act), book: None, parent: None, structural_element: e, title_only: false }));
            }
            3 => {
                let a = self.subtitle_id();
                self.any(&[". és ", "., ", ". vagy "]);
                let b = self.subtitle_id();
                self.any(&[". alcíme", ". alcím"]);
                for x in [a, b] {
                    out.push(R::Structural(StructuralReference { act: Some(act), book: None, parent: None, structural_element: StructuralReferenceElement::SubtitleId(x), title_only: false }));
                }
            }
            4 => self.attachment(),
            _ => {
                let n = self.refs.len();
                let from = self.reference(3);
                // relative to a place beside an article: not said here
                self.bad |= self.beside && from != spec::ARTICLE;
                self.beside = false;
                let part = match self.s.below(4) {
                    0 if !repeal => {
                        self.any(&[" nyitó szövegrészében", " nyitó szövegrésze"]);
                        P::IntroOnly
                    }
                    1 if !repeal => {
                        self.put(" záró szövegrészében");
                        P::WrapUpOnly
                    }
                    _ => P::All,
                };
                for r in &self.refs[n..] {
                    out.push(R::SAE { reference: r.reference.clone(), amended_part: part.clone() });
                }
            }
        }
    }
    pub fn text_amendment(&mut self) -> SpecialPhrase {
        let act = self.the_act(&["A ", "Az ", "a "]);
        let mut where_ = vec![];
        for i in 0..1 + self.s.below(3) {
            if i == 0 {
                self.put(" ");
            } else {
                self.separator();
            }
            self.amended(act, false, &mut where_);
        }
        let n = 1 + self.s.below(2);
        let mut parts = vec![];
        for i in 0..n {
            self.any(if i == 0 { &[" a ", " az ", " "] } else { &[", a ", " és az ", ", valamint az "] });
            let from = self.quote();
            self.any(&[" szövegrész helyébe a ", " szövegrészek helyett az ", " szöveg helyébe "]);
            let to = self.quote();
            if i + 1 == n || self.s.bool() {
                self.any(&[" szöveg", " szövegek", " szöveggel"]);
            }
            parts.push((from, to));
        }
        self.any(&[" lép.", " lép hatályba.", ", lép."]);
        SpecialPhrase::TextAmendment(
            where_
                .iter()
                .flat_map(|r| parts.iter().map(|(from, to)| semantic_info::TextAmendment { reference: r.clone(), from: from.clone(), to: to.clone() }))
                .collect(),
        )
    }
    pub fn repeal(&mut self) -> SpecialPhrase {
        use semantic_info::{RepealReference, TextAmendmentReference as R};
        self.any(&["Hatályát veszti ", "Hatályát veszíti ", "Nem lép hatályba "]);
        let act = self.the_act(&["a ", "az "]);
        let mut where_ = vec![];
        let texts = self.s.below(3);
        let n = self.s.below(4);
        for i in 0..n {
            if i == 0 {
                self.put(" ");
            } else {
                self.separator();
            }
            self.amended(act, texts == 0, &mut where_);
        }
        let mut from = vec![];
        for i in 0..texts {
            self.any(if i == 0 { &[" a ", " az ", " "] } else { &[", az ", " és a ", ", valamint az "] });
            from.push(self.quote());
            if i + 1 == texts || self.s.bool() {
                self.any(&[" szövegrész", " szövegrészek"]);
            }
        }
        self.put(".");
        if texts > 0 {
            return SpecialPhrase::TextAmendment(
                where_.iter().flat_map(|r| from.iter().map(|f| semantic_info::TextAmendment { reference: r.clone(), from: f.clone(), to: String::new() })).collect(),
            );
        }
        let mut all: Vec<RepealReference> = where_
            .into_iter()
            .map(|r| match r {
                R::SAE { reference, .. } => RepealReference::Reference(reference),
                R::Structural(x) => RepealReference::StructuralReference(x),
                R::ArticleTitle(x) => RepealReference::Reference(x),
            })
            .collect();
        if n == 0 {
            all.push(RepealReference::Reference(Reference::verif_new((Some(act), None, None, None, None))));
        }
        SpecialPhrase::Repeal(all)
    }
    // ---------------------------------------------------------- block amendments
    fn position(&mut self, from: usize) -> Option<Reference> {
        let all: Vec<VerifReferenceParts> = self.refs[from..].iter().map(|r| r.reference.verif_parts()).collect();
        let first = all.iter().map(|p| spec::endpoint(p, false)).min_by(spec::document_order)?;
        let last = all.iter().map(|p| spec::endpoint(p, true)).max_by(spec::document_order)?;
        Some(Reference::verif_new(spec::range_between(&first, &last)?))
    }
    /// None: what was written is not one range
    pub fn block_amendment(&mut self) -> Option<SpecialPhrase> {
        let act = self.the_act(&["A ", "Az ", "a "]);
        let from = self.refs.len();
        let parent = if self.s.below(4) == 0 {
            self.put(" ");
            Some(self.structural())
        } else {
            None
        };
        self.put(" ");
        const REPLACED: &[&str] = &[
            " helyébe a következő rendelkezés lép", " helyébe az alábbi rendelkezések lépnek", " a következő szöveggel lép hatályba", " az alábbiak szerint módosul",
        ];
        const INSERTED: &[&str] = &[" egészül ki:", " kiegészülve lép hatályba:"];
        let mut pure = false;
        match self.s.below(4) {
            0 | 1 => {
                self.whole(3);
                self.any(REPLACED);
                self.put(":");
            }
            2 => {
                pure = true;
                self.insertion();
                self.any(INSERTED);
            }
            _ => {
                self.whole(3);
                self.any(REPLACED);
                self.any(&[", és ", " és ", ", ezzel egyidejűleg ", ", valamint "]);
                self.insertion();
                self.any(INSERTED);
            }
        }
        let p = self.position(from)?;
        let parts = p.verif_parts();
        Some(if spec::last_filled(&parts) == Some(spec::ARTICLE) {
            SpecialPhrase::StructuralBlockAmendment(semantic_info::StructuralBlockAmendment {
                position: StructuralReference { act: Some(act), book: None, parent, structural_element: StructuralReferenceElement::Article(parts.1?), title_only: false },
                pure_insertion: pure,
            })
        } else {
            SpecialPhrase::BlockAmendment(semantic_info::BlockAmendment { position: p, pure_insertion: pure })
        })
    }
    /// From the article down, one element at every level but the last
    fn whole(&mut self, max: u8) {
        let to = 1 + self.s.below(4) as usize;
        let p = self.s.bool();
        self.reference_at(spec::ARTICLE, to, if to == spec::ARTICLE { max } else { 1 }, p);
    }
    fn insertion(&mut self) {
        const NEXT: &[&str] = &["a következő ", "az alábbi ", "a következő "];
        match self.s.below(5) {
            0 => {
                self.any(NEXT);
                self.list(spec::ARTICLE, 2, true, |w, ranged| (None, Some(w.one_article(ranged)), None, None, None));
                self.any(&[" §-sal", " §-okkal"]);
                self.record();
            }
            1 => {
                self.s_article();
                self.any(NEXT);
                self.paragraphs(2, true, &["bekezdéssel", "bekezdésekkel"]);
                self.record();
            }
            2 => {
                self.s_article();
                if self.s.bool() {
                    self.list(spec::PARAGRAPH, 1, false, |w, _| {
                        let n = w.number();
                        w.put(&format!("({n})"));
                        (None, None, Some(IdentifierRange::from_single(n.into())), None, None)
                    });
                    self.put(" bekezdése ");
                }
                self.any(NEXT);
                self.points(2, true, &["ponttal", "pontokkal"]);
                self.record();
            }
            3 => {
                self.s_article();
                self.points(1, false, &["pontja"]);
                self.put(" ");
                self.any(NEXT);
                self.subpoints(2, &["alponttal", "alpontokkal"]);
                self.record();
            }
            _ => {
                // "this article", or "this paragraph": whatever was amended
                if self.cur.1.map_or(true, |a| a.is_range()) || self.cur.2.is_none() && self.cur.3.is_none() {
                    return self.insertion();
                }
                if self.cur.3.is_some() {
                    if self.cur.2.is_some() {
                        self.any(&["a bekezdés ", "a § ", ""]);
                    } else {
                        self.any(&["a § ", ""]);
                    }
                    self.put("a következő ");
                    self.points(2, true, &["ponttal"]);
                } else {
                    self.any(&["a § ", ""]);
                    self.put("a következő ");
                    self.paragraphs(2, true, &["bekezdéssel"]);
                }
                self.record();
            }
        }
    }
    fn s_article(&mut self) {
        self.list(spec::ARTICLE, 1, false, |w, _| (None, Some(w.one_article(false)), None, None, None));
        self.any(&[" §-a ", " § "]);
    }
    pub fn structural_amendment(&mut self) -> SpecialPhrase {
        let act = self.the_act(&["A ", "Az ", "a "]);
        self.put(" ");
        const REPLACED: &[&str] = &[" helyébe a következő rendelkezések lépnek:", " helyébe a következő fejezet lép:", " a következő szöveggel lép hatályba:", " helyébe az alábbi rész lép:", " helyébe a következő cím lép:"];
        const INSERTED: &[&str] = &[" egészül ki:", " kiegészülve lép hatályba:"];
        let mut position = StructuralReference { act: Some(act), book: None, parent: None, structural_element: StructuralReferenceElement::SubtitleUnknown, title_only: false };
        let mut pure_insertion = false;
        let mut big = |w: &mut Self| match w.s.below(2) {
            0 => {
                let n = w.structural_id();
                w.any(&[" fejezettel", " Fejezettel", " FEJEZETTEL"]);
                StructuralReferenceElement::Chapter(n)
            }
            _ => {
                let n = w.ordinal();
                w.any(&[" résszel", " Résszel", " RÉSSZEL"]);
                StructuralReferenceElement::Part(n)
            }
        };
        match self.s.below(9) {
            0 => {
                if self.s.below(3) == 0 {
                    position.book = Some(self.book());
                    self.put(" ");
                }
                let title = self.s.below(3) == 0;
                position.structural_element = self.structural_or_title(title).into();
                if title {
                    self.put(" címe");
                    position.title_only = true;
                }
                self.any(REPLACED);
            }
            1 => {
                position.parent = Some(self.structural());
                self.put(" ");
                position.structural_element = self.structural().into();
                self.any(REPLACED);
            }
            2 => {
                position.parent = Some(self.structural());
                self.put(" a következő ");
                position.structural_element = big(self);
                self.any(INSERTED);
                pure_insertion = true;
            }
            3 => {
                if self.s.bool() {
                    position.book = Some(self.book());
                    self.put(" ");
                }
                self.put("a következő ");
                position.structural_element = big(self);
                self.any(INSERTED);
                pure_insertion = true;
            }
            4 => {
                // the article it stands at is only for the reader
                let n = self.refs.len();
                self.beside("az ");
                self.refs.truncate(n);
                self.aside = true;
                self.put(" a következő ");
                position.structural_element = big(self);
                self.any(INSERTED);
                pure_insertion = true;
            }
            5 => {
                let a = self.single_article(&["§-a", "§"]);
                self.put(" és az ");
                self.any(&["azt ", "", "§-t "]);
                self.put("megelőző alcím");
                self.any(&[" helyébe a következő rendelkezés és alcím lép:", " helyébe a következő alcím és rendelkezés lép:", " helyébe a következő rendelkezések lépnek:"]);
                position.structural_element = StructuralReferenceElement::SubtitleBeforeArticleInclusive(a);
            }
            6 => {
                if self.s.bool() {
                    position.parent = Some(self.structural());
                    self.put(" ");
                }
                if self.s.bool() {
                    position.structural_element = self.beside("az ");
                    self.put(" ");
                }
                self.put("a következő alcímmel");
                self.any(INSERTED);
                pure_insertion = true;
            }
            7 => {
                self.put("a következő ");
                let n = self.subtitle_id();
                self.put(". alcímmel");
                position.structural_element = StructuralReferenceElement::SubtitleId(n);
                if self.s.bool() {
                    self.put(" és ");
                    position.structural_element = StructuralReferenceElement::SubtitleBeforeArticleInclusive(self.single_article(&["§-sal"]));
                }
                self.any(INSERTED);
                pure_insertion = true;
            }
            _ => {
                position.structural_element = self.beside("a ");
                self.put(" alcím helyébe a következő ");
                self.any(&["alcím lép:", "rendelkezés lép:"]);
            }
        }
        SpecialPhrase::StructuralBlockAmendment(semantic_info::StructuralBlockAmendment { position, pure_insertion })
    }
    // -------------------------------------------------------- enforcement dates
    fn date(&mut self) -> chrono::NaiveDate {
        const M: [&str; 12] = ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"];
        let (y, m, d) = (1990 + self.s.below(60) as i32, self.s.below(12) as u32, 1 + self.s.below(28) as u32);
        let suffix = self.pick(&["-án", "-jén", "-én", ". napján"]);
        self.put(&format!("{y}. {} {d}{suffix}", M[m as usize]));
        chrono::NaiveDate::from_ymd_opt(y, m + 1, d).unwrap()
    }
    fn day(&mut self) -> u16 {
        if self.s.below(3) == 0 {
            let n = 1 + self.s.below(200) as u16;
            self.put(&format!("{n}."));
            return n;
        }
        let i = self.s.below(27) as u16;
        self.put(ORDINALS[i as usize]);
        let n = if i < 19 { i + 1 } else { (i - 17) * 10 };
        n
    }
    pub fn enforcement_date(&mut self) -> SpecialPhrase {
        use semantic_info::EnforcementDateType as D;
        let mut structural_positions = vec![];
        let mut n = 0;
        let from = self.refs.len();
        if self.s.bool() {
            self.any(&["Ez a törvény", "E törvény"]);
            if self.s.below(3) == 0 {
                self.any(&[" – a (2) bekezdésben foglalt kivétellel –", " – a 5. § (1)–(3) bekezdésében meghatározott kivételekkel –", " a (2) bekezdés szerinti kivétellel"]);
            }
            if self.s.below(4) == 0 {
                n = 1 + self.s.below(3);
            }
        } else {
            self.any(&["A", "Az"]);
            n = 1 + self.s.below(4);
        }
        for i in 0..n {
            if i == 0 {
                self.put(" ");
            } else {
                self.separator();
            }
            let plain = |e| StructuralReference { act: None, book: None, parent: None, structural_element: e, title_only: false };
            match self.s.below(6) {
                0 => {
                    let book = if self.s.below(3) == 0 {
                        let b = self.book();
                        self.put(" ");
                        Some(b)
                    } else {
                        None
                    };
                    let e = self.structural().into();
                    structural_positions.push(StructuralReference { book, ..plain(e) });
                }
                1 => {
                    for j in 0..2 {
                        let x = self.subtitle_id();
                        self.put(if j == 0 { ". és " } else { ". alcíme" });
                        structural_positions.push(plain(StructuralReferenceElement::SubtitleId(x)));
                    }
                }
                2 => self.attachment(),
                _ => {
                    self.reference(3);
                }
            }
        }
        self.any(&[" ", " a ", " az "]);
        let date = match self.s.below(4) {
            0 | 1 => D::Date(self.date()),
            2 => {
                self.any(&["a kihirdetését követő ", "e törvény kihirdetését követő ", "kihirdetést követő "]);
                let d = if self.s.bool() {
                    let d = self.day();
                    self.put(" ");
                    d
                } else {
                    1
                };
                self.put("napon");
                D::DaysAfterPublication(d)
            }
            _ => {
                self.any(&["a kihirdetését követő ", "kihirdetést követő "]);
                let month = if self.s.bool() {
                    let (n, t) = *gen::one_of(self.s, &[(1u8, "első "), (2, "második "), (12, "tizenkettedik ")]);
                    self.put(t);
                    Some(n)
                } else {
                    None
                };
                self.put("hónap ");
                let day = self.day();
                self.put(" napján");
                D::DayInMonthAfterPublication { month, day }
            }
        };
        self.put(" lép hatályba");
        let inline_repeal = if self.s.below(4) == 0 {
            self.any(&[", és ", " és ez a törvény ", ", és e törvény "]);
            let d = self.date();
            self.any(&[" hatályát veszti", " a hatályát veszti"]);
            Some(d)
        } else {
            None
        };
        self.put(".");
        let positions = self.refs[from..].iter().map(|r| r.reference.clone()).collect();
        SpecialPhrase::EnforcementDate(semantic_info::EnforcementDate { positions, structural_positions, is_default: n == 0, date, inline_repeal })
    }
    // ---------------------------------------------------------------- any sentence
    pub fn simple(&mut self) {
        for i in 0..1 + self.s.below(4) {
            if i > 0 {
                self.put(" ");
            }
            match self.s.below(8) {
                0 => {
                    self.quote();
                }
                1 => {
                    self.attachment();
                    // what may follow belongs to the attachment
                    self.put(" és");
                }
                2 | 3 => self.words(),
                4 => {
                    self.forget();
                    self.act();
                }
                5 => {
                    self.forget();
                    self.act();
                    self.put(" ");
                    self.references(3);
                }
                _ => {
                    self.forget();
                    self.references(3);
                }
            }
            self.forget();
            self.any(&[" szerint", " alapján", " kell", " nem", " – így –"]);
        }
        self.any(&[".", "", ":", "?", " esetén:"]);
    }
    /// None: not a meaningful one
    pub fn sentence(&mut self, kind: u8) -> Option<Option<SpecialPhrase>> {
        let p = match kind {
            0 => Some(self.text_amendment()),
            1 => Some(self.repeal()),
            2 => Some(self.block_amendment()?),
            3 => Some(self.structural_amendment()),
            4 => Some(self.enforcement_date()),
            _ => {
                self.simple();
                None
            }
        };
        if self.bad {
            return None;
        }
        Some(p)
    }
}
