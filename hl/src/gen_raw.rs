//! Random acts, together with the lines they are printed as (native side only).
//! The layout is the one of the gazette: article headers at the left, then paragraphs,
//! points and subpoints each further in, continuation lines never left of the header they
//! belong to (unless they cannot be headers at all).
#[cfg(bare)]
use crate::bare::*;
use chrono::NaiveDate;

use crate::gen;
use crate::identifier::range::IdentifierRangeFrom;
use crate::identifier::*;
use crate::parser::mk_act_section::ActRawText;
use crate::structure::*;
use crate::util::indentedline::{IndentedLine, EMPTY_LINE};
use crate::vf::Src;

pub const ART: f64 = 10.0;
pub const PAR: f64 = 30.0;
pub const POINT: f64 = 50.0;
pub const POINT_TEXT: f64 = 60.0;
pub const SUB: f64 = 75.0;
pub const SUB_TEXT: f64 = 85.0;

const FIRST: &[&str] = &["A törvény", "Ez", "kis-", "az", "valaminek", "és más", "(a továbbiakban: más)", "a 12. § (1) bekezdése", "az a) pont", "az 5. § (1) bekezdése", "a 3:14. § szerint"];
/// Lines that are not headers of anything anywhere
const NEXT: &[&str] = &[
    "szöveg folytatása",
    "nagy- és kiskereskedelem",
    "és a többi",
    "vagy a többi",
    "folytatás-",
    "(99) szöveg",
    "(2) bekezdés szerinti",
    "(1) bekezdésben",
    "a) pont szerinti",
    "b) pontja",
    "b) alpontja",
    "2. pont szerinti",
    "2. alpontja",
    "z) szöveg",
    "98. szöveg",
    "999. § szöveg",
    "47. §-ban",
    "37. §-a",
    "FEJEZET",
    "V. FEJEZETÉBEN",
    "II. RÉSZ",
    "ÚJ KÖNYV",
    "Második Rész",
    "45. cím",
    "– gondolatjel",
    "(zárójeles)",
    "[szögletes]",
    "*",
    "zs) szöveg",
];
/// Only inside of quotes
const QUOTED: &[&str] = &[
    "2. § (1) szöveg",
    "3. § szöveg",
    "(2) szöveg",
    "(3) szöveg",
    "a) szöveg",
    "b) szöveg",
    "ab) szöveg",
    "bb) szöveg",
    "1. szöveg",
    "2. szöveg",
    "II. FEJEZET",
    "MÁSODIK RÉSZ",
    "ELSŐ KÖNYV",
    "KÜLÖNÖS RÉSZ",
    "3. alcím",
    "Alcím",
    "[Cím]",
    "(bevezető)",
];

/// How lines are put together into text
pub fn join(lines: &[String]) -> String {
    let mut r = String::new();
    for l in lines {
        if !r.is_empty() && !l.is_empty() && (!r.ends_with('-') || l.starts_with("és ") || l.starts_with("vagy ")) {
            r.push(' ');
        }
        r.push_str(l);
    }
    r
}

pub struct Gen<'a, S: Src> {
    pub s: &'a mut S,
    pub out: Vec<IndentedLine>,
    /// Inside of a quote everything is indented alike, and it is the shorter last line
    /// that ends a text
    pub ba: bool,
    /// How far from the edge of the page everything is: from page to page it may move left
    pub margin: f64,
    /// A line that looks like the header of the next article
    pub next: Option<String>,
    /// Where `z)` or `zs)` would be the next point
    pub at_z: bool,
}
impl<'a, S: Src> Gen<'a, S> {
    pub fn put(&mut self, text: &str, indent: f64, bold: bool) {
        let indent = if self.ba { 40.0 } else { indent + self.margin };
        if text.is_empty() {
            self.out.push(EMPTY_LINE);
        } else {
            self.out.push(gen::plain_line(text, indent, bold));
        }
    }
    /// A text ends here
    fn end(&mut self) {
        if self.ba {
            let l = self.out.pop().unwrap();
            self.out.push(IndentedLine::from_parts(l.verif_parts().to_vec(), false));
        }
    }
    fn one(&mut self, list: &[&str]) -> String {
        gen::one_of(self.s, list).to_string()
    }
    fn coin(&mut self, n: u8) -> bool {
        self.s.below(n) == 0
    }
    fn around(&mut self, indent: f64) -> f64 {
        // what the typesetter's rounding does
        indent + self.s.below(3) as f64 * 0.5
    }
    /// Text after the header `h`, which is printed at `at`; continuation lines at `cont`.
    pub fn text(&mut self, h: &str, at: f64, cont: f64) -> String {
        let mut lines = vec![self.one(FIRST)];
        self.put(&format!("{h}{}", lines[0]), at, false);
        for _ in 0..self.s.below(3) {
            if self.coin(4) {
                // a quote that spans lines, and begins inside of one
                let a = format!("szöveg {}idézet", self.one(&["„", "“"]));
                self.put(&a, cont, false);
                lines.push(a);
                for _ in 0..self.s.below(3) {
                    let bold = self.s.bool();
                    let t = self.one(QUOTED);
                    if self.coin(4) {
                        self.out.push(EMPTY_LINE);
                    }
                    let at = *gen::one_of(self.s, &[ART, PAR, POINT, cont]);
                    // a line may be shown at the left without being outside of the list
                    self.put(&t, at.max(cont), bold);
                    lines.push(t);
                }
                let t = self.one(&["eddig” szöveg", "eddig”"]);
                self.put(&t, cont, false);
                lines.push(t);
            } else {
                let next = self.next.clone().filter(|_| !self.ba);
                let t = match next {
                    Some(t) if self.coin(8) => t,
                    _ => self.one(NEXT),
                };
                let t = if self.at_z && t.starts_with('z') { "szöveg".into() } else { t };
                let at = self.around(cont);
                let bold = !self.ba && !t.chars().next().unwrap().is_numeric() && self.coin(5) && !self.out.last().unwrap().is_empty();
                self.put(&t, at, bold);
                lines.push(t);
            }
        }
        self.end();
        join(&lines)
    }
    /// A wrap-up at the given place
    fn wrap_up(&mut self, at: f64) -> Option<String> {
        if self.s.bool() {
            return None;
        }
        let mut lines = vec![self.one(&["közül a legkisebbet kell", "szabályait", "– a (2) bekezdés kivételével –"])];
        let x = self.around(at);
        self.put(&lines[0].clone(), x, false);
        for _ in 0..self.s.below(2) {
            let t = self.one(&["alkalmazni.", "közül egyet.", "kis-"]);
            self.put(&t, at, false);
            lines.push(t);
        }
        self.end();
        Some(join(&lines))
    }
    fn letters(&mut self) -> Vec<&'static str> {
        let all: &[&[&str]] = &[
            &["a", "b"],
            &["a", "b", "c", "d"],
            &["a", "b", "c", "cs", "d", "dz", "e", "f", "g", "gy", "h"],
            &["a", "b", "c"],
            &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "sz", "t", "ty", "u"],
            &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "ly", "m", "n", "ny", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "zs"],
        ];
        gen::one_of(self.s, all).to_vec()
    }
    fn numbers(&mut self) -> Vec<&'static str> {
        let all: &[&[&str]] = &[
            &["1", "2"],
            &["1", "2", "3"],
            &["1", "1a", "2", "2a", "2b", "3"],
            &["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"],
            &["1", "2", "2/a", "3"],
        ];
        gen::one_of(self.s, all).to_vec()
    }
    fn sae<I: IdentifierCommon, C: ChildrenCommon>(identifier: I, body: SAEBody<C>) -> SubArticleElement<I, C> {
        SubArticleElement { identifier, body, semantic_info: Default::default(), last_change: None }
    }
    pub fn alphabetic_subpoint(&mut self, id: &str) -> AlphabeticSubpoint {
        let outer = self.at_z;
        self.at_z |= id.ends_with(['y', 'z']);
        let t = self.text(&format!("{id}) "), SUB, SUB_TEXT);
        self.at_z = outer;
        Self::sae(id.parse().unwrap(), t.into())
    }
    pub fn numeric_subpoint(&mut self, id: &str) -> NumericSubpoint {
        let t = self.text(&format!("{id}. "), SUB, SUB_TEXT);
        Self::sae(id.parse().unwrap(), t.into())
    }
    pub fn alphabetic_point(&mut self, id: &str) -> AlphabeticPoint {
        let identifier: AlphabeticIdentifier = id.parse().unwrap();
        self.at_z = id == "y" || id == "z";
        let intro = self.text(&format!("{id}) "), POINT, POINT_TEXT);
        let kind = self.s.below(6);
        let body = if kind == 0 && id.len() == 1 {
            let children = ["a", "b", "c"][..2 + self.s.below(2) as usize]
                .iter()
                .map(|x| self.alphabetic_subpoint(&format!("{id}{x}")))
                .collect::<Vec<AlphabeticSubpoint>>();
            let wrap_up = self.wrap_up(POINT_TEXT);
            SAEBody::Children { intro, children: AlphabeticPointChildren::AlphabeticSubpoint(children), wrap_up }
        } else if kind == 1 {
            let children = self
                .numbers()
                .iter()
                .map(|x| self.numeric_subpoint(x))
                .collect::<Vec<NumericSubpoint>>();
            let wrap_up = self.wrap_up(POINT_TEXT);
            SAEBody::Children { intro, children: AlphabeticPointChildren::NumericSubpoint(children), wrap_up }
        } else {
            intro.into()
        };
        Self::sae(identifier, body)
    }
    pub fn numeric_point(&mut self, id: &str) -> NumericPoint {
        let identifier: NumericIdentifier = id.parse().unwrap();
        let intro = self.text(&format!("{id}. "), POINT, POINT_TEXT);
        let body = if self.coin(4) {
            let children = self
                .letters()
                .iter()
                // digraph subpoints without a prefix are not in the format
                .filter(|x| x.len() == 1)
                .map(|x| self.alphabetic_subpoint(x))
                .collect::<Vec<AlphabeticSubpoint>>();
            let wrap_up = self.wrap_up(POINT_TEXT);
            SAEBody::Children { intro, children: NumericPointChildren::AlphabeticSubpoint(children), wrap_up }
        } else {
            intro.into()
        };
        Self::sae(identifier, body)
    }
    /// A paragraph; its header's text is already known to be `h` at `at`
    pub fn paragraph(&mut self, identifier: ParagraphIdentifier, h: &str, at: f64) -> Paragraph {
        let intro = self.text(h, at, PAR);
        let body = match self.s.below(6) {
            0 => {
                let ids = self.letters();
                let children = ids.iter().map(|i| self.alphabetic_point(i)).collect::<Vec<_>>();
                let wrap_up = if self.ba && matches!(children.last().unwrap().body, SAEBody::Children { wrap_up: None, .. }) { None } else { self.wrap_up(PAR) };
                SAEBody::Children { intro, children: ParagraphChildren::AlphabeticPoint(children), wrap_up }
            }
            1 => {
                let ids = self.numbers();
                let children = ids.iter().map(|i| self.numeric_point(i)).collect::<Vec<_>>();
                let wrap_up = if self.ba && matches!(children.last().unwrap().body, SAEBody::Children { wrap_up: None, .. }) { None } else { self.wrap_up(PAR) };
                SAEBody::Children { intro, children: ParagraphChildren::NumericPoint(children), wrap_up }
            }
            2 => self.quoted(intro),
            _ => intro.into(),
        };
        Self::sae(identifier, body)
    }
    /// "… the following: (intro) „the new text” (wrap-up) rest"
    fn quoted(&mut self, intro: String) -> SAEBody<ParagraphChildren> {
        let last = "következő szöveg lép:";
        self.put(last, PAR, false);
        let intro = join(&[intro, last.to_string()]);
        let mut first_intro = None;
        if self.s.bool() {
            let mut t = vec![self.one(&["Az elnök az alábbi jogkörében:", "(2) Szükséges", "a) szöveg"])];
            if self.s.bool() {
                t.push(self.one(&["közben „idézett” szöveg", "folytatás)", "b) szöveg", "(2) szöveg]"][..if self.ba { 2 } else { 4 }]));
            }
            // the last one is closed, the ones before must not look so
            let n = t.len();
            let t: Vec<String> = t.iter().enumerate().map(|(i, l)| if i + 1 < n { l.trim_end_matches([')', ']']).to_string() } else { l.clone() }).collect();
            let (open, close) = *gen::one_of(self.s, &[("(", ")"), ("[", "]")]);
            for (i, l) in t.iter().enumerate() {
                let l = format!("{}{l}{}", if i == 0 { open } else { "" }, if i + 1 == n { close } else { "" });
                self.put(&l, 120.0, false);
            }
            first_intro = Some(join(&t));
        }
        let count = 1 + self.s.below(2);
        let mut blocks = vec![];
        for _ in 0..count {
            let n = 1 + self.s.below(5);
            let mut lines: Vec<IndentedLine> = vec![];
            let mut nested = false;
            let open = self.one(&["„", "“"]);
            for i in 0..n {
                let at = 40.0 + self.s.below(4) as f64 * 10.0;
                let mut t = self.one(QUOTED);
                if nested {
                    t += "”";
                    nested = false;
                    if self.coin(2) {
                        t += " rész";
                    }
                } else if i + 1 < n && self.coin(4) {
                    t += &format!(" {}belső", self.one(&["„", "“"]));
                    nested = true;
                }
                if nested && i + 1 == n {
                    unreachable!();
                }
                let bold = self.s.bool();
                let full = format!("{}{t}{}", if i == 0 { &open } else { "" }, if i + 1 == n { "”" } else { "" });
                let line = gen::plain_line(&full, at, bold);
                // its text, without the quotes, stays where it is on the page
                // (and without its end, a line is not known to fill its measure)
                let parts = gen::plain_line(&t, if i == 0 { at + 5.0 } else { at }, bold).verif_parts().to_vec();
                lines.push(IndentedLine::from_parts(parts, i + 1 < n));
                self.out.push(line);
                if i + 1 < n && self.coin(5) {
                    self.out.push(EMPTY_LINE);
                    lines.push(EMPTY_LINE);
                }
            }
            blocks.push(QuotedBlock { intro: None, lines, wrap_up: None });
            if self.coin(3) {
                self.out.push(EMPTY_LINE);
            }
        }
        blocks[0].intro = first_intro;
        if self.coin(3) {
            let t = self.one(&["záró szöveg", "a) szöveg", "lép „hatályba” ma"]);
            let (open, close) = *gen::one_of(self.s, &[("(", ")"), ("[", "]")]);
            self.put(&format!("{open}{t}{close}"), POINT, false);
            blocks.last_mut().unwrap().wrap_up = Some(t);
        }
        let mut wrap_up = None;
        if self.coin(3) {
            let mut t = vec![self.one(&["szöveggel lép hatályba.", "kifejezések."])];
            self.put(&t[0].clone(), PAR, false);
            if self.s.bool() {
                t.push("és más (zárójelben)".to_string());
                self.put(&t[1].clone(), PAR, false);
            }
            wrap_up = Some(join(&t));
        }
        SAEBody::Children { intro, children: ParagraphChildren::QuotedBlock(blocks), wrap_up }
    }
    pub fn article(&mut self, identifier: ArticleIdentifier) -> Article {
        let mut head = format!("{identifier}.{}§ ", if self.coin(4) { "" } else { " " });
        let mut at = ART;
        let mut title = None;
        if self.coin(4) {
            let mut t = vec![self.one(&["Cím", "A szerv-", "(1) Cím"])];
            if self.s.bool() {
                t.push(self.one(&["folytatás", "és jogköre", "(2) szöveg", "[zárójeles"]));
            }
            let n = t.len();
            for (i, l) in t.iter().enumerate() {
                let l = format!("{}{l}{}", if i == 0 { format!("{head}[") } else { String::new() }, if i + 1 == n { "]" } else { "" });
                self.put(&l, at, true);
                at = PAR;
            }
            title = Some(join(&t));
            head = String::new();
            if self.coin(4) {
                self.out.push(EMPTY_LINE);
            }
        }
        let children = if self.s.bool() {
            vec![self.paragraph(ParagraphIdentifier::default(), &head, at)]
        } else {
            let mut r = vec![];
            for id in self.numbers().iter().filter(|i| !i.contains('/')) {
                let h = format!("{head}({id}) ");
                r.push(self.paragraph(id.parse::<ParagraphIdentifier>().unwrap(), &h, at));
                head = String::new();
                at = PAR;
                if self.coin(5) {
                    self.out.push(EMPTY_LINE);
                }
            }
            r
        };
        Article { identifier, title, children, last_change: None }
    }
    pub fn structural(&mut self) -> ActChild {
        const ORDINALS: &[(&str, u16)] = &[
            ("ELSŐ", 1),
            ("MÁSODIK", 2),
            ("HARMADIK", 3),
            ("NEGYEDIK", 4),
            ("TIZEDIK", 10),
            ("TIZENEGYEDIK", 11),
            ("HUSZADIK", 20),
            ("HUSZONKETTEDIK", 22),
        ];
        const ROMAN: &[(&str, u16)] = &[("I", 1), ("II", 2), ("IV", 4), ("IX", 9), ("XIV", 14), ("XL", 40), ("XCIX", 99)];
        let (o, on) = *gen::one_of(self.s, ORDINALS);
        let (r, rn) = *gen::one_of(self.s, ROMAN);
        let (header, identifier, element_type) = match self.s.below(6) {
            0 => (format!("{o} KÖNYV"), on, StructuralElementType::Book),
            1 => (format!("{o} RÉSZ"), on, StructuralElementType::Part { is_special: false }),
            2 => {
                let i = self.s.below(3) as u16;
                (format!("{} RÉSZ", ["ÁLTALÁNOS", "KÜLÖNÖS", "ZÁRÓ"][i as usize]), i + 1, StructuralElementType::Part { is_special: true })
            }
            3 => (format!("{r}. CÍM"), rn, StructuralElementType::Title),
            4 => (format!("{r}. {}", self.one(&["Fejezet", "fejezet"])), rn, StructuralElementType::Chapter),
            _ => (format!("{r}. FEJEZET"), rn, StructuralElementType::Chapter),
        };
        let bold = self.s.bool();
        self.put(&header, 100.0, bold);
        let mut t = vec![];
        for _ in 0..self.s.below(3) {
            t.push(self.one(&["ALAPVETŐ RENDELKEZÉSEK", "AZ ÁLLAM", "A kis-", "és más szerv", "MÁSODIK", "999. § szöveg"][..if self.ba { 5 } else { 6 }]));
            let bold = self.s.bool() && !self.ba && !self.out.last().unwrap().is_empty();
            // bold text in front of a title can be an (old style) subtitle only after an empty line
            self.put(&t.last().unwrap().clone(), 80.0, bold);
        }
        StructuralElement { identifier: identifier.into(), title: join(&t), element_type, last_change: None }.into()
    }
    pub fn subtitle(&mut self) -> ActChild {
        let mut identifier = None;
        let mut t = vec![self.one(&["Általános szabályok", "A 12. § alkalmazása", "Értelmező rendelkezések", "Ősi jogok", "A kis-"])];
        if self.s.bool() {
            let id = self.one(&["1", "2", "2/A", "17", "103"]);
            identifier = Some(id.parse().unwrap());
            self.put(&format!("{id}. {}", t[0]), 90.0, true);
        } else {
            self.put("", 0.0, false);
            self.put(&t[0].clone(), 90.0, true);
        }
        for _ in 0..self.s.below(2) {
            t.push(self.one(&["folytatása", "és más", "vagy más", "III. RÉSZE"][..if self.ba { 3 } else { 4 }]));
            let bold = self.s.bool();
            self.put(&t.last().unwrap().clone(), 90.0, bold);
        }
        Subtitle { identifier, title: join(&t), last_change: None }.into()
    }
    pub fn next_article(&mut self, last: (u8, u16, u8), book: bool) -> (u8, u16, u8) {
        let (b, n, x) = last;
        match self.s.below(4) {
            0 if x < 20 => (b, n, x + 1),
            1 if book => (b + 1, 1, 0),
            _ => (b, n + 1, 0),
        }
    }
    pub fn article_id(id: (u8, u16, u8), book: bool) -> ArticleIdentifier {
        let mut t = id.1.to_string();
        if book {
            t = format!("{}:{t}", id.0);
        }
        if id.2 > 0 {
            t = format!("{t}/{}", (b'A' + id.2 - 1) as char);
        }
        t.parse().unwrap()
    }
    /// Structural elements, subtitles and articles
    pub fn children(&mut self) -> Vec<ActChild> {
        let mut children: Vec<ActChild> = vec![];
        let book = self.coin(4);
        let mut last: Option<(u8, u16, u8)> = None;
        if self.ba {
            last = Some((self.s.below(3), self.s.below(20) as u16, self.s.below(3)));
        }
        for _ in 0..1 + self.s.below(5) {
            let c: ActChild = match self.s.below(5) {
                0 => self.structural(),
                1 => self.subtitle(),
                _ => {
                    let id = match last {
                        None => (1, 1, 0),
                        Some(last) => self.next_article(last, book),
                    };
                    last = Some(id);
                    if self.coin(4) {
                        self.margin = (self.margin - 20.0).max(0.0);
                    }
                    self.next = Some(format!("{}. § szöveg", Self::article_id((id.0, id.1 + 1, 0), book)));
                    self.article(Self::article_id(id, book)).into()
                }
            };
            children.push(c);
            if self.coin(3) {
                self.out.push(EMPTY_LINE);
            }
        }
        children
    }
    pub fn act(&mut self) -> Act {
        let mut preamble = vec![];
        for _ in 0..self.s.below(3) {
            let t = self.one(&["Az Országgyűlés", "a következő törvényt alkotja:", "elismerve „a jogokat”", "3. § szöveg", "idézi „a"]);
            let quote = t.ends_with("„a");
            self.put(&t, PAR, false);
            preamble.push(t);
            if quote {
                for t in ["1. § (1) szöveg", "I. FEJEZET", "vége” szerint"] {
                    self.put(t, ART, false);
                    preamble.push(t.to_string());
                }
            }
        }
        let children = self.children();
        Act {
            identifier: ActIdentifier { year: 2000 + self.s.below(20) as i16, number: 1 + self.s.below(99) as i32 },
            subject: self.one(&["a tesztelésről", ""]),
            preamble: join(&preamble),
            publication_date: NaiveDate::from_ymd_opt(2011, 1 + self.s.below(12) as u32, 3).unwrap(),
            contained_abbreviations: Default::default(),
            children,
        }
    }
}
/// The act, and the text it has to be recovered from
pub fn act_and_text<S: Src>(s: &mut S) -> (Act, ActRawText) {
    let mut g = Gen { s, out: vec![], ba: false, margin: 0.0, next: None, at_z: false };
    g.margin = g.s.below(3) as f64 * 20.0;
    let act = g.act();
    let mut out = g.out;
    out.dedup_by(|a, b| a.is_empty() && b.is_empty());
    let raw = ActRawText {
        identifier: act.identifier,
        subject: act.subject.clone(),
        publication_date: act.publication_date,
        body: out,
    };
    (act, raw)
}

/// Any lines at all: headers of everything, text and quotes, in any order and place
pub fn messy_lines<S: Src>(s: &mut S, max: u8) -> Vec<IndentedLine> {
    let mut r = vec![];
    let mut open = 0;
    let mut article = 0;
    let mut par = 0;
    let mut point = 0u8;
    for _ in 0..s.below(max + 1) {
        let t = match s.below(14) {
            0 => {
                article += 1 + (s.below(8) == 0) as u32;
                par = 0;
                point = 0;
                let rest = gen::one_of(s, &["szöveg", "(1) szöveg", "[Cím]", "[Cím", "(1) szöveg:", "a) szöveg", "„szöveg", ""]);
                format!("{article}. § {rest}")
            }
            1 | 2 => {
                par = if s.below(6) == 0 { 1 } else { par + 1 };
                point = 0;
                format!("({par}) {}", gen::one_of(s, &["szöveg", "bekezdés", "szöveg:", "„idézet", "a) szöveg"]))
            }
            3 | 4 => {
                point = if s.below(6) == 0 { 0 } else { (point + 1).min(25) };
                let c = (b'a' + point) as char;
                match s.below(5) {
                    0 => format!("{}{c}) szöveg", gen::one_of(s, &["a", "b", "c"])),
                    1 => format!("{}. szöveg", point + 1),
                    2 => format!("{}/{}. szöveg", point + 1, gen::one_of(s, &["a", "b"])),
                    _ => format!("{c}) szöveg"),
                }
            }
            5 => gen::one_of(s, QUOTED).to_string(),
            6 => String::new(),
            7 | 8 => gen::one_of(s, NEXT).to_string(),
            9 => {
                open += 1;
                gen::one_of(s, &["„szöveg", "“szöveg", "szöveg „", "1. § „szöveg", "„", "„(1) szöveg"]).to_string()
            }
            10 => {
                if open > 0 {
                    open -= 1;
                    gen::one_of(s, &["szöveg”", "”", "szöveg” (zárás)", "a) szöveg”"]).to_string()
                } else {
                    gen::one_of(s, &["(bevezető)", "[bevezető]", "(", ")", "[", "]", "szöveg:"]).to_string()
                }
            }
            _ => gen::one_of(s, FIRST).to_string(),
        };
        let at = *gen::one_of(s, &[ART, ART, PAR, PAR, POINT, POINT_TEXT, SUB]);
        let bold = s.below(4) == 0;
        if t.is_empty() {
            r.push(EMPTY_LINE);
        } else {
            let parts = gen::plain_line(&t, at, bold).verif_parts().to_vec();
            r.push(IndentedLine::from_parts(parts, s.below(4) > 0));
        }
    }
    while open > 0 && s.below(5) > 0 {
        open -= 1;
        r.push(gen::plain_line("vége”", PAR, false));
    }
    r
}

// ------------------------------------------------------------------ what a text says

/// The text without spacing, the marks the structure stands for, and letter case
pub fn essence(text: &str) -> String {
    text.chars()
        .filter(|c| !c.is_whitespace() && !"„“”()[]/.".contains(*c))
        .flat_map(|c| c.to_uppercase())
        .collect()
}
pub fn essence_of_lines(lines: &[IndentedLine]) -> String {
    lines.iter().map(|l| essence(l.content())).collect()
}
fn body<C: ChildrenCommon>(b: &SAEBody<C>, out: &mut String, f: impl FnOnce(&C, &mut String)) {
    match b {
        SAEBody::Text(t) => out.push_str(&essence(t)),
        SAEBody::Children { intro, children, wrap_up } => {
            out.push_str(&essence(intro));
            f(children, out);
            out.push_str(&essence(wrap_up.as_deref().unwrap_or("")));
        }
    }
}
fn leaf<I: IdentifierCommon + std::fmt::Display, C: ChildrenCommon>(e: &SubArticleElement<I, C>, out: &mut String) {
    out.push_str(&essence(&e.identifier.to_string()));
    body(&e.body, out, |_, _| unreachable!());
}
fn alphabetic_point(e: &AlphabeticPoint, out: &mut String) {
    out.push_str(&essence(&e.identifier.to_string()));
    body(&e.body, out, |c, out| match c {
        AlphabeticPointChildren::AlphabeticSubpoint(v) => v.iter().for_each(|e| leaf(e, out)),
        AlphabeticPointChildren::NumericSubpoint(v) => v.iter().for_each(|e| leaf(e, out)),
    });
}
fn numeric_point(e: &NumericPoint, out: &mut String) {
    out.push_str(&essence(&e.identifier.to_string()));
    body(&e.body, out, |c, out| match c {
        NumericPointChildren::AlphabeticSubpoint(v) => v.iter().for_each(|e| leaf(e, out)),
    });
}
fn paragraph(e: &Paragraph, out: &mut String) {
    if !e.identifier.is_empty() {
        out.push_str(&essence(&e.identifier.to_string()));
    }
    body(&e.body, out, |c, out| match c {
        ParagraphChildren::AlphabeticPoint(v) => v.iter().for_each(|e| alphabetic_point(e, out)),
        ParagraphChildren::NumericPoint(v) => v.iter().for_each(|e| numeric_point(e, out)),
        ParagraphChildren::QuotedBlock(v) => v.iter().for_each(|q| {
            out.push_str(&essence(q.intro.as_deref().unwrap_or("")));
            out.push_str(&essence_of_lines(&q.lines));
            out.push_str(&essence(q.wrap_up.as_deref().unwrap_or("")));
        }),
        ParagraphChildren::BlockAmendment(b) => {
            out.push_str(&essence(b.intro.as_deref().unwrap_or("")));
            match &b.children {
                BlockAmendmentChildren::Paragraph(v) => v.iter().for_each(|e| paragraph(e, out)),
                BlockAmendmentChildren::AlphabeticPoint(v) => v.iter().for_each(|e| alphabetic_point(e, out)),
                BlockAmendmentChildren::NumericPoint(v) => v.iter().for_each(|e| numeric_point(e, out)),
                BlockAmendmentChildren::AlphabeticSubpoint(v) => v.iter().for_each(|e| leaf(e, out)),
                BlockAmendmentChildren::NumericSubpoint(v) => v.iter().for_each(|e| leaf(e, out)),
            }
            out.push_str(&essence(b.wrap_up.as_deref().unwrap_or("")));
        }
        ParagraphChildren::StructuralBlockAmendment(b) => {
            out.push_str(&essence(b.intro.as_deref().unwrap_or("")));
            out.push_str(&essence_of_children(&b.children));
            out.push_str(&essence(b.wrap_up.as_deref().unwrap_or("")));
        }
    });
}
pub fn essence_of_paragraph(p: &Paragraph) -> String {
    let mut out = String::new();
    paragraph(p, &mut out);
    out
}
pub fn essence_of_children(children: &[ActChild]) -> String {
    let mut out = String::new();
    for c in children {
        match c {
            ActChild::StructuralElement(x) => {
                out.push_str(&essence(&x.header_string().unwrap_or_else(|_| "?".into())));
                out.push_str(&essence(&x.title));
            }
            ActChild::Subtitle(x) => {
                out.push_str(&essence(&x.identifier.map(|x| x.to_string()).unwrap_or_default()));
                out.push_str(&essence(&x.title));
            }
            ActChild::Article(x) => {
                out.push_str(&essence(&x.identifier.to_string()));
                out.push('§');
                out.push_str(&essence(x.title.as_deref().unwrap_or("")));
                x.children.iter().for_each(|p| paragraph(p, &mut out));
            }
        }
    }
    out
}
