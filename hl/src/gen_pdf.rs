//! PDF files that draw known text at known places, written with every text operator the
//! renderer handles. What is expected follows the PDF reference (ISO 32000, 9.2-9.4 and
//! 14.6), not the renderer.
use crate::gen;
fn pick<S: Src, T: Copy>(s: &mut S, of: &[T]) -> T {
    *gen::one_of(s, of)
}
use crate::vf::Src;

/// How a font maps codes to text
#[derive(Debug, Clone)]
pub struct FontSpec {
    pub name: &'static str,
    pub cid: bool,
    pub inline: bool,
    /// width of the space in 1/1000, 0 if the font does not say
    pub space: u16,
    pub encoding: String,
    pub to_unicode: Vec<(u16, &'static str)>,
    /// (code, text, width)
    pub glyphs: Vec<(u16, String, u16)>,
    pub unmapped: u16,
}
impl FontSpec {
    pub fn bold(&self) -> bool {
        self.name.contains("Bold") || self.name.contains("bold")
    }
    pub fn space_width(&self) -> f64 {
        if self.space == 0 { 0.25 } else { self.space as f64 / 1000.0 }
    }
}
const WIDTHS: &[u16] = &[250, 500, 750];
pub fn font<S: Src>(s: &mut S) -> FontSpec {
    let name = pick(s, &["Times-Roman", "Times-Bold", "ABCDEF+Semibold", "Arial", "Arial-BoldItalic", "Italic"]);
    let kind = s.below(6);
    let mut g: Vec<(u16, &str)> = vec![(0x41, "A"), (0x62, "b"), (0x28, "("), (0x5c, "\\"), (0x31, "1")];
    let mut to_unicode = vec![];
    let mut unmapped = 0;
    let encoding = match kind {
        0 => {
            g.extend([(0xe1, "á"), (0xf5, "ő"), (0xfb, "ű"), (0xd5, "Ő"), (0xdb, "Ű"), (0x84, "„"), (0x94, "”"), (0xa7, "§"), (0x96, "–"), (0x81, "•"), (0xff, "ÿ"), (0xfc, "ü")]);
            "/WinAnsiEncoding".to_string()
        }
        1 => {
            g.extend([(0x87, "á"), (0x9f, "ü"), (0xa4, "§"), (0xe3, "„"), (0xff, "ˇ")]);
            "/MacRomanEncoding".to_string()
        }
        2 => {
            g.extend([(0xa7, "§"), (0xb9, "„")]);
            unmapped = 0x80;
            "/StandardEncoding".to_string()
        }
        3 | 4 => {
            // Differences over a base or over nothing, then ToUnicode over both
            g = vec![(0x80, "ő"), (0x81, "ű"), (0x84, "§")];
            let base = if s.bool() {
                g.extend([(0x41, "A"), (0xe1, "á")]);
                "/BaseEncoding /WinAnsiEncoding"
            } else {
                ""
            };
            if kind == 4 {
                to_unicode = vec![(0x82, "fi"), (0x83, "Z"), (0x80, "ü"), (0x41, "ffl!"), (0x42, "q")];
                g.retain(|x| x.0 != 0x80 && x.0 != 0x41);
                g.extend(to_unicode.iter().cloned());
            }
            format!("<</Type/Encoding {base} /Differences [32 /space 128 /ohungarumlaut /uhungarumlaut /g77 /g78 /section]>>")
        }
        _ => {
            to_unicode = vec![(5, "á"), (7, "ffi?"), (1200, "ő"), (1201, "fl"), (0x43, "„")];
            g = to_unicode.clone();
            g.extend([(0x41, "A"), (0xe1, "á"), (0xf5, "ő"), (0x151, "ő"), (0x470, "Ѱ")]);
            unmapped = 0xd800;
            "/Identity-H".to_string()
        }
    };
    let glyphs = g.iter().map(|(c, t)| (*c, t.to_string(), pick(s, WIDTHS))).collect();
    FontSpec {
        name,
        cid: kind == 5,
        inline: s.below(4) == 0 && kind != 5,
        space: pick(s, &[250, 500, 0]),
        encoding,
        to_unicode,
        glyphs,
        unmapped,
    }
}

#[derive(Debug, Clone)]
pub struct Drawn {
    pub x: f64,
    pub y: f64,
    pub width: f64,
    pub space: f64,
    pub bold: bool,
    pub c: char,
}

/// The text state as the PDF reference has it
#[derive(Debug, Clone, PartialEq)]
pub struct Ts {
    font: Option<usize>,
    size: f64,
    tc: f64,
    tw: f64,
    tz: f64,
    tl: f64,
    rise: f64,
}
impl Default for Ts {
    fn default() -> Self {
        Ts { font: None, size: 0.0, tc: 0.0, tw: 0.0, tz: 1.0, tl: 0.0, rise: 0.0 }
    }
}

#[derive(Debug, Clone)]
pub struct Page {
    pub fonts: Vec<FontSpec>,
    pub content: String,
    pub forms: Vec<(String, bool)>,
    pub drawn: Vec<Drawn>,
    pub fails: bool,
}

fn num(x: f64) -> String {
    let s = format!("{:.5}", x);
    s.trim_end_matches('0').trim_end_matches('.').to_string()
}
fn pdf_string<S: Src>(s: &mut S, font: &FontSpec, codes: &[u16]) -> String {
    let bytes: Vec<u8> = codes.iter().flat_map(|c| if font.cid { c.to_be_bytes().to_vec() } else { vec![*c as u8] }).collect();
    if !font.cid && bytes.iter().all(|b| b.is_ascii_graphic() || *b == b' ') && s.bool() {
        let mut r = String::from("(");
        for b in bytes {
            if b"()\\".contains(&b) {
                r.push('\\');
            }
            r.push(b as char);
        }
        r + ")"
    } else {
        format!("<{}>", bytes.iter().map(|b| format!("{b:02x}")).collect::<String>())
    }
}
fn utf16(t: &str) -> String {
    let mut r = String::from("<feff");
    for u in t.encode_utf16() {
        r += &format!("{u:04x}");
    }
    r + ">"
}

/// One stretch of text to be drawn at a place
pub struct Run {
    pub font: usize,
    pub x: f64,
    pub y: f64,
    pub codes: Vec<u16>,
}

pub struct Writer {
    pub out: String,
    cur: Ts,
    stack: Vec<Ts>,
    in_text: bool,
    /// origin of the line matrix, while in a text object
    line: (f64, f64),
    last: (f64, f64),
}
impl Writer {
    pub fn new() -> Self {
        Writer { out: String::new(), cur: Ts::default(), stack: vec![], in_text: false, line: (0.0, 0.0), last: (0.0, 0.0) }
    }
    pub fn end(&mut self) {
        if self.in_text {
            self.out += "ET\n";
            self.in_text = false;
        }
    }
    pub fn save<S: Src>(&mut self, s: &mut S) {
        match s.below(5) {
            0 => {
                self.end();
                self.out += "q\n";
                self.stack.push(self.cur.clone());
            }
            1 => {
                if let Some(t) = self.stack.pop() {
                    self.end();
                    self.out += "Q\n";
                    self.cur = t;
                }
            }
            _ => {}
        }
    }
    /// Draws the run; gives where every glyph is, as (code, x, y, width, space)
    pub fn draw<S: Src>(&mut self, s: &mut S, fonts: &[FontSpec], run: &Run) -> Vec<(u16, f64, f64, f64, f64)> {
        let font = &fonts[run.font];
        let old = self.cur.clone();
        let scaled = !self.in_text && s.below(5) == 0;
        let size = pick(s, &[8.0, 8.0, 16.0]);
        let tz = if s.below(4) == 0 { pick(s, &[0.5, 2.0]) } else { 1.0 };
        let (tc, tw, rise) = if scaled {
            (0.0, 0.0, 0.0)
        } else {
            (
                if s.below(4) == 0 { pick(s, &[0.125, 6.0]) } else { 0.0 },
                if s.below(4) == 0 && !font.cid { 3.0 } else { 0.0 },
                if s.below(4) == 0 { pick(s, &[2.5, -0.25, 3.0]) } else { 0.0 },
            )
        };
        if !self.in_text {
            self.out += "BT\n";
            self.in_text = true;
            self.line = (0.0, 0.0);
        }
        let tf = if scaled { 1.0 } else { size };
        if old.font != Some(run.font) || old.size != tf || s.below(6) == 0 {
            if s.below(4) == 0 && !font.inline && (tf == 8.0 || tf == 16.0) {
                self.out += &format!("/G{}x{} gs\n", run.font, tf as u8);
            } else {
                self.out += &format!("/F{} {} Tf\n", run.font, num(tf));
            }
        }
        self.cur.font = Some(run.font);
        self.cur.size = tf;
        let quoted = !scaled && s.below(8) == 0;
        let both = quoted && s.bool();
        if !both {
            if old.tc != tc {
                self.out += &format!("{} Tc\n", num(tc));
            }
            if old.tw != tw {
                self.out += &format!("{} Tw\n", num(tw));
            }
        }
        if old.tz != tz {
            self.out += &format!("{} Tz\n", num(tz * 100.0));
        }
        if old.rise != rise {
            self.out += &format!("{} Ts\n", num(rise));
        }
        self.cur.tc = tc;
        self.cur.tw = tw;
        self.cur.tz = tz;
        self.cur.rise = rise;
        let (x, y) = (run.x, run.y - rise);
        let (dx, dy) = (x - self.line.0, y - self.line.1);
        if scaled {
            self.out += &format!("{0} 0 0 {0} {1} {2} Tm\n", num(size), num(x), num(y));
        } else if quoted {
            self.newline(s, dx, dy);
        } else {
            match s.below(4) {
                0 => self.out += &format!("1 0 0 1 {} {} Tm\n", num(x), num(y)),
                1 => self.out += &format!("{} {} Td\n", num(dx), num(dy)),
                2 => {
                    self.out += &format!("{} {} TD\n", num(dx), num(dy));
                    self.cur.tl = -dy;
                }
                _ if s.bool() => {
                    self.out += "T*\n";
                    self.out += &format!("{} {} Td\n", num(dx), num(dy + self.cur.tl));
                }
                _ => {
                    self.newline(s, dx, dy);
                    self.out += "T*\n";
                }
            }
        }
        self.line = (x, y);
        // Where the glyphs are to be
        let mut at = x;
        let mut places = vec![];
        let unit = if scaled { size } else { 1.0 };
        let spw = font.space_width() * tf * unit * tz;
        let mut items: Vec<String> = vec![];
        let mut piece: Vec<u16> = vec![];
        let adjusts = !quoted && s.bool();
        for (i, c) in run.codes.iter().enumerate() {
            let w = match font.glyphs.iter().find(|g| g.0 == *c) {
                Some(g) => g.2,
                None if *c == 32 => font.space,
                None => 0,
            } as f64
                / 1000.0;
            if i > 0 && adjusts && s.below(3) == 0 {
                let adj = pick(s, &[0.0, -125.0, 31.25, -1000.0]);
                items.push(pdf_string(s, font, &piece));
                items.push(num(adj));
                piece.clear();
                at -= adj / 1000.0 * tf * unit * tz;
            }
            piece.push(*c);
            places.push((*c, at, y + rise, w * tf * unit * tz, spw));
            at += (w * tf * unit + (tc + if *c == 32 { tw } else { 0.0 }) * unit) * tz;
        }
        let text = pdf_string(s, font, &piece);
        if quoted {
            if both {
                self.out += &format!("{} {} {} \"\n", num(tw), num(tc), text);
            } else {
                self.out += &format!("{text} '\n");
            }
        } else if adjusts {
            items.push(text);
            self.out += &format!("[{}] TJ\n", items.join(" "));
        } else {
            self.out += &format!("{text} Tj\n");
        }
        if scaled || s.bool() {
            self.end();
        }
        places
    }
    /// Sets the leading and moves so that T* goes to dx, dy
    fn newline<S: Src>(&mut self, s: &mut S, dx: f64, dy: f64) {
        if s.bool() {
            self.cur.tl = pick(s, &[12.0, -3.5]);
            self.out += &format!("{} TL\n", num(self.cur.tl));
        }
        let dy = dy + self.cur.tl;
        self.out += &format!("{} {} Td\n", num(dx), num(dy));
    }
}

/// Some codes of the font, spaces among them
fn codes<S: Src>(s: &mut S, font: &FontSpec) -> Vec<u16> {
    (0..1 + s.below(4)).map(|_| if s.below(6) == 0 && font.space != 0 && !font.cid { 32 } else { font.glyphs[s.below(font.glyphs.len() as u8) as usize].0 }).collect()
}

pub fn page<S: Src>(s: &mut S, max_runs: u8, error: bool) -> Page {
    let fonts: Vec<FontSpec> = (0..1 + s.below(3)).map(|_| font(s)).collect();
    let mut p = Page { fonts, content: String::new(), forms: vec![], drawn: vec![], fails: false };
    let mut w = Writer::new();
    let mut missing = false;
    let mut ys = vec![800.0, 786.0];
    for _ in 0..4 {
        let last = ys[ys.len() - 1];
        ys.push(last - pick(s, &[10.0, 14.0, 18.0, 40.0]));
    }
    // Where the next run of each line starts
    let mut next: Vec<f64> = ys.iter().map(|_| pick(s, &[40.0, 56.0, 10.5])).collect();
    for _ in 0..s.below(max_runs + 1) {
        let line = s.below(ys.len() as u8) as usize;
        let f = s.below(p.fonts.len() as u8) as usize;
        let lowered = if s.below(5) == 0 { 0.25 } else { 0.0 };
        let mut run = Run { font: f, x: next[line], y: ys[line] - lowered, codes: codes(s, &p.fonts[f]) };
        if error && s.below(3) == 0 {
            run.codes.push(p.fonts[f].unmapped);
        }
        w.save(s);
        let span = if s.below(5) == 0 { Some(pick(s, &["ab", "„x", "§ 1.", "á", ""])) } else { None };
        let form = s.below(6) == 0;
        if s.below(4) == 0 {
            w.out += pick(s, &["/P <</MCID 0>> BDC\n/Artifact BMC\nEMC\n", "/Artifact BMC\n", "/Span <</Lang (hu)>> BDC\n"]);
        } else {
            w.out += "/Span BMC\n";
        }
        let begin = span.map_or(String::new(), |t| format!("/Span <</ActualText {}>> BDC\n", utf16(t)));
        let end = if span.is_some() { "EMC\n" } else { "" };
        let places;
        if form {
            w.end();
            let mut inner = Writer { cur: w.cur.clone(), ..Writer::new() };
            inner.out += &begin;
            places = inner.draw(s, &p.fonts, &run);
            inner.end();
            inner.out += end;
            w.out += &format!("/X{} Do\n", p.forms.len());
            p.forms.push((inner.out, s.bool()));
        } else {
            w.out += &begin;
            places = w.draw(s, &p.fonts, &run);
            w.out += end;
        }
        w.out += "EMC\n";
        if error && s.below(6) == 0 {
            w.out += pick(s, &["/F9 8 Tf\n", "/G9x8 gs\n", "/X9 Do\n"]);
            missing = true;
        }
        // What that shows
        let font = &p.fonts[f];
        let bold = font.bold();
        let mut shown: Vec<(String, f64, f64, f64, f64)> = places
            .iter()
            .map(|(c, x, y, w, sp)| (font.glyphs.iter().find(|g| g.0 == *c).map_or(" ".to_string(), |g| g.1.clone()), *x, *y, *w, *sp))
            .collect();
        if let Some(t) = span {
            let (a, z) = (&places[0], &places[places.len() - 1]);
            shown = vec![(t.to_string(), a.1, a.2, z.1 + z.3 - a.1, a.4)];
        } else if error && run.codes.last() == Some(&font.unmapped) {
            p.drawn.push(Drawn { x: 0.0, y: 0.0, width: 0.0, space: 0.0, bold, c: '\u{0}' });
        }
        let last = &places[places.len() - 1];
        next[line] = last.1 + last.3 + pick(s, &[0.25, 0.5, 5.0, 12.0, 100.0]);
        for (t, x, y, w, space) in shown {
            let n = t.chars().count() as f64;
            for (i, c) in t.chars().enumerate() {
                p.drawn.push(Drawn { x: x + i as f64 * w / n, y, width: w / n, space, bold, c });
            }
        }
    }
    w.end();
    p.content = w.out;
    p.fails = missing || p.drawn.iter().any(|d| d.c == '\u{0}');
    p.drawn.retain(|d| !d.c.is_whitespace());
    p
}

/// The file that has these pages
pub fn file(pages: &[Page]) -> Vec<u8> {
    let mut objs: Vec<Vec<u8>> = vec![vec![], vec![]];
    let stream = |dict: &str, data: &str| -> Vec<u8> { format!("<<{dict}/Length {}>>\nstream\n{data}\nendstream", data.len()).into_bytes() };
    let mut kids = vec![];
    for p in pages {
        let mut font_res = String::new();
        let mut gs = String::new();
        for (i, f) in p.fonts.iter().enumerate() {
            let mut tu = String::new();
            if !f.to_unicode.is_empty() {
                let mut m = String::from("/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n");
                m += &format!("{} beginbfchar\n", f.to_unicode.len());
                for (c, t) in &f.to_unicode {
                    let c = if f.cid { format!("{c:04x}") } else { format!("{c:02x}") };
                    m += &format!("<{c}> <{}>\n", t.encode_utf16().map(|u| format!("{u:04x}")).collect::<String>());
                }
                m += "endbfchar\nendcmap\n";
                objs.push(stream("", &m));
                tu = format!("/ToUnicode {} 0 R", objs.len());
            }
            let dict = if f.cid {
                let mut w = String::new();
                for (c, _, wd) in &f.glyphs {
                    w += &format!("{c} [{wd}] ");
                }
                if f.space != 0 {
                    w += &format!("32 32 {} ", f.space);
                }
                objs.push(format!("<</Type/Font/Subtype/CIDFontType2/BaseFont/{0}/CIDSystemInfo<</Registry(Adobe)/Ordering(Identity)/Supplement 0>>/DW 0/W [{w}]/FontDescriptor<</Type/FontDescriptor/FontName/{0}/Flags 4/FontBBox[0 0 1 1]/ItalicAngle 0>>>>", f.name).into_bytes());
                format!("<</Type/Font/Subtype/Type0/BaseFont/{}/Encoding {}/DescendantFonts[{} 0 R]{tu}>>", f.name, f.encoding, objs.len())
            } else {
                let first = if f.space == 0 { 33 } else { 32 };
                let widths: Vec<String> = (first..=255u16)
                    .map(|c| if c == 32 { f.space.to_string() } else { f.glyphs.iter().find(|g| g.0 == c).map_or(0, |g| g.2).to_string() })
                    .collect();
                format!("<</Type/Font/Subtype/{}/BaseFont/{}/Encoding {}/FirstChar {first}/LastChar 255/Widths[{}]{tu}>>", if i % 2 == 0 { "Type1" } else { "TrueType" }, f.name, f.encoding, widths.join(" "))
            };
            if f.inline {
                font_res += &format!("/F{i} {dict} ");
            } else {
                objs.push(dict.into_bytes());
                let n = objs.len();
                font_res += &format!("/F{i} {n} 0 R ");
                gs += &format!("/G{i}x8 <</Type/ExtGState/Font[{n} 0 R 8]>> /G{i}x16 <</Type/ExtGState/Font[{n} 0 R 16]>> ");
            }
        }
        let res = format!("<</Font<<{font_res}>>/ExtGState<<{gs}>>>>");
        let mut xres = String::new();
        for (i, (data, own)) in p.forms.iter().enumerate() {
            let r = if *own { format!("/Resources {res}") } else { String::new() };
            objs.push(stream(&format!("/Type/XObject/Subtype/Form/BBox[0 0 600 850]{r}"), data));
            xres += &format!("/X{i} {} 0 R ", objs.len());
        }
        objs.push(stream("", &p.content));
        let content = objs.len();
        objs.push(
            format!("<</Type/Page/Parent 2 0 R/MediaBox[0 0 595 842]/Resources<</Font<<{font_res}>>/ExtGState<<{gs}>>/XObject<<{xres}>>>>/Contents {content} 0 R>>").into_bytes(),
        );
        kids.push(format!("{} 0 R", objs.len()));
    }
    objs[0] = b"<</Type/Catalog/Pages 2 0 R>>".to_vec();
    objs[1] = format!("<</Type/Pages/Kids[{}]/Count {}>>", kids.join(" "), kids.len()).into_bytes();
    let mut out = b"%PDF-1.4\n".to_vec();
    let mut offs = vec![];
    for (i, o) in objs.iter().enumerate() {
        offs.push(out.len());
        out.extend(format!("{} 0 obj\n", i + 1).into_bytes());
        out.extend(o);
        out.extend(b"\nendobj\n");
    }
    let xref = out.len();
    out.extend(format!("xref\n0 {}\n0000000000 65535 f \n", objs.len() + 1).into_bytes());
    for o in offs {
        out.extend(format!("{o:010} 00000 n \n").into_bytes());
    }
    out.extend(format!("trailer\n<</Size {}/Root 1 0 R>>\nstartxref\n{xref}\n%%EOF\n", objs.len() + 1).into_bytes());
    out
}
