//! P15: exactly the acts of the gazette's acts section are extracted, complete.
use crate::parser::mk_act_section::*;
use crate::util::indentedline::{IndentedLine, EMPTY_LINE};
use crate::vf::{Outcome, Src};
use crate::gen;

/// Lines with neighbouring empties merged into one
pub fn remove_double_empty<S: Src>(s: &mut S) -> Outcome {
    // which of the lines are empty
    let empty = [s.bool(), s.bool(), s.bool()];
    let mut body = Vec::with_capacity(3);
    let mut i = 0;
    while i < 3 {
        body.push(if empty[i] { EMPTY_LINE } else { gen::tagged_line(i) });
        i += 1;
    }
    let mut act = ActRawText { body, ..Default::default() };
    act.remove_double_empty_lines();
    let mut at = 0;
    let mut i = 0;
    while i < 3 {
        if !(empty[i] && i > 0 && empty[i - 1]) {
            check!(at < act.body.len(), "a line is missing", "{empty:?}: {:?}", act.body);
            check!(act.body[at].is_empty() == empty[i], "lines in order", "{empty:?}: {:?}", act.body);
            check!(empty[i] || gen::tag_of(&act.body[at]) == i, "lines in order", "{empty:?}: {:?}", act.body);
            at += 1;
        }
        i += 1;
    }
    check!(act.body.len() == at, "an empty line too many", "{empty:?}: {:?}", act.body);
    std::mem::forget(act);
    Outcome::Pass
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::identifier::ActIdentifier;
    use crate::parser::pdf::PageOfLines;
    use chrono::{Datelike, NaiveDate};

    pub fn double_empty_long<S: Src>(s: &mut S) -> Outcome {
        let n = s.below(12);
        let texts: Vec<&str> = (0..n).map(|_| *gen::one_of(s, &["", "a", "", "b"])).collect();
        let mut act = ActRawText { body: texts.iter().map(|t| gen::plain_line(t, 5.0, false)).collect(), ..Default::default() };
        act.remove_double_empty_lines();
        let mut want = texts.clone();
        want.dedup_by(|a, b| a.is_empty() && b.is_empty());
        let got: Vec<&str> = act.body.iter().map(|l| l.content()).collect();
        check!(got == want, "double empty lines", "{texts:?} became {got:?}");
        Outcome::Pass
    }
    const MONTHS: [&str; 12] = ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"];
    fn ln(t: &str, bold: bool) -> IndentedLine {
        gen::plain_line(t, 20.0, bold)
    }
    const BODY: &[&str] = &[
        "1. § Ez a törvény.",
        "a) pont",
        "",
        "köztársasági elnök",
        "* csillag",
        "köztársasági elnök az Országgyűlés elnöke volt",
        "II. FEJEZET",
        "2010. évi II. törvény módosítása",
        "köztársasági elnök az Országgyűlés elnöke",
        "a III. Kormányrendeletek közül",
        "II. Törvények módosítása",
        "IX. Határozatok",
    ];
    const SIGN: &[&str] = &[
        "köztársasági elnök az Országgyűlés elnöke",
        "köztársasági elnök az Országgyűlés alelnöke",
        "az Országgyűlés elnöke, az Országgyűlés alelnöke,",
    ];
    const STOP: &[&str] = &[
        "III. Kormányrendeletek",
        "IV. A Magyar Nemzeti Bank elnökének rendeletei",
        "V. A Kormány tagjainak rendeletei",
        "VI. Az Alkotmánybíróság határozatai",
        "VII. A Kúria határozatai",
        "IX. Határozatok Tára",
        "IX. Határozatok Tára és más",
    ];
    struct Doc {
        pages: Vec<Vec<IndentedLine>>,
        /// since the last header: what the body must contain
        body: Option<Vec<String>>,
    }
    impl Doc {
        fn put(&mut self, t: &str, bold: bool) {
            self.pages.last_mut().unwrap().push(ln(t, bold));
            if let Some(b) = &mut self.body {
                b.push(t.to_string());
            }
        }
        fn page_break(&mut self) {
            self.pages.push(vec![]);
            if let Some(b) = &mut self.body {
                b.push(String::new());
            }
        }
    }
    /// A gazette, built from what has to be found in it
    pub fn gazette<S: Src>(s: &mut S) -> Outcome {
        let date = NaiveDate::from_ymd_opt(1995 + s.below(40) as i32, 1 + s.below(12) as u32, 1 + s.below(28) as u32).unwrap();
        let cover = vec![
            ln("MAGYAR KÖZLÖNY 71. szám", false),
            EMPTY_LINE,
            ln("A MAGYAR KÖZTÁRSASÁG HIVATALOS LAPJA", false),
            ln(&format!("{}. {} {}., kedd", date.year(), MONTHS[date.month0() as usize], date.day()), false),
        ];
        let mut d = Doc { pages: vec![cover, vec![]], body: None };
        let mut want: Vec<(ActIdentifier, String, Vec<String>)> = vec![];
        // Before the acts section: an act's text there is not an act, unless in bold
        for _ in 0..s.below(3) {
            d.put(*gen::one_of(s, &["I. Az Országgyűlés elnökének közleményei", "", "valami", "2011. évi IX. törvény"]), false);
        }
        // an act printed there, only quoted
        if s.below(4) == 0 {
            for t in ["", "2011. évi III. törvény", "a végrehajtásról*", "1. § a", "b", "c", "d", "", "x", SIGN[0], ""] {
                d.put(t, false);
            }
        }
        // Another section comes first, or is the only one: an act there is only talked about
        let other_first = s.below(4) == 0;
        if other_first {
            d.put(*gen::one_of(s, STOP), true);
            let (a, b) = (s.bool(), s.bool());
            for (t, bold) in [("2011. évi III. törvény", a), ("", false), ("2011. évi III. törvény", b), ("a végrehajtásról*", true), ("1. § a", false), ("b", false), ("c", false), ("d", false), ("", false), ("x", false), (SIGN[0], false), ("", false)] {
                d.put(t, bold);
            }
            if s.bool() {
                d.page_break();
            }
        }
        let section = !other_first || s.bool();
        if section {
            d.put("II. Törvények", true);
        }
        for _ in 0..if section { s.below(4) } else { 0 } {
            for _ in 0..s.below(2) {
                d.put(*gen::one_of(s, &["közlemény", "", "2011. évi"]), false);
            }
            // a header comes after one or more empty lines
            if s.bool() {
                d.page_break();
                d.pages.last_mut().unwrap().push(EMPTY_LINE);
            }
            d.put("", false);
            let id = ActIdentifier { year: 1990 + s.below(35) as i16, number: 1 + s.below(250) as i32 };
            d.put(&format!("{}. évi {}. törvény", id.year, roman::to(id.number).unwrap()), true);
            let subject: Vec<&str> = (0..1 + s.below(3)).map(|i| ["a tesztelésről", "szóló kis-", "nagy törvény"][i as usize]).collect();
            for (i, t) in subject.iter().enumerate() {
                let last = i + 1 == subject.len();
                d.put(&format!("{t}{}", if last { "*" } else { "" }), true);
                if !last && s.below(4) == 0 {
                    d.page_break();
                }
            }
            let subject = subject.join(" ").replace("kis- nagy", "kis-nagy");
            d.body = Some(vec![]);
            let mut footnote = s.below(3) > 0;
            for _ in 0..3 + s.below(7) {
                d.put(*gen::one_of(s, BODY), s.bool());
                if s.below(6) == 0 {
                    d.page_break();
                }
                if footnote && s.below(3) == 0 {
                    footnote = false;
                    d.put("", false);
                    let keep = d.body.as_ref().unwrap().len();
                    d.put("* A törvényt az Országgyűlés a 2010. november 22-i ülésnapján fogadta el.", false);
                    d.body.as_mut().unwrap().truncate(keep);
                    // swallowed together with the empty line or page break after it
                    if s.bool() {
                        d.page_break();
                    } else {
                        d.put("", false);
                    }
                    d.body.as_mut().unwrap().truncate(keep);
                }
            }
            // Three accidents a text can have that make it ambiguous: leave those out
            let mut b = d.body.take().unwrap();
            let at = |i: usize| b[i].as_str();
            for i in 0..b.len() {
                // not below a single line after an empty one, as the signatures are
                assume!(!(SIGN.contains(&at(i)) && i >= 2 && at(i - 2).is_empty()));
                assume!(!(i >= 1 && i + 1 < b.len() && at(i).starts_with('*') && at(i - 1).is_empty() && at(i + 1).is_empty()));
            }
            assume!(!(b.len() >= 2 && at(b.len() - 1).starts_with('*') && at(b.len() - 2).is_empty()));
            d.put("", false);
            d.put("Dr. Schmitt Pál s. k., Dr. Kövér László s. k.,", false);
            d.put(*gen::one_of(s, SIGN), false);
            b.dedup_by(|a, b| a.is_empty() && b.is_empty());
            want.push((id, subject, b));
            if s.bool() {
                d.page_break();
            }
        }
        // And after it
        if s.bool() {
            d.put(*gen::one_of(s, STOP), true);
            for t in ["", "2011. évi III. törvény", "a végrehajtásról*", "1. § a", "b", "c", "d", "", "x", SIGN[0], ""] {
                d.put(t, false);
            }
        }
        let pages: Vec<PageOfLines> = d.pages.iter().map(|lines| PageOfLines { lines: lines.clone() }).collect();
        let r = parse_mk_pages_into_acts(&pages);
        let texts = || d.pages.iter().map(|p| p.iter().map(|l| l.content().to_string()).collect::<Vec<_>>()).collect::<Vec<_>>();
        let acts = match r {
            Ok(a) => a,
            Err(e) => {
                return Outcome::Fail(format!("a proper gazette was refused: {e:?}: {:?}", texts()));
            }
        };
        let ids: Vec<_> = acts.iter().map(|a| a.identifier).collect();
        check!(ids == want.iter().map(|w| w.0).collect::<Vec<_>>(), "the acts, in order", "{ids:?} from {:?}", texts());
        for (a, (_, subject, body)) in acts.iter().zip(&want) {
            check!(&a.subject == subject, "subject", "{:?} instead of {subject:?}", a.subject);
            check!(a.publication_date == date, "publication date", "{} instead of {date}", a.publication_date);
            let mut got: Vec<String> = a.body.iter().map(|l| l.content().to_string()).collect();
            let mut body = body.clone();
            // whether the text keeps an empty line before the signatures is not specified
            while got.last().map_or(false, |l| l.is_empty()) {
                got.pop();
            }
            while body.last().map_or(false, |l| l.is_empty()) {
                body.pop();
            }
            check!(got == body, "the body, every line in order", "{got:#?} instead of {body:#?} from {:?}", texts());
            for w in a.body.windows(2) {
                check!(!(w[0].is_empty() && w[1].is_empty()), "no double empty lines");
            }
        }
        Outcome::Pass
    }
    /// The cover page decides whether it is a gazette at all
    pub fn cover<S: Src>(s: &mut S) -> Outcome {
        let title = *gen::one_of(s, &["MAGYAR KÖZLÖNY 71. szám", "MAGYAR KÖZLÖNY", "Magyar Közlöny", "HIVATALOS ÉRTESÍTŐ", ""]);
        let (y, m, day) = (*gen::one_of(s, &[1995, 2011, 2012, 2023]), s.below(14) as usize, s.below(34) as u32);
        let month = *MONTHS.get(m).unwrap_or(&"brumaire");
        let n = s.below(6) as usize;
        let all = [title.to_string(), String::new(), "A MAGYAR KÖZTÁRSASÁG HIVATALOS LAPJA".into(), format!("{y}. {month} {day}., kedd"), "x".into()];
        let lines: Vec<IndentedLine> = all[..n.min(5)].iter().map(|t| ln(t, false)).collect();
        let mut pages = vec![PageOfLines { lines }];
        let more = s.below(3);
        for _ in 0..more {
            pages.push(PageOfLines { lines: vec![ln("II. Törvények", true)] });
        }
        let r = parse_mk_pages_into_acts(&pages);
        let proper = more >= 1 && n >= 4 && title.starts_with("MAGYAR KÖZLÖNY") && m < 12 && NaiveDate::from_ymd_opt(y, m as u32 + 1, day).is_some();
        check!(r.is_ok() == proper, "accepted exactly if it is a dated gazette of at least two pages", "{all:?} {n} {more}: {r:?}");
        check!(r.map_or(true, |a| a.is_empty()), "no act in an empty section");
        Outcome::Pass
    }
}
#[cfg(not(kani))]
pub use native::*;

obligations! { P15:
    remove_double_empty, bounded, "three lines, any of them empty", "ActRawText::remove_double_empty_lines", [kani::proof, kani::unwind(6)];
    double_empty_long, standin, "up to 11 lines", "ActRawText::remove_double_empty_lines", [];
    gazette, standin, "random gazettes of up to 3 acts with up to 10 body lines, page breaks anywhere", "parse_mk_pages_into_acts, ActExtractor::*", [];
    cover, standin, "all combinations of cover title, length, month and day", "parse_mk_pages_into_acts, parse_mk_cover_page, NaiveDate::from_hungarian", [];
}
