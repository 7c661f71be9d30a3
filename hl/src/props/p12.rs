//! P12: a fixup changes exactly the line it names, to exactly the text it gives.
#[cfg(bare)]
use crate::bare::*;
use crate::fixups::{Fixup, Fixups};
use crate::gen;
use crate::util::indentedline::{IndentedLine, IndentedLinePart};
use crate::vf::{Outcome, Src};

fn positions(l: &IndentedLine) -> Vec<f64> {
    let mut x = 0.0;
    l.verif_parts()
        .iter()
        .map(|p| {
            x += p.dx;
            x
        })
        .collect()
}
fn near(a: f64, b: f64) -> bool {
    a - b < 1e-6 && b - a < 1e-6
}
/// Where the fixup's context and old line stand in the text
fn matches(f: &Fixup, lines: &[IndentedLine]) -> Vec<usize> {
    let n = f.after.len();
    let mut r = vec![];
    for i in n..lines.len() {
        if lines[i].content() == f.old && (0..n).all(|k| lines[i - n + k].content() == f.after[k]) {
            r.push(i);
        }
    }
    r
}
/// One application of a fixup to any text
fn apply_contract(f: &Fixup, before: &[IndentedLine]) -> Outcome {
    let mut lines = before.to_vec();
    let r = f.apply(&mut lines);
    let at = matches(f, before);
    let useless = f.old == f.new && !f.set_bold;
    check!(r.is_ok() == (at.len() == 1 && !useless), "succeeds exactly if the place is unique and the fixup is not useless", "{f:?} on {:?}: {r:?}", texts(before));
    check!(lines.len() == before.len(), "number of lines");
    for i in 0..lines.len() {
        if r.is_ok() && i == at[0] {
            continue;
        }
        let (a, b) = (&lines[i], &before[i]);
        check!(
            a.content() == b.content() && a.is_bold() == b.is_bold() && a.is_justified() == b.is_justified() && positions(a) == positions(b),
            "another line changed, or any line after an error", "{f:?}: line {i} of {:?} became {a:?}", texts(before)
        );
    }
    if r.is_err() {
        return Outcome::Pass;
    }
    let (old, new) = (&before[at[0]], &lines[at[0]]);
    check!(new.content() == f.new, "the line reads as the fixup says", "{f:?}: {:?}", new.content());
    let got: String = new.verif_parts().iter().map(|p| p.content).collect();
    check!(got == f.new, "the characters read as the fixup says", "{f:?}: {got:?}");
    if f.set_bold && !f.new.is_empty() {
        check!(new.is_bold() && new.verif_parts().iter().all(|p| p.bold), "set_bold makes the line bold", "{f:?}: {new:?}");
    }
    // characters kept at the two ends stay where they are, and the rest is between them
    let (o, n): (Vec<char>, Vec<char>) = (f.old.chars().collect(), f.new.chars().collect());
    let prefix = o.iter().zip(&n).take_while(|(a, b)| a == b).count();
    let max_post = (o.len() - prefix).min(n.len() - prefix);
    let postfix = (0..max_post).take_while(|i| o[o.len() - 1 - i] == n[n.len() - 1 - i]).count();
    let (po, pn) = (positions(old), positions(new));
    for i in 0..prefix {
        check!(near(po[i], pn[i]), "a kept character moved", "{f:?}: {old:?} became {new:?}");
        check!(f.set_bold || old.verif_parts()[i].bold == new.verif_parts()[i].bold, "a kept character's boldness changed", "{f:?}");
    }
    for i in 0..postfix {
        check!(near(po[o.len() - 1 - i], pn[n.len() - 1 - i]), "a kept character moved", "{f:?}: {old:?} became {new:?}");
        check!(f.set_bold || old.verif_parts()[o.len() - 1 - i].bold == new.verif_parts()[n.len() - 1 - i].bold, "a kept character's boldness changed", "{f:?}");
    }
    for i in prefix..n.len() - postfix {
        check!(new.verif_parts()[i].bold == (f.set_bold || old.is_bold()), "new characters are as bold as the line", "{f:?}: {old:?} became {new:?}");
    }
    for i in 1..pn.len() {
        check!(pn[i] >= pn[i - 1] - 1e-6, "characters out of order", "{f:?}: {old:?} became {new:?}");
    }
    Outcome::Pass
}
fn texts(l: &[IndentedLine]) -> Vec<&str> {
    l.iter().map(|x| x.content()).collect()
}
const WORDS: &[&str] = &["", "a", "b", "ab", "ba", "aa", "aaa", "áű", "áűéúó", "áűéÍúó", "űé"];
fn word_line<S: Src>(s: &mut S, w: &str) -> IndentedLine {
    let mut parts = vec![];
    let bold = s.bool();
    for content in w.chars() {
        parts.push(IndentedLinePart { dx: 0.5 + s.below(12) as f64 * 0.5, content, bold: bold ^ (s.below(6) == 0) });
    }
    if let Some(p) = parts.first_mut() {
        p.dx += 20.0;
    }
    IndentedLine::from_parts(parts, s.bool())
}
pub fn apply<S: Src>(s: &mut S) -> Outcome {
    let k = 2 + s.below(WORDS.len() as u8 - 1);
    let n = s.below(7);
    let mut lines = vec![];
    for _ in 0..n {
        let w = WORDS[s.below(k) as usize];
        lines.push(word_line(s, w));
    }
    let ctx = s.below(3);
    let f = if n > 0 && s.below(4) > 0 {
        // something that is there
        let at = s.below(n) as usize;
        let ctx = (ctx as usize).min(at);
        Fixup {
            after: lines[at - ctx..at].iter().map(|l| l.content().to_string()).collect(),
            old: lines[at].content().to_string(),
            new: WORDS[s.below(WORDS.len() as u8) as usize].to_string(),
            set_bold: s.below(3) == 0,
        }
    } else {
        Fixup {
            after: (0..ctx).map(|_| WORDS[s.below(WORDS.len() as u8) as usize].to_string()).collect(),
            old: WORDS[s.below(WORDS.len() as u8) as usize].to_string(),
            new: WORDS[s.below(WORDS.len() as u8) as usize].to_string(),
            set_bold: s.below(3) == 0,
        }
    };
    apply_contract(&f, &lines)
}
/// Longer edits of one line
pub fn edit<S: Src>(s: &mut S) -> Outcome {
    let old = gen::pieces(s, 6, &["a", "b", "á", " ", "és"]);
    let mut cs: Vec<char> = old.chars().collect();
    for _ in 0..s.below(4) {
        let i = s.below(8) as usize;
        let c = *gen::one_of(s, &['a', 'b', 'á', 'ű', ' ']);
        match s.below(3) {
            0 if i < cs.len() => {
                cs.remove(i);
            }
            1 if i <= cs.len() => cs.insert(i, c),
            2 if i < cs.len() => cs[i] = c,
            _ => (),
        }
    }
    let lines = [word_line(s, "x"), word_line(s, &old), word_line(s, "")];
    let f = Fixup { after: vec![], old, new: cs.into_iter().collect(), set_bold: s.below(4) == 0 };
    apply_contract(&f, &lines)
}
/// A list of fixups is applied one after the other, and stops at the first one that does not apply
pub fn sequence<S: Src>(s: &mut S) -> Outcome {
    let mut lines: Vec<IndentedLine> = (0..3).map(|_| gen::plain_line(WORDS[s.below(6) as usize], 5.0, false)).collect();
    let fixups: Vec<Fixup> = (0..s.below(4))
        .map(|_| Fixup {
            after: if s.bool() { vec![] } else { vec![WORDS[s.below(6) as usize].to_string()] },
            old: WORDS[s.below(6) as usize].to_string(),
            new: WORDS[s.below(6) as usize].to_string(),
            set_bold: s.bool(),
        })
        .collect();
    let mut want: Vec<String> = lines.iter().map(|l| l.content().to_string()).collect();
    let mut ok = true;
    for f in &fixups {
        let n = f.after.len();
        let at: Vec<usize> = (n..want.len()).filter(|i| want[*i] == f.old && want[i - n..*i] == f.after[..]).collect();
        ok = at.len() == 1 && (f.old != f.new || f.set_bold);
        if !ok {
            break;
        }
        want[at[0]] = f.new.clone();
    }
    let mut all = no_fixups();
    for f in &fixups {
        all.add(f.clone());
    }
    let r = all.apply(&mut lines);
    check!(r.is_ok() == ok, "succeeds exactly if all of them apply", "{fixups:?}: {r:?}");
    check!(texts(&lines) == want, "the text after all of them", "{fixups:?}: {:?}", texts(&lines));
    check!(Vec::<Fixup>::from(all) == fixups, "the list of fixups is kept in order");
    Outcome::Pass
}
/// Nothing was saved for this act
pub fn no_fixups() -> Fixups {
    Fixups::load_from(crate::identifier::ActIdentifier { year: 1, number: 1 }, "/nonexistent/hl".into()).unwrap()
}
fn fixup(old: &str, new: &str, set_bold: bool) -> Fixup {
    Fixup { after: Vec::new(), old: String::from(old), new: String::from(new), set_bold }
}
fn untouched(l: &IndentedLine, justified: bool, bold: [bool; 2]) -> bool {
    let p = l.verif_parts();
    p.len() == 2 && p[0].content == 'a' && p[1].content == 'b' && p[0].bold == bold[0] && p[1].bold == bold[1] && p[0].dx == 1.0 && p[1].dx == 2.0 && l.is_justified() == justified
}
fn state(l: &IndentedLine) -> (bool, [bool; 2]) {
    (l.is_justified(), [l.verif_parts()[0].bold, l.verif_parts()[1].bold])
}
/// Emptying a line, which line it is being arbitrary; the other line stays
pub fn empties<S: Src>(s: &mut S) -> Outcome {
    let second = s.bool();
    let l = gen::marked_line(s, 2);
    let mut lines = if second { [crate::util::indentedline::EMPTY_LINE, l] } else { [l, crate::util::indentedline::EMPTY_LINE] };
    let f = fixup("ab", "", s.bool());
    let r = f.apply(&mut lines);
    check!(r.is_ok(), "the place is unique");
    check!(lines[0].verif_parts().is_empty() && lines[1].verif_parts().is_empty(), "emptied");
    Outcome::Pass
}
/// A fixup that would change nothing is refused, and changes nothing
pub fn refuses_useless<S: Src>(s: &mut S) -> Outcome {
    let mut lines = [gen::marked_line(s, 2), crate::util::indentedline::EMPTY_LINE];
    let (j, b) = state(&lines[0]);
    check!(fixup("ab", "ab", false).apply(&mut lines).is_err(), "useless, but accepted");
    check!(untouched(&lines[0], j, b) && lines[1].verif_parts().is_empty(), "changed although refused");
    Outcome::Pass
}
/// A text that is not there, or there twice, is refused, and nothing is changed
pub fn refuses_misplaced<S: Src>(s: &mut S) -> Outcome {
    let twice = s.bool();
    let set_bold = s.bool();
    let mut lines = [gen::marked_line(s, 2), gen::marked_line(s, 2)];
    let (j0, b0) = state(&lines[0]);
    let (j1, b1) = state(&lines[1]);
    let r = if twice { fixup("ab", "", set_bold) } else { fixup("b", "", set_bold) }.apply(&mut lines);
    check!(r.is_err(), "ambiguous or missing, but accepted");
    check!(untouched(&lines[0], j0, b0) && untouched(&lines[1], j1, b1), "changed although refused");
    Outcome::Pass
}
obligations! { P12:
    empties, bounded, "a two line text, any boldness", "Fixup::{apply,apply_to_line}", [kani::proof, kani::unwind(6)];
    refuses_useless, bounded, "a two line text, any boldness", "Fixup::{apply,apply_to_line}", [kani::proof, kani::unwind(6)];
    refuses_misplaced, bounded, "a two line text, any boldness", "Fixup::apply", [kani::proof, kani::unwind(6)];
    apply, standin, "texts of up to 6 lines, up to 2 lines of context", "Fixup::{apply,apply_to_line}", [];
    edit, standin, "up to 3 random edits of a line", "Fixup::{apply,apply_to_line}", [];
    sequence, standin, "up to 3 fixups on 3 lines", "Fixups::{add,apply}", [];
}
