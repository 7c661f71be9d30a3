//! P13: what is edited in the fixup editor is recorded so that it replays.
#[cfg(bare)]
use crate::bare::*;
use crate::fixups::{Fixup, Fixups};
use crate::gen;
use crate::vf::{Outcome, Src};

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::disk::{self, Disk};
    use crate::fixup_editor::*;
    use crate::identifier::ActIdentifier;
    use crate::parser::mk_act_section::ActRawText;
    use crate::util::indentedline::IndentedLine;

    const MENU: &[&str] = &["", "egy", "kettő", "„egy", "egy”", "egy kettő", "a"];
    const NEW: &[&str] = &["", "egy", "kettő", "három", "<BOLD>", "<BOLD> egy", "egy <BOLD>", "egy<BOLD>kettő", "<BOLD><BOLD> kettő", "<BOLD>egy<BOLD>", "„új", "<BOLD>három"];
    /// What the edited line stands for
    fn meaning(edited: &str) -> (bool, String) {
        if edited.contains("<BOLD>") {
            (true, edited.replace("<BOLD>", "").trim().to_string())
        } else {
            (false, edited.to_string())
        }
    }
    fn text<S: Src>(s: &mut S, menu: &[&str], n: usize) -> Vec<String> {
        (0..n).map(|_| gen::one_of(s, menu).to_string()).collect()
    }
    /// old and edited text of the same length, with few changes
    fn edit<S: Src>(s: &mut S, max: u8) -> (Vec<String>, Vec<String>) {
        let n = s.below(max + 1) as usize;
        let old = if s.bool() { text(s, MENU, n) } else { vec!["egy".to_string(); n] };
        let edited = old.iter().map(|l| if s.below(3) == 0 { gen::one_of(s, NEW).to_string() } else { l.clone() }).collect();
        (old, edited)
    }
    /// Whether a change in line `at` can be told by at most ten lines before it
    fn distinct(lines: &[String], at: usize) -> bool {
        (0..=at.min(10)).any(|n| lines.windows(n + 1).filter(|w| *w == &lines[at - n..=at]).count() == 1)
    }
    /// The first line, if any, that the editor has to refuse
    fn refused(old: &[String], edited: &[String]) -> bool {
        if old.len() != edited.len() {
            return true;
        }
        let mut now = old.to_vec();
        for i in 0..old.len() {
            if old[i] != edited[i] {
                if !distinct(&now, i) {
                    return true;
                }
                now[i] = meaning(&edited[i]).1;
            }
        }
        false
    }
    fn these(all: &[Fixup]) -> Fixups {
        let mut r = Fixups::load_from(crate::identifier::ActIdentifier { year: 1, number: 1 }, "/nonexistent/hl".into()).unwrap();
        all.iter().for_each(|f| r.add(f.clone()));
        r
    }
    fn replay_check(what: &str, added: &[Fixup], old: &[String], edited: &[String]) -> Outcome {
        let mut lines: Vec<IndentedLine> = old.iter().map(|t| gen::plain_line(t, 10.0, false)).collect();
        let r = these(added).apply(&mut lines);
        check!(r.is_ok(), "the recorded fixups apply", "{what} {old:?} edited to {edited:?}: {added:?}: {r:?}");
        for i in 0..old.len() {
            let (bold, t) = if old[i] == edited[i] { (false, old[i].clone()) } else { meaning(&edited[i]) };
            check!(lines[i].content() == t, "the edited text is what they give", "{what} {old:?} edited to {edited:?}: {added:?} gave {:?} in line {i}", lines[i].content());
            check!(t.is_empty() || lines[i].is_bold() == bold, "and exactly the marked lines are bold", "{what} {old:?} edited to {edited:?}: {added:?}, line {i}");
        }
        Outcome::Pass
    }
    fn some_fixups<S: Src>(s: &mut S) -> Vec<Fixup> {
        (0..s.below(3)).map(|_| {
            let n = s.below(3) as usize;
            Fixup { after: text(s, MENU, n), old: gen::one_of(s, MENU).to_string(), new: gen::one_of(s, MENU).to_string(), set_bold: s.bool() }
        }).collect()
    }
    #[cfg(feature = "p13")]
    pub fn recorded<S: Src>(s: &mut S) -> Outcome {
        let (old, mut edited) = edit(s, 14);
        if s.below(16) == 0 {
            edited.push("x".into());
        }
        let before = some_fixups(s);
        let mut fixups = these(&before);
        let r = verif_update_fixups(&mut fixups, old.clone(), edited.clone());
        check!(r.is_ok() == !refused(&old, &edited), "refused exactly if lines were added or removed or a change can not be told by its context", "{old:?} edited to {edited:?}: {r:?}");
        let all: Vec<Fixup> = fixups.into();
        check!(all.len() >= before.len() && all[..before.len()] == before[..], "earlier fixups are kept, first", "{before:?} became {all:?}");
        if r.is_ok() {
            let changed = (0..old.len()).filter(|i| old[*i] != edited[*i]).count();
            check!(all.len() == before.len() + changed, "one fixup for every changed line", "{old:?} edited to {edited:?}: {all:?}");
            return replay_check("update", &all[before.len()..], &old, &edited);
        }
        Outcome::Pass
    }
    /// In a scratch directory: the fixups are stored relative to the current one
    static CWD: std::sync::Mutex<()> = std::sync::Mutex::new(());
    fn in_scratch(f: impl FnOnce(&std::path::Path) -> Outcome) -> Outcome {
        let _only = CWD.lock().unwrap_or_else(|e| e.into_inner());
        let dir = tempfile::Builder::new().prefix("hl_p13").tempdir().unwrap();
        let back = std::env::current_dir().unwrap();
        std::env::set_current_dir(dir.path()).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(dir.path())));
        std::env::set_current_dir(back).unwrap();
        match r {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
    fn id<S: Src>(s: &mut S) -> ActIdentifier {
        ActIdentifier { year: 1990 + s.below(40) as i16, number: 1 + s.below(250) as i32 }
    }
    pub fn stored<S: Src>(s: &mut S) -> Outcome {
        let (a, b) = (id(s), id(s));
        let all = some_fixups(s);
        let again = some_fixups(s);
        in_scratch(|dir| {
            let r = Fixups::load_from(a, dir.join("d"));
            check!(matches!(&r, Ok(f) if Vec::from(f.clone()).is_empty()), "no fixups to begin with", "{r:?}");
            let mut f = r.unwrap();
            for x in &all {
                f.add(x.clone());
            }
            let r = f.save();
            check!(r.is_ok(), "can be saved", "{r:?}");
            let mut f = Fixups::load_from(a, dir.join("d")).unwrap();
            check!(Vec::from(f.clone()) == all, "read back unchanged", "{all:?} became {f:?}");
            for x in &again {
                f.add(x.clone());
            }
            let r = f.save();
            check!(r.is_ok(), "can be saved again", "{r:?}");
            let f = Fixups::load_from(a, dir.join("d")).unwrap();
            check!(Vec::from(f.clone()) == [&all[..], &again[..]].concat(), "read back unchanged", "{all:?} {again:?} became {f:?}");
            let o = Fixups::load_from(b, dir.join("d")).unwrap();
            check!((a == b) || Vec::from(o).is_empty(), "every act has its own");
            Outcome::Pass
        })
    }
    /// Whatever happens while saving, what was saved before is not lost
    pub fn saving_fails<S: Src>(s: &mut S) -> Outcome {
        let a = id(s);
        let all = some_fixups(s);
        let again = some_fixups(s);
        let limit = *gen::one_of(s, &[0usize, 1, 2, 3, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 60, 70, 80, 90, 100, 120, 150]);
        let disk = if s.bool() { Disk::Full(limit) } else { Disk::Dies(limit) };
        let dir = tempfile::Builder::new().prefix("hl_p13").tempdir().unwrap();
        let mut f = Fixups::load_from(a, dir.path().join("d")).unwrap();
        let before = if s.bool() { all } else { vec![] };
        if !before.is_empty() {
            for x in &before {
                f.add(x.clone());
            }
            let r = f.save();
            check!(r.is_ok(), "can be saved", "{r:?}");
        }
        for x in &again {
            f.add(x.clone());
        }
        let after = [&before[..], &again[..]].concat();
        let r = disk::with_disk(disk, || f.save());
        let what = format!("{before:?}, then {again:?}, {disk:?}: {r:?}");
        let l = Fixups::load_from(a, dir.path().join("d"));
        check!(l.is_ok(), "can still be read", "{what}: {l:?}");
        let l = Vec::from(l.unwrap());
        check!(l == after || (r.is_err() && l == before), "all or nothing is saved", "{what}: {l:?}");
        let r = f.save();
        check!(r.is_ok(), "can be saved the next time", "{what}: {r:?}");
        check!(matches!(Fixups::load_from(a, dir.path().join("d")), Ok(x) if Vec::from(x.clone()) == after), "saved the next time", "{what}");
        Outcome::Pass
    }
    /// The first line that closes a quote that is not open, else the one after the last that ends outside of quotes
    fn opens_at(lines: &[String]) -> String {
        let (mut level, mut at) = (0i64, 0);
        for (i, l) in lines.iter().enumerate() {
            for c in l.chars() {
                level += match c {
                    '„' | '“' => 1,
                    '”' => -1,
                    _ => 0,
                };
            }
            if level < 0 {
                return format!("+{}", i + 1);
            }
            if level == 0 {
                at = i + 1;
            }
        }
        format!("+{}", at + 1)
    }
    /// The whole editor, with a program that edits the lines it is given
    pub fn edited<S: Src>(s: &mut S) -> Outcome {
        let (old, new) = edit(s, 6);
        let act = ActRawText {
            identifier: id(s),
            body: old.iter().map(|t| gen::plain_line(t, 10.0 + 30.0 * s.below(3) as f64, s.bool())).collect(),
            ..Default::default()
        };
        let trims = s.bool();
        let full = if s.below(3) == 0 { Disk::Full(s.u8() as usize * 3) } else { Disk::Good };
        in_scratch(|dir| {
            // edits line by line, keeping what comes before the text
            let mut script = String::from("#!/bin/bash\necho \"$2\" > place\ncat \"$1\" > given\nn=0\nwhile IFS= read -r l || [ -n \"$l\" ]; do\nn=$((n+1))\ncase $n in\n");
            for i in 0..old.len() {
                if old[i] != new[i] {
                    script += &format!("{}) l=\"${{l:0:5}}  {}\";;\n", i + 1, new[i]);
                }
            }
            script += "esac\n";
            if trims {
                script += "l=\"${l%\"${l##*[! ]}\"}\"\n";
            }
            script += "printf '%s\\n' \"$l\"\ndone < \"$1\" > edited\ncat edited > \"$1\"\n";
            let ed = dir.join("editor.sh");
            std::fs::write(&ed, script).unwrap();
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(&ed, std::fs::Permissions::from_mode(0o755)).unwrap();
            let r = disk::with_disk(full, || run_fixup_editor(&act, ed.to_str().unwrap()));
            if full != Disk::Good {
                // recorded, or reported
                let all = Vec::from(Fixups::load(act.identifier).unwrap());
                if r.is_err() {
                    check!(all.is_empty(), "nothing is saved then");
                    return Outcome::Pass;
                }
                return replay_check("editor", &all, &old, &new);
            }
            let (place, given) = (std::fs::read_to_string("place").unwrap_or_default(), std::fs::read_to_string("given").unwrap_or_default());
            let given: Vec<&str> = given.lines().map(|l| l.get(5..).unwrap_or("").trim()).collect();
            check!(given == old, "the editor is given the text, line by line", "{old:?}: {given:?}");
            check!(place.trim() == opens_at(&old), "the editor opens where the quotes go wrong, or else are left open", "{old:?}: {place:?}");
            check!(r.is_ok() == !refused(&old, &new), "refused exactly if a change can not be told by its context", "{old:?} edited to {new:?}: {r:?}");
            if r.is_err() {
                check!(Vec::from(Fixups::load(act.identifier).unwrap()).is_empty(), "nothing is saved then");
                return Outcome::Pass;
            }
            let all = Vec::from(Fixups::load(act.identifier).unwrap());
            replay_check("editor", &all, &old, &new)
        })
    }
}
#[cfg(not(kani))]
pub use native::*;

obligations! { P13:
    #[cfg(feature = "p13")]
    recorded, standin, "texts of up to 14 lines, any lines changed, up to two earlier fixups", "update_fixups", [];
    stored, standin, "up to two fixups, saved twice", "Fixups::load_from, Fixups::add, Fixups::save", [];
    saving_fails, standin, "up to two fixups, saved twice; disk full or process dying after any of 21 amounts written", "Fixups::load_from, Fixups::add, Fixups::save", [];
    edited, standin, "texts of up to 6 lines, a scripted editor that may trim lines", "run_fixup_editor", [];
}
