//! P17: the structure of an act printed in the gazette's layout is recovered exactly.
use crate::parser::structure::*;
use crate::vf::{Outcome, Src};
use crate::gen;

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen_raw;
    use crate::structure::*;

    fn without_empty_lines(act: &mut Act) {
        for a in act.articles_mut() {
            for p in &mut a.children {
                if let SAEBody::Children { children: ParagraphChildren::QuotedBlock(q), .. } = &mut p.body {
                    for b in q {
                        b.lines.retain(|l| !l.is_empty());
                    }
                }
            }
        }
    }
    pub fn recovered<S: Src>(s: &mut S) -> Outcome {
        let (mut want, raw) = gen_raw::act_and_text(s);
        let lines = || raw.body.iter().map(|l| (l.content(), l.indent(), l.is_bold())).collect::<Vec<_>>();
        let mut got = match parse_act_structure(&raw) {
            Ok(a) => a,
            Err(e) => {
                if want.children.is_empty() {
                    return Outcome::Pass;
                }
                return Outcome::Fail(format!("a proper act was refused: {e:?}: {:#?}", lines()));
            }
        };
        // empty lines inside of quoted blocks are not significant
        without_empty_lines(&mut want);
        without_empty_lines(&mut got);
        check!(got == want, "the structure of the act", "{got:#?} instead of {want:#?} from {:#?}", lines());
        Outcome::Pass
    }
}
#[cfg(not(kani))]
pub use native::*;

obligations! { P17:
    recovered, standin, "random acts of up to 5 children", "parse_act_structure, parse_complex_body, ArticleParserFactory::*, ArticleParser::*, SAEParser::parse, SAEParser::extract_multiple, QuotedBlockParser::*, SubtitleParserFactory::*, StructuralElementParserFactory::*", [];
}
