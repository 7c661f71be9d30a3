//! P18: what a text says about other texts is found, and nothing else.
#[cfg(bare)]
use crate::bare::*;
use crate::vf::{Outcome, Src};

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen_phrase::{known, W};
    use crate::parser::semantic_info::abbreviation::AbbreviationCache;
    use crate::parser::semantic_info::sae::SemanticInfoAdder;
    use crate::semantic_info::*;
    use crate::parser::semantic_info::AbbreviationsChanged;
    use crate::spec;
    use crate::structure::{Act, ActChild, AlphabeticPoint, AlphabeticPointChildren, AlphabeticSubpoint, Article, Paragraph, ParagraphChildren, SAEBody};

    fn same_refs(a: &[OutgoingReference], b: &[OutgoingReference]) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (a.start, a.end) == (b.start, b.end) && spec::same(&a.reference.verif_parts(), &b.reference.verif_parts()))
    }
    fn sentence<S: Src>(s: &mut S, kind: u8) -> Outcome {
        let mut w = W::new(s);
        let Some(phrase) = w.sentence(kind) else {
            return Outcome::Discard;
        };
        let mut cache = AbbreviationCache::from(known());
        let r = SemanticInfoAdder::new(&mut cache).extract_semantic_info(&w.t);
        let Ok(r) = r else {
            check!(false, "a well formed sentence", "{:?}: {r:?}", w.t);
            return Outcome::Pass;
        };
        check!(r.special_phrase == phrase, "what the sentence does", "{:?}: {:#?} instead of {phrase:#?}", w.t, r.special_phrase);
        check!(same_refs(&r.outgoing_references, &w.refs), "the references in it", "{:?}: {:#?} instead of {:#?}", w.t, r.outgoing_references, w.refs);
        check!(r.new_abbreviations == w.abbreviations, "the abbreviations it defines", "{:?}: {:?}", w.t, r.new_abbreviations);
        check!(std::collections::BTreeMap::from(cache) == w.known, "the known abbreviations", "{:?}", w.t);
        Outcome::Pass
    }
    fn sound(text: &str, info: &SemanticInfo) -> Outcome {
        let mut last = 0;
        for r in &info.outgoing_references {
            check!(last <= r.start && r.start < r.end, "one after the other", "{text:?}: {:?}", info.outgoing_references);
            check!(r.end <= text.len(), "inside the text", "{text:?}: {:?}", info.outgoing_references);
            check!(text.is_char_boundary(r.start) && text.is_char_boundary(r.end), "between characters", "{text:?}: {:?}", info.outgoing_references);
            check!(spec::valid(&r.reference.verif_parts()), "a reference to something", "{text:?}: {:?}", info.outgoing_references);
            last = r.end;
        }
        Outcome::Pass
    }
    const SOUP: &[&str] = &[
        "2013. évi V. törvény", "2013. évi V. tv", "2013. évi IIIIII. tv.", "99999. évi X. törvény", "(a továbbiakban: Xyz)", "(a továbbiakban: tv.)", "Xyz", "Ptk.", "Ptk", "Kt. vhr.", "Eva tv", "Ötv", "5. §", "70000. §", "999:1. §-a",
        "5:6/A–9. §", "(1)", "(2)–(3)", "(1a) bekezdés", "bekezdés", "a)", "a)–c)", "zs) pont", "z)-a) pont", "1–3. pont", "pont", "aa) alpont", "3. alpont", "és", "valamint", ",", ";", ", a", "a", "A", "az", "„idézett", "”", "„x”",
        "szövegrész helyébe", "szöveg lép", "Hatályát veszti", "helyébe a következő rendelkezés lép", "a következő", "egészül ki", ":", ".", "!", "lép hatályba", "2023. február 31-én", "E törvény", "kihirdetését követő 8. napon", "melléklete", "5. melléklete",
        "alcím", "címe", "II. Fejezet", "Második rész", "KÖNYV", "ő", "–", "§", "§-a", "/", "íz", "\u{a0}", "  ", "illetve", "vagy", "továbbá", "nyitó", "követő", "megelőző",
    ];
    /// Anything that may be written, however little sense it makes
    fn soup<S: Src>(s: &mut S, max: u8) -> String {
        let mut t = String::new();
        for i in 0..1 + s.below(max) {
            if i > 0 && s.below(6) > 0 {
                t.push(' ');
            }
            t += *crate::gen::one_of(s, SOUP);
        }
        t
    }
    pub fn any_text<S: Src>(s: &mut S) -> Outcome {
        let t = soup(s, 14);
        let mut cache = AbbreviationCache::from(known());
        let r = SemanticInfoAdder::new(&mut cache).extract_semantic_info(&t);
        let Ok(info) = r else {
            return Outcome::Pass;
        };
        let after = std::collections::BTreeMap::from(cache);
        let mut expected = known();
        expected.extend(info.new_abbreviations.clone());
        check!(after == expected, "the known abbreviations", "{t:?}: {after:?}");
        sound(&t, &info)
    }
    fn text_point(identifier: char, text: &str) -> AlphabeticPoint {
        AlphabeticPoint { identifier: identifier.try_into().unwrap(), body: SAEBody::Text(text.into()), semantic_info: Default::default(), last_change: None }
    }
    fn text_paragraph(n: u16, text: &str) -> Paragraph {
        Paragraph { identifier: n.into(), body: SAEBody::Text(text.into()), semantic_info: Default::default(), last_change: None }
    }
    fn article(n: u16, children: Vec<Paragraph>) -> ActChild {
        ActChild::Article(Article { identifier: n.into(), title: None, children, last_change: None })
    }
    fn act(children: Vec<ActChild>) -> Act {
        Act {
            identifier: crate::identifier::ActIdentifier { year: 2020, number: 1 },
            publication_date: chrono::NaiveDate::from_ymd_opt(2020, 1, 1).unwrap(),
            subject: "A tesztelésről".into(),
            preamble: String::new(),
            contained_abbreviations: known(),
            children,
        }
    }
    const JUNK: &[&str] = &[" a", " és", " valamint", " illetve", " vagy", " továbbá", ";", ","];
    /// A sentence cut into an intro, points and a wrap up is still that sentence
    pub fn in_context<S: Src>(s: &mut S) -> Outcome {
        let kind = s.below(6);
        let deep = s.bool();
        let mut cuts: Vec<usize> = (0..if deep { 4 } else { 2 }).map(|_| s.below(40) as usize).collect();
        let joined = *crate::gen::one_of(s, &["", "", ",", ";", " és", ", és", "; valamint", ", illetve", " vagy", ", továbbá", " a", ", a", "; és a"]);
        let beside = s.bool();
        let other = soup(s, 3);
        let mut w = W::new(s);
        let Some(phrase) = w.sentence(kind) else {
            return Outcome::Discard;
        };
        let t = w.t.clone();
        let blanks: Vec<usize> = t.bytes().enumerate().filter(|(_, b)| *b == b' ').map(|(i, _)| i).collect();
        if blanks.len() < cuts.len() {
            return Outcome::Discard;
        }
        for c in &mut cuts {
            *c %= blanks.len();
        }
        cuts.sort();
        cuts.dedup();
        if cuts.len() != if deep { 4 } else { 2 } {
            return Outcome::Discard;
        }
        let cut: Vec<usize> = cuts.iter().map(|c| blanks[*c]).collect();
        // with no wrap up, the last piece belongs to the point
        let (first, last) = if deep { (cut[1], cut[2]) } else { (cut[0], cut[1]) };
        let middle = &t[first + 1..last];
        if JUNK.iter().any(|j| middle.ends_with(j)) {
            return Outcome::Discard;
        }
        let body = if deep {
            let subpoint = |c: char, text: &str| AlphabeticSubpoint {
                identifier: crate::identifier::PrefixedAlphabeticIdentifier::verif_new(None, c.try_into().unwrap()),
                body: SAEBody::Text(text.into()),
                semantic_info: Default::default(),
                last_change: None,
            };
            let mut list = vec![subpoint('a', &format!("{middle}{joined}"))];
            if beside {
                list.push(subpoint('b', &other));
            }
            let point = AlphabeticPoint {
                identifier: 'a'.try_into().unwrap(),
                body: SAEBody::Children { intro: t[cut[0] + 1..cut[1]].into(), children: AlphabeticPointChildren::AlphabeticSubpoint(list), wrap_up: Some(t[cut[2] + 1..cut[3]].into()) },
                semantic_info: Default::default(),
                last_change: None,
            };
            SAEBody::Children { intro: t[..cut[0]].into(), children: ParagraphChildren::AlphabeticPoint(vec![point]), wrap_up: Some(t[cut[3] + 1..].into()) }
        } else {
            let mut list = vec![text_point('a', &format!("{middle}{joined}"))];
            if beside {
                list.push(text_point('b', &other));
            }
            SAEBody::Children { intro: t[..cut[0]].into(), children: ParagraphChildren::AlphabeticPoint(list), wrap_up: Some(t[cut[1] + 1..].into()) }
        };
        let mut a = act(vec![article(1, vec![Paragraph { identifier: 1.into(), body, semantic_info: Default::default(), last_change: None }])]);
        if a.add_semantic_info().is_err() {
            // what stands beside it, or a piece alone, may be nonsense
            return Outcome::Discard;
        }
        let paragraph = a.articles().next().unwrap().children[0].clone();
        let SAEBody::Children { children: ParagraphChildren::AlphabeticPoint(points), .. } = &paragraph.body else { panic!() };
        let info = match &points[0].body {
            SAEBody::Children { children: AlphabeticPointChildren::AlphabeticSubpoint(l), .. } => &l[0].semantic_info,
            _ => &points[0].semantic_info,
        };
        let expected: Vec<OutgoingReference> = w
            .refs
            .iter()
            .filter(|r| r.end > first + 1 && r.end <= last)
            .map(|r| OutgoingReference { start: r.start.saturating_sub(first + 1), end: r.end - first - 1, reference: r.reference.clone() })
            .collect();
        check!(info.special_phrase == phrase, "what the whole sentence does", "{t:?} cut at {cut:?}: {:#?}", info.special_phrase);
        check!(same_refs(&info.outgoing_references, &expected), "the references in that piece", "{t:?} cut at {cut:?}: {:#?} instead of {expected:#?}", info.outgoing_references);
        check!(info.new_abbreviations == w.abbreviations, "the abbreviations it defines", "{t:?} cut at {cut:?}: {:?}", info.new_abbreviations);
        Outcome::Pass
    }
    /// A sentence that is continued in points: only an amendment of a block can be meant
    pub fn intros<S: Src>(s: &mut S) -> Outcome {
        let kind = s.below(6);
        let mut w = W::new(s);
        let Some(phrase) = w.sentence(kind) else {
            return Outcome::Discard;
        };
        let body = SAEBody::Children { intro: w.t.clone(), children: ParagraphChildren::AlphabeticPoint(vec![text_point('a', "alma,"), text_point('b', "körte.")]), wrap_up: None };
        let mut a = act(vec![article(1, vec![Paragraph { identifier: 1.into(), body, semantic_info: Default::default(), last_change: None }])]);
        let r = a.add_semantic_info();
        check!(r.is_ok(), "a well formed sentence", "{:?}: {r:?}", w.t);
        let info = a.articles().next().unwrap().children[0].semantic_info.clone();
        let kept = phrase.filter(|p| matches!(p, SpecialPhrase::BlockAmendment(_) | SpecialPhrase::StructuralBlockAmendment(_)));
        check!(info.special_phrase == kept, "what an intro does", "{:?}: {:#?} instead of {kept:#?}", w.t, info.special_phrase);
        check!(same_refs(&info.outgoing_references, &w.refs), "the references in it", "{:?}: {:#?} instead of {:#?}", w.t, info.outgoing_references, w.refs);
        Outcome::Pass
    }
    /// An amendment of something that can not exist is an error
    pub fn malformed<S: Src>(s: &mut S) -> Outcome {
        let kind = s.below(5);
        let one = s.bool();
        let mut w = W::new(s);
        if w.sentence(kind).is_none() || !w.t.contains("65000") || w.aside {
            return Outcome::Discard;
        }
        let t = w.t.replacen("65000", "75000", 1);
        let mut cache = AbbreviationCache::from(known());
        let r = SemanticInfoAdder::new(&mut cache).extract_semantic_info(&t);
        check!(r.is_err(), "no such element", "{t:?}: {r:?}");
        let mut a = act(vec![article(1, vec![text_paragraph(1, "Alma."), text_paragraph(2, &t)])]);
        let r = if one { a.add_semantic_info_to_article(1.into()) } else { a.add_semantic_info() };
        check!(r.is_err(), "no such element", "{t:?}: {r:?}");
        Outcome::Pass
    }
    fn stripped(a: &Act) -> Act {
        let mut a = a.clone();
        a.contained_abbreviations.clear();
        for x in a.articles_mut() {
            for p in &mut x.children {
                p.semantic_info = Default::default();
            }
        }
        a
    }
    /// The sentences of an act, one after the other
    pub fn acts<S: Src>(s: &mut S) -> Outcome {
        let n = 1 + s.below(3) as u16;
        let mut known_now = known();
        let mut changed = false;
        let mut expected = vec![];
        let mut children = vec![];
        for i in 0..n {
            let mut paragraphs = vec![];
            for j in 0..1 + s.below(3) as u16 {
                let kind = s.below(10);
                let mut w = W::after(s, known_now.clone());
                let Some(phrase) = w.sentence(kind) else {
                    return Outcome::Discard;
                };
                paragraphs.push(text_paragraph(j + 1, &w.t));
                changed |= w.changed;
                expected.push((SemanticInfo { outgoing_references: w.refs, new_abbreviations: w.abbreviations, special_phrase: phrase }, known_now));
                known_now = w.known;
            }
            children.push(article(i + 1, paragraphs));
        }
        let before = act(children);
        let mut a = before.clone();
        let r = a.add_semantic_info();
        let Ok(r) = r else {
            check!(false, "well formed sentences", "{before:?}: {r:?}");
            return Outcome::Pass;
        };
        check!(r == AbbreviationsChanged::from(changed), "whether an abbreviation has changed", "{before:?}: {r:?}");
        check!(a.contained_abbreviations == known_now, "every abbreviation", "{before:?}: {:?}", a.contained_abbreviations);
        check!(stripped(&a) == stripped(&before), "nothing else is touched", "{before:?}: {a:?}");
        let infos = |a: &Act| -> Vec<SemanticInfo> { a.articles().flat_map(|x| x.children.iter().map(|p| p.semantic_info.clone())).collect() };
        let same = |a: &SemanticInfo, b: &SemanticInfo| same_refs(&a.outgoing_references, &b.outgoing_references) && a.new_abbreviations == b.new_abbreviations && a.special_phrase == b.special_phrase;
        for (x, (y, _)) in infos(&a).iter().zip(&expected) {
            check!(same(x, y), "what every sentence says", "{before:?}: {x:?} instead of {y:?}");
        }
        // once more, one article of it only
        let which = 1 + s.below(n as u8 + 1) as u16;
        let mut b = before.clone();
        let mut at = 0;
        for x in b.articles().take((which - 1) as usize) {
            at += x.children.len();
        }
        if which > n {
            check!(b.add_semantic_info_to_article(which.into()).is_err(), "no such article", "{which} in {before:?}");
            check!(b == before, "nothing is touched", "{b:?}");
            return Outcome::Pass;
        }
        b.contained_abbreviations = expected[at].1.clone();
        let start = b.clone();
        let r = b.add_semantic_info_to_article(which.into());
        let count = start.articles().nth((which - 1) as usize).unwrap().children.len();
        let end = expected.get(at + count).map_or(&known_now, |e| &e.1);
        check!(r.is_ok(), "a well formed article", "{start:?}: {r:?}");
        check!(b.contained_abbreviations == *end, "the abbreviations of that article", "{start:?}: {:?}", b.contained_abbreviations);
        check!(stripped(&b) == stripped(&start), "nothing else is touched", "{start:?}: {b:?}");
        for (i, x) in infos(&b).iter().enumerate() {
            if i >= at && i < at + count {
                check!(same(x, &expected[i].0), "what its sentences say", "{start:?}: {x:?} instead of {:?}", expected[i].0);
            } else {
                check!(*x == SemanticInfo::default(), "the other articles are left alone", "{start:?}: {x:?}");
            }
        }
        Outcome::Pass
    }
    /// A map that remembers whether it has changed
    pub fn abbreviation_cache<S: Src>(s: &mut S) -> Outcome {
        let mut model = if s.bool() { known() } else { Default::default() };
        let mut cache = AbbreviationCache::from(model.clone());
        let mut changed = false;
        let acts = [(2013, 5), (1999, 7), (2000, 1)].map(|(year, number)| crate::identifier::ActIdentifier { year, number });
        for _ in 0..s.below(6) {
            let mut list = vec![];
            for _ in 0..1 + s.below(3) {
                let name = *crate::gen::one_of(s, &["Ptk.", "Kt.", "Xyz", "Kt. vhr.", "ptk."]);
                list.push((name.to_string(), *crate::gen::one_of(s, &acts)));
            }
            for (name, a) in &list {
                changed |= model.insert(name.clone(), *a) != Some(*a);
            }
            if list.len() == 1 {
                cache.add(list[0].0.clone(), list[0].1);
            } else {
                cache.add_multiple(&list);
            }
            check!(cache.has_changed() == changed, "whether it has changed", "{list:?}");
            for name in ["Ptk.", "Kt.", "Xyz", "Kt. vhr.", "ptk.", "Ö"] {
                check!(cache.resolve(name).ok() == model.get(name).copied(), "what an abbreviation means", "{name}");
            }
            let mut all = cache.all_abbreviations();
            all.sort();
            check!(all == model.keys().cloned().collect::<Vec<_>>(), "every abbreviation", "{all:?}");
        }
        check!(std::collections::BTreeMap::from(cache) == model, "the map", "{model:?}");
        Outcome::Pass
    }
    pub fn text_amendments<S: Src>(s: &mut S) -> Outcome {
        sentence(s, 0)
    }
    pub fn repeals<S: Src>(s: &mut S) -> Outcome {
        sentence(s, 1)
    }
    pub fn block_amendments<S: Src>(s: &mut S) -> Outcome {
        sentence(s, 2)
    }
    pub fn structural_amendments<S: Src>(s: &mut S) -> Outcome {
        sentence(s, 3)
    }
    pub fn enforcement_dates<S: Src>(s: &mut S) -> Outcome {
        sentence(s, 4)
    }
    pub fn references<S: Src>(s: &mut S) -> Outcome {
        sentence(s, 5)
    }
}
#[cfg(not(kani))]
pub use native::*;

obligations! { P18:
    references, standin, "sentences of up to 4 references, lists of 3", "SemanticInfoAdder::extract_semantic_info, grammar_parse, GetOutgoingReferences::*, FeedReferenceBuilder::*", [];
    text_amendments, standin, "up to 3 places and 2 replaced texts", "convert_text_amendment, convert_text_amendment_references", [];
    repeals, standin, "up to 3 places and 2 texts", "convert_repeal, convert_element_repeal", [];
    block_amendments, standin, "one reference, one insertion or both", "convert_block_amendment", [];
    structural_amendments, standin, "every kind of structural element", "convert_structural_block_amendment, convert_subtitle_block_amendment", [];
    enforcement_dates, standin, "up to 4 places, every kind of date", "convert_enforcement_date", [];
    any_text, standin, "up to 14 pieces of nonsense", "SemanticInfoAdder::extract_semantic_info, assemble_to_be_parsed_text, adjust_outgoing_reference", [];
    in_context, standin, "one or two levels of points", "SemanticInfoAdder::on_enter, SemanticInfoAdder::on_exit, extract_special_phrase", [];
    intros, standin, "one paragraph with two points", "SemanticInfoAdder::on_enter", [];
    malformed, standin, "one number too big, anywhere in an amendment", "SemanticInfoAdder::extract_semantic_info, Act::add_semantic_info, Act::add_semantic_info_to_article", [];
    acts, standin, "up to 3 articles of 3 paragraphs", "Act::add_semantic_info, Act::add_semantic_info_to_article, get_new_abbreviations", [];
    abbreviation_cache, standin, "up to 5 operations", "AbbreviationCache::{add, add_multiple, resolve, has_changed, all_abbreviations, from}", [];
}
