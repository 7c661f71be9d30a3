//! Stand-ins for the hooks over the public interface only, for a tree on which the hooks to
//! private fields do not compile any more. What can not be built or seen that way is left out.
use crate::identifier::*;
use crate::reference::parts::*;
use crate::reference::unchecked::UncheckedReference;
use crate::reference::Reference;
use crate::util::indentedline::{IndentedLine, IndentedLinePart};
use crate::vf::VerifReferenceParts;

pub const UNREACHABLE: &str = "not within reach of the public interface";

pub trait BareNumeric: Sized {
    fn verif_new(num: u16, suffix: Option<HungarianIdentifierChar>) -> Self;
    fn verif_parts(&self) -> (u16, Option<HungarianIdentifierChar>);
}
impl BareNumeric for NumericIdentifier {
    fn verif_new(num: u16, suffix: Option<HungarianIdentifierChar>) -> Self {
        let text = format!("{num}{}", suffix.map(|s| s.to_string()).unwrap_or_default());
        text.parse().unwrap_or_else(|_| panic!("{UNREACHABLE}"))
    }
    fn verif_parts(&self) -> (u16, Option<HungarianIdentifierChar>) {
        let text = self.to_string();
        let at = text.find(|c: char| !c.is_ascii_digit()).unwrap_or(text.len());
        let suffix = &text[at..];
        (text[..at].parse().unwrap(), if suffix.is_empty() { None } else { Some(suffix.parse().unwrap()) })
    }
}
pub trait BareArticle {
    fn verif_parts(&self) -> (Option<u8>, NumericIdentifier);
}
impl BareArticle for ArticleIdentifier {
    fn verif_parts(&self) -> (Option<u8>, NumericIdentifier) {
        let text = self.to_string();
        match text.split_once(':') {
            Some((book, id)) => (Some(book.parse().unwrap()), id.parse().unwrap()),
            None => (None, text.parse().unwrap()),
        }
    }
}
pub trait BarePrefixed: Sized {
    fn verif_new(prefix: Option<HungarianIdentifierChar>, chr: HungarianIdentifierChar) -> Self;
    fn verif_parts(&self) -> (Option<HungarianIdentifierChar>, HungarianIdentifierChar);
}
impl BarePrefixed for PrefixedAlphabeticIdentifier {
    fn verif_new(prefix: Option<HungarianIdentifierChar>, chr: HungarianIdentifierChar) -> Self {
        let text = format!("{}{chr}", prefix.map(|s| s.to_string()).unwrap_or_default());
        match text.parse::<Self>() {
            Ok(r) if r.get_prefix() == prefix => r,
            _ => panic!("{UNREACHABLE}"),
        }
    }
    fn verif_parts(&self) -> (Option<HungarianIdentifierChar>, HungarianIdentifierChar) {
        let prefix = self.get_prefix();
        let text = self.to_string();
        let rest = &text[prefix.map(|p| p.to_string().len()).unwrap_or(0)..];
        (prefix, rest.parse().unwrap())
    }
}
pub trait BareReference: Sized {
    fn verif_new(p: VerifReferenceParts) -> Self;
    fn verif_parts(&self) -> VerifReferenceParts;
}
fn field<T: serde::de::DeserializeOwned>(v: &serde_json::Value, name: &str) -> Option<T> {
    v.get(name).map(|x| serde_json::from_value(x.clone()).unwrap())
}
fn parts_of(v: serde_json::Value) -> VerifReferenceParts {
    (field(&v, "act"), field(&v, "article"), field(&v, "paragraph"), field(&v, "point"), field(&v, "subpoint"))
}
impl BareReference for UncheckedReference {
    fn verif_new(p: VerifReferenceParts) -> Self {
        let mut m = serde_json::Map::new();
        let mut put = |name: &str, v: serde_json::Value| {
            if !v.is_null() {
                m.insert(name.to_string(), v);
            }
        };
        put("act", serde_json::to_value(p.0).unwrap());
        put("article", serde_json::to_value(p.1).unwrap());
        put("paragraph", serde_json::to_value(p.2).unwrap());
        put("point", serde_json::to_value(p.3).unwrap());
        put("subpoint", serde_json::to_value(p.4).unwrap());
        let r: Result<Self, _> = serde_json::from_value(serde_json::Value::Object(m));
        match r {
            Ok(r) if crate::spec::same(&r.verif_parts(), &p) => r,
            _ => panic!("{UNREACHABLE}"),
        }
    }
    fn verif_parts(&self) -> VerifReferenceParts {
        parts_of(serde_json::to_value(self).unwrap())
    }
}
impl BareReference for Reference {
    fn verif_new(p: VerifReferenceParts) -> Self {
        UncheckedReference::verif_new(p).try_into().unwrap_or_else(|_| panic!("{UNREACHABLE}"))
    }
    fn verif_parts(&self) -> VerifReferenceParts {
        parts_of(serde_json::to_value(self).unwrap())
    }
}
pub trait BareLine {
    fn verif_parts(&self) -> &'static [IndentedLinePart];
}
impl BareLine for IndentedLine {
    fn verif_parts(&self) -> &'static [IndentedLinePart] {
        let mut last = 0.0;
        let parts: Vec<IndentedLinePart> = self
            .content()
            .chars()
            .enumerate()
            .map(|(i, content)| {
                let i = i as i64;
                let at = self.indent_at(i);
                let dx = at - std::mem::replace(&mut last, at);
                IndentedLinePart { dx, content, bold: self.slice(i, Some(i + 1)).is_bold() }
            })
            .collect();
        // The hook gives out a reference to the line's own
        Box::leak(parts.into_boxed_slice())
    }
}
