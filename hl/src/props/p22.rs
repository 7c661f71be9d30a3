//! P22: what is saved as JSON or YAML is read back unchanged.
use crate::gen;
use crate::vf::{Outcome, Src};

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen_act;
    use crate::output::{CliOutput, OutputFormat};
    use crate::structure::Act;
    use crate::parser::mk_act_section::ActRawText;
    use crate::util::singleton_yaml;
    use serde::{de::DeserializeOwned, Serialize};

    fn same<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(x: &T) -> Outcome {
        let j = serde_json::to_string(x);
        check!(j.is_ok(), "JSON can be written", "{x:?}: {j:?}");
        let j = j.unwrap();
        let r = serde_json::from_str::<T>(&j);
        check!(matches!(&r, Ok(y) if y == x), "back from JSON", "{j}: {r:?} instead of {x:?}");
        let y = singleton_yaml::to_string(x);
        check!(y.is_ok(), "YAML can be written", "{x:?}: {y:?}");
        let y = y.unwrap();
        let r = singleton_yaml::from_str::<T>(&y);
        check!(matches!(&r, Ok(y) if y == x), "back from YAML", "{y}: {r:?} instead of {x:?}");
        let r = singleton_yaml::from_slice::<T>(y.as_bytes());
        check!(matches!(&r, Ok(y) if y == x), "back from YAML bytes", "{y}: {r:?} instead of {x:?}");
        let r = singleton_yaml::from_reader::<_, T>(y.as_bytes());
        check!(matches!(&r, Ok(y) if y == x), "back from a YAML stream", "{y}: {r:?} instead of {x:?}");
        Outcome::Pass
    }
    pub fn act<S: Src>(s: &mut S) -> Outcome {
        same(&gen_act::act(s))
    }
    pub fn parts<S: Src>(s: &mut S) -> Outcome {
        match s.below(5) {
            0 => same(&gen_act::reference(s)),
            1 => same(&gen_act::structural_reference(s)),
            2 => same(&gen_act::special_phrase(s)),
            3 => same(&gen_act::paragraph(s, 1)),
            _ => same(&gen_act::article(s, 1)),
        }
    }
    /// What the program itself prints
    pub fn printed<S: Src>(s: &mut S) -> Outcome {
        let act = gen_act::act(s);
        let mut out = vec![];
        let r = act.clone().cli_output(80, OutputFormat::Json, &mut out);
        check!(r.is_ok(), "printing works", "{r:?}");
        let r = serde_json::from_slice::<Act>(&out);
        check!(matches!(&r, Ok(a) if *a == act), "back from printed JSON", "{r:?}");
        let mut out = vec![];
        let r = act.clone().cli_output(80, OutputFormat::Yaml, &mut out);
        check!(r.is_ok(), "printing works", "{r:?}");
        let r = singleton_yaml::from_slice::<Act>(&out);
        check!(matches!(&r, Ok(a) if *a == act), "back from printed YAML", "{r:?}");
        Outcome::Pass
    }
}
#[cfg(not(kani))]
pub use native::*;

obligations! { P22:
    act, standin, "random acts of up to 4 children with every kind of content", "Serialize / Deserialize of all public types, singleton_yaml::*", [];
    parts, standin, "random references, phrases, paragraphs, articles", "Serialize / Deserialize of all public types, singleton_yaml::*", [];
    printed, standin, "random acts of up to 4 children", "CliOutput::cli_output", [];
}
