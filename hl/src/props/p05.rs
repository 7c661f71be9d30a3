//! P05: resolving a relative reference.
#[cfg(bare)]
use crate::bare::*;
use crate::reference::Reference;
use crate::vf::{Outcome, Src};
use crate::{gen, spec};

pub fn resolution<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    let q = gen::parts_near(s, &p);
    assume!(spec::valid(&p) && spec::valid(&q));
    let (r, base) = (Reference::verif_new(p), Reference::verif_new(q));
    let want = spec::resolve(&p, &q);
    match r.relative_to(&base) {
        Ok(x) => {
            check!(spec::valid(&want), "resolved to a malformed reference", "{r:?} relative to {base:?}: {x:?}");
            check!(spec::same(&x.verif_parts(), &want), "resolved to the wrong element", "{r:?} relative to {base:?}: {x:?}");
        }
        Err(_) => {
            check!(!spec::valid(&want), "a resolvable reference was rejected", "{r:?} relative to {base:?}");
        }
    }
    Outcome::Pass
}
/// An absolute reference (one with an act) resolves to itself; resolving is idempotent
pub fn absolute_is_fixpoint<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    let q = gen::parts_near(s, &p);
    assume!(spec::valid(&p) && spec::valid(&q));
    let (r, base) = (Reference::verif_new(p), Reference::verif_new(q));
    if p.0.is_some() {
        let x = r.relative_to(&base);
        check!(matches!(&x, Ok(x) if spec::same(&x.verif_parts(), &p)), "an absolute reference changed", "{r:?} relative to {base:?}");
    }
    if let Ok(x) = r.relative_to(&base) {
        if first_le(&x, &base) {
            let y = x.relative_to(&base);
            check!(matches!(&y, Ok(y) if spec::same(&y.verif_parts(), &x.verif_parts())), "not idempotent", "{r:?} relative to {base:?}");
        }
    }
    Outcome::Pass
}
fn first_le(x: &Reference, base: &Reference) -> bool {
    match (spec::first_filled(&x.verif_parts()), spec::first_filled(&base.verif_parts())) {
        (Some(a), Some(b)) => a <= b,
        _ => true,
    }
}
obligations! { P05:
    resolution, proved, "", "Reference::relative_to, TryFrom<UncheckedReference>", [kani::proof, kani::unwind(7)];
    absolute_is_fixpoint, proved, "", "Reference::relative_to", [kani::proof, kani::unwind(7)];
}
