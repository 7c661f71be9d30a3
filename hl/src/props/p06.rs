//! P06: parents and containment form the document hierarchy.
#[cfg(bare)]
use crate::bare::*;
use crate::reference::Reference;
use crate::vf::{Outcome, Src};
use crate::{gen, spec};

pub fn parent<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    assume!(spec::valid(&p));
    let r = Reference::verif_new(p);
    let x = r.parent();
    check!(spec::same(&x.verif_parts(), &spec::parent(&p)), "parent drops exactly the last part", "{r:?}: {x:?}");
    if spec::last_filled(&p).unwrap_or(0) > 0 {
        check!(x.is_parent_of(&r) && !r.is_parent_of(&x), "a parent is a parent of its child", "{r:?}: {x:?}");
    }
    check!(!r.is_parent_of(&r), "nothing is its own parent", "{r:?}");
    Outcome::Pass
}
pub fn is_parent_of<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    let q = gen::parts_near(s, &p);
    assume!(spec::valid(&p) && spec::valid(&q));
    let (a, b) = (Reference::verif_new(p), Reference::verif_new(q));
    let r = a.is_parent_of(&b);
    check!(r == spec::ancestor(&p, &q), "is_parent_of is not 'strict ancestor in the same act'", "{a:?} parent of {b:?}: {r}");
    Outcome::Pass
}
pub fn contains<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    let q = gen::parts_near(s, &p);
    assume!(spec::valid(&p) && spec::valid(&q) && spec::forward(&p) && spec::forward(&q));
    let (a, b) = (Reference::verif_new(p), Reference::verif_new(q));
    let r = a.contains(&b);
    check!(r == spec::covers(&p, &q), "contains is not coverage", "{a:?} contains {b:?}: {r}");
    Outcome::Pass
}
obligations! { P06:
    parent, proved, "", "Reference::{parent,is_parent_of}", [kani::proof, kani::unwind(7)];
    is_parent_of, proved, "", "Reference::is_parent_of", [kani::proof, kani::unwind(7)];
    contains, proved, "", "Reference::{contains,is_parent_of,first_in_range,last_in_range}, Ord for Reference", [kani::proof, kani::unwind(7)];
}
