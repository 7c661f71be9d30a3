//! P07: reference ranges.
#[cfg(bare)]
use crate::bare::*;
use crate::reference::Reference;
use crate::vf::{Outcome, Src};
use crate::{gen, spec};

pub fn make_range<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    let q = gen::parts_near(s, &p);
    assume!(spec::valid(&p) && spec::valid(&q));
    let (a, b) = (Reference::verif_new(p), Reference::verif_new(q));
    match (Reference::make_range(&a, &b), spec::range_between(&p, &q)) {
        (Ok(r), Some(want)) => {
            check!(spec::same(&r.verif_parts(), &want), "wrong range", "{a:?} .. {b:?}: {r:?}");
            check!(
                spec::same(&r.first_in_range().verif_parts(), &a.first_in_range().verif_parts()),
                "a range starts where its first element starts", "{a:?} .. {b:?}: {r:?}"
            );
            check!(
                spec::same(&r.last_in_range().verif_parts(), &b.last_in_range().verif_parts()),
                "a range ends where its last element ends", "{a:?} .. {b:?}: {r:?}"
            );
        }
        (Err(_), None) => (),
        (Ok(_r), None) => {
            check!(false, "a range was made between elements that have none", "{a:?} .. {b:?}: {_r:?}");
        }
        (Err(_), Some(_)) => {
            check!(false, "a range between siblings was refused", "{a:?} .. {b:?}");
        }
    }
    Outcome::Pass
}
pub fn endpoints<S: Src>(s: &mut S) -> Outcome {
    let p = gen::parts(s);
    assume!(spec::valid(&p));
    let r = Reference::verif_new(p);
    check!(spec::same(&r.first_in_range().verif_parts(), &spec::endpoint(&p, false)), "first_in_range", "{r:?}");
    check!(spec::same(&r.last_in_range().verif_parts(), &spec::endpoint(&p, true)), "last_in_range", "{r:?}");
    Outcome::Pass
}
obligations! { P07:
    make_range, proved, "", "Reference::{make_range,first_in_range,last_in_range}, ReferenceBuilder", [kani::proof, kani::unwind(7)];
    endpoints, proved, "", "Reference::{first_in_range,last_in_range}", [kani::proof, kani::unwind(7)];
}
