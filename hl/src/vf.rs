//! The obligation framework. An obligation is ONE executable contract check,
//! written once and generic over where its inputs come from:
//!  - under Kani the inputs are symbolic (`kani::any`), `assume!` is the
//!    precondition, `check!` the postcondition: the verifier discharges it for
//!    all inputs;
//!  - natively the inputs are enumerated / sampled / replayed, which is how a
//!    failed proof obligation is turned into a concrete failing input on the
//!    real code, and how the functions out of the verifier's reach get their
//!    (labelled) bounded stand-in.
#[cfg(not(bare))]
pub use crate::reference::VerifReferenceParts;
#[cfg(bare)]
pub type VerifReferenceParts = (
    Option<crate::identifier::ActIdentifier>,
    Option<crate::reference::parts::RefPartArticle>,
    Option<crate::reference::parts::RefPartParagraph>,
    Option<crate::reference::parts::RefPartPoint>,
    Option<crate::reference::parts::RefPartSubpoint>,
);

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Outcome {
    Pass,
    Discard,
    Fail(String),
}

pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn i16(&mut self) -> i16 {
        self.u16() as i16
    }
    fn i32(&mut self) -> i32 {
        self.u32() as i32
    }
    fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
    fn bool(&mut self) -> bool;
    /// A number in 0..n
    fn below(&mut self, n: u8) -> u8;
}

#[cfg(kani)]
pub struct KaniSrc;
#[cfg(kani)]
impl Src for KaniSrc {
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u16(&mut self) -> u16 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn bool(&mut self) -> bool {
        kani::any()
    }
    fn below(&mut self, n: u8) -> u8 {
        let x: u8 = kani::any();
        kani::assume(x < n);
        x
    }
}

#[cfg(kani)]
#[macro_export]
macro_rules! check {
    ($c:expr, $msg:literal $(, $($rest:tt)*)?) => {
        kani::assert($c, $msg)
    };
}
#[cfg(not(kani))]
#[macro_export]
macro_rules! check {
    ($c:expr, $msg:literal) => {
        if !$c {
            return $crate::vf::Outcome::Fail($msg.to_string());
        }
    };
    ($c:expr, $msg:literal, $($rest:tt)*) => {
        if !$c {
            return $crate::vf::Outcome::Fail(format!("{}: {}", $msg, format!($($rest)*)));
        }
    };
}
#[cfg(kani)]
#[macro_export]
macro_rules! assume {
    ($c:expr) => {
        kani::assume($c)
    };
}
#[cfg(not(kani))]
#[macro_export]
macro_rules! assume {
    ($c:expr) => {
        if !$c {
            return $crate::vf::Outcome::Discard;
        }
    };
}

/// One registered obligation.
pub struct Ob {
    pub prop: &'static str,
    pub name: &'static str,
    /// "proved": the Kani harness is complete (full domain, unwinding assertions on).
    /// "bounded": the Kani harness covers the stated bound only.
    /// "deep": complete like "proved", but minutes of solver time, so only in the
    /// thorough tier; a stand-in in the quick tier.
    /// "standin": not run by Kani at all; native bounded check.
    pub level: &'static str,
    pub bound: &'static str,
    pub funcs: &'static str,
    /// Kani harness path, empty for stand-ins
    pub harness: &'static str,
    #[cfg(not(kani))]
    pub run: fn(&mut native::NativeSrc) -> Outcome,
}

/// obligations! { P03: name, level, "bound", "functions under contract", [kani attributes]; ... }
#[macro_export]
macro_rules! obligations {
    ($prop:ident: $($(#[$on:meta])? $name:ident, $level:ident, $bound:literal, $funcs:literal, [$($attr:meta),*];)*) => {
        pub const REG: &[$crate::vf::Ob] = &[
            $($(#[$on])? $crate::vf::Ob {
                prop: stringify!($prop),
                name: stringify!($name),
                level: stringify!($level),
                bound: $bound,
                funcs: $funcs,
                harness: $crate::harness_name!($name $level),
                #[cfg(not(kani))]
                run: |s| $name(s),
            }),*
        ];
        #[cfg(kani)]
        pub mod k {
            $($(#[$on])? $crate::kani_harness!{$name $level [$($attr),*]})*
        }
    };
}
#[macro_export]
macro_rules! harness_name {
    ($name:ident standin) => { "" };
    ($name:ident deep) => {
        if cfg!(feature = "thorough") { concat!(module_path!(), "::k::", stringify!($name)) } else { "" }
    };
    ($name:ident $level:ident) => { concat!(module_path!(), "::k::", stringify!($name)) };
}
#[macro_export]
macro_rules! kani_harness {
    ($name:ident standin [$($attr:meta),*]) => {};
    ($name:ident deep [$($attr:meta),*]) => {
        #[cfg(feature = "thorough")]
        $crate::kani_harness! { $name proved [$($attr),*] }
    };
    ($name:ident $level:ident [$($attr:meta),*]) => {
        $(#[$attr])*
        fn $name() {
            let o = super::$name(&mut $crate::vf::KaniSrc);
            // Vacuity guard: the check driver requires this cover to be satisfied.
            kani::cover(matches!(o, $crate::vf::Outcome::Pass), "reached the end of the obligation");
        }
    };
}

#[cfg(not(kani))]
pub mod native {
    use super::*;
    use std::collections::hash_map::DefaultHasher;
    use std::collections::HashSet;
    use std::hash::{Hash, Hasher};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::time::{Duration, Instant};

    enum Mode {
        /// Depth-first enumeration over representative values: (choice, number of choices)
        Dfs(Vec<(usize, usize)>),
        Random,
        Playback(Vec<u64>),
    }
    pub struct NativeSrc {
        mode: Mode,
        pos: usize,
        rng: u64,
        pub draws: Vec<u64>,
    }
    const R8: &[u8] = &[0, 1, 2, b'1', b'a', b'b', b'z', 254, 255];
    const R16: &[u16] = &[0, 1, 2, 9, 10, 99, 100, 255, 256, 999, 4000, 9999, 10000, 32767, 32768, 65534, 65535];
    const R32: &[u32] = &[0, 1, 2, 10, 99, 255, 3999, 4000, 65535, 65536, 2147483647, 2147483648, 4294967295];
    const R64: &[u64] = &[0, 1, 2, 3, 4, 5, 10, 1000, u32::MAX as u64, i64::MAX as u64, i64::MAX as u64 + 1, i64::MAX as u64 + 2, u64::MAX - 4, u64::MAX - 2, u64::MAX - 1, u64::MAX];
    impl NativeSrc {
        fn next_rng(&mut self) -> u64 {
            // splitmix64
            self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.rng;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        fn choose(&mut self, n: usize) -> usize {
            let p = self.pos;
            self.pos += 1;
            if let Mode::Dfs(v) = &mut self.mode {
                if p < v.len() {
                    return v[p].0.min(n - 1);
                }
                v.push((0, n));
                return 0;
            }
            (self.next_rng() % n as u64) as usize
        }
        fn draw(&mut self, reps: &[u64], mask: u64) -> u64 {
            let r = match &self.mode {
                Mode::Playback(v) => {
                    let r = v.get(self.pos).copied().unwrap_or(0) & mask;
                    self.pos += 1;
                    r
                }
                Mode::Dfs(_) => reps[self.choose(reps.len())],
                Mode::Random => {
                    let r = self.next_rng();
                    match r % 8 {
                        0..=2 => reps[(r >> 8) as usize % reps.len()],
                        3..=5 => (r >> 8) % 12,
                        _ => (r >> 8) & mask,
                    }
                }
            };
            self.draws.push(r);
            r
        }
    }
    impl Src for NativeSrc {
        fn u8(&mut self) -> u8 {
            let r: Vec<u64> = R8.iter().map(|x| *x as u64).collect();
            self.draw(&r, 0xff) as u8
        }
        fn u16(&mut self) -> u16 {
            let r: Vec<u64> = R16.iter().map(|x| *x as u64).collect();
            self.draw(&r, 0xffff) as u16
        }
        fn u32(&mut self) -> u32 {
            let r: Vec<u64> = R32.iter().map(|x| *x as u64).collect();
            self.draw(&r, 0xffff_ffff) as u32
        }
        fn u64(&mut self) -> u64 {
            self.draw(R64, u64::MAX)
        }
        fn bool(&mut self) -> bool {
            self.below(2) == 1
        }
        fn below(&mut self, n: u8) -> u8 {
            let r = if let Mode::Playback(v) = &self.mode {
                let r = v.get(self.pos).copied().unwrap_or(0) % n as u64;
                self.pos += 1;
                r
            } else {
                self.choose(n as usize) as u64
            };
            self.draws.push(r);
            r as u8
        }
    }

    #[derive(Debug, Default)]
    pub struct Report {
        pub evaluations: u64,
        pub passed: u64,
        pub distinct: u64,
        pub exhausted: bool,
        pub failure: Option<(String, Vec<u64>)>,
        pub samples: Vec<Vec<u64>>,
    }

    fn run_one(ob: &Ob, src: &mut NativeSrc) -> Outcome {
        match catch_unwind(AssertUnwindSafe(|| (ob.run)(src))) {
            Ok(o) => o,
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                #[cfg(bare)]
                if msg == crate::bare::UNREACHABLE {
                    return Outcome::Discard;
                }
                Outcome::Fail(format!("panicked: {msg}"))
            }
        }
    }

    pub fn playback(ob: &Ob, draws: Vec<u64>) -> Outcome {
        let mut s = NativeSrc { mode: Mode::Playback(draws), pos: 0, rng: 0, draws: vec![] };
        run_one(ob, &mut s)
    }

    pub fn search(ob: &Ob, seed: u64, dfs_cap: u64, budget: Duration) -> Report {
        let mut rep = Report::default();
        let mut seen = HashSet::new();
        let start = Instant::now();
        let mut note = |rep: &mut Report, s: &NativeSrc, o: &Outcome| -> bool {
            rep.evaluations += 1;
            match o {
                Outcome::Fail(m) => {
                    rep.failure = Some((m.clone(), s.draws.clone()));
                    return true;
                }
                Outcome::Pass => {
                    rep.passed += 1;
                    if seen.len() < 4_000_000 {
                        let mut h = DefaultHasher::new();
                        s.draws.hash(&mut h);
                        if seen.insert(h.finish()) && (rep.samples.len() < 3 || seen.len() % 50_000 == 0) && rep.samples.len() < 6 {
                            rep.samples.push(s.draws.clone());
                        }
                    }
                }
                Outcome::Discard => (),
            }
            false
        };
        // Phase 1: depth-first over the representative values
        let mut odo: Vec<(usize, usize)> = vec![];
        loop {
            let mut s = NativeSrc { mode: Mode::Dfs(std::mem::take(&mut odo)), pos: 0, rng: 0, draws: vec![] };
            let o = run_one(ob, &mut s);
            let stop = note(&mut rep, &s, &o);
            let used = s.pos;
            if let Mode::Dfs(v) = s.mode {
                odo = v;
            }
            if stop {
                rep.distinct = seen.len() as u64;
                return rep;
            }
            odo.truncate(used);
            while let Some((c, n)) = odo.last_mut() {
                if *c + 1 < *n {
                    *c += 1;
                    break;
                }
                odo.pop();
            }
            if odo.is_empty() {
                rep.exhausted = true;
                break;
            }
            if rep.evaluations >= dfs_cap || start.elapsed() > budget / (if ob.level == "standin" { 6 } else { 2 }) {
                break;
            }
        }
        // Phase 2: seeded random sampling
        let mut i = 0u64;
        while start.elapsed() < budget {
            i += 1;
            let mut s = NativeSrc {
                mode: Mode::Random,
                pos: 0,
                rng: seed.wrapping_mul(0x2545F4914F6CDD1D).wrapping_add(i.wrapping_mul(0xD1342543DE82EF95)),
                draws: vec![],
            };
            let o = run_one(ob, &mut s);
            if note(&mut rep, &s, &o) {
                break;
            }
        }
        rep.distinct = seen.len() as u64;
        rep
    }
}
