//! P24: gazette issues come from the cache, each from its own place.
use crate::gen;
use crate::vf::{Outcome, Src};

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::mk_downloader::{download_mk_issue, MkIssue};
    use crate::disk::{self, Disk};
    use crate::net::{self, Answer};

    fn issue<S: Src>(s: &mut S) -> (u32, u32) {
        (1998 + s.below(40) as u32, 1 + s.u8() as u32)
    }
    fn tree(dir: &std::path::Path) -> Vec<(String, Vec<u8>)> {
        let mut r = vec![];
        let mut todo = vec![dir.to_path_buf()];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(d).unwrap() {
                let p = e.unwrap().path();
                if p.is_dir() {
                    todo.push(p);
                } else {
                    r.push((p.strip_prefix(dir).unwrap().to_str().unwrap().to_string(), std::fs::read(&p).unwrap()));
                }
            }
        }
        r.sort();
        r
    }
    pub fn descriptor<S: Src>(s: &mut S) -> Outcome {
        const NUM: &[&str] = &["2013", "31", "1", "", "a", "1a", " 1", "0", "007", "1.5", "99999999999999999999"];
        const SEP: &[&str] = &["/", "//", "-", " ", "/x/"];
        let (a, b) = (*gen::one_of(s, NUM), *gen::one_of(s, NUM));
        let sep = *gen::one_of(s, SEP);
        let more = *gen::one_of(s, &["", "", "/", "/x", "/3", "/2013", "x"]);
        assume!(!(a.is_empty() && sep == "-")); // signs are left open
        let text = format!("{a}{sep}{b}{more}");
        let digits = |x: &str| !x.is_empty() && x.len() < 19 && x.bytes().all(|c| c.is_ascii_digit());
        let r = text.parse::<MkIssue>();
        let ok = sep == "/" && more.is_empty() && digits(a) && digits(b);
        check!(r.is_ok() == ok, "exactly YEAR/ISSUE is accepted", "{text:?}: {r:?}");
        if let Ok(i) = r {
            check!(i.year.to_string() == a.trim_start_matches('0').parse::<i64>().unwrap_or(0).to_string(), "the year comes first", "{text:?}: {i:?}");
            check!(i.issue == b.parse::<i64>().unwrap(), "then the issue", "{text:?}: {i:?}");
        }
        Outcome::Pass
    }
    pub fn cached<S: Src>(s: &mut S) -> Outcome {
        let dir = tempfile::Builder::new().prefix("hl_p24").tempdir().unwrap();
        let all: Vec<((u32, u32), Vec<u8>)> = (0..1 + s.below(4)).map(|i| (issue(s), (0..s.below(5)).map(|_| s.u8()).chain([i]).collect())).collect();
        for (i, ((y, n), data)) in all.iter().enumerate() {
            if all[i + 1..].iter().any(|x| x.0 == (*y, *n)) {
                return Outcome::Discard;
            }
            std::fs::create_dir_all(dir.path().join(format!("MK/{y}"))).unwrap();
            std::fs::write(dir.path().join(format!("MK/{y}/{n}.pdf")), data).unwrap();
        }
        let before = tree(dir.path());
        for ((y, n), data) in &all {
            let r = download_mk_issue(&MkIssue { year: *y as i64, issue: *n as i64 }, dir.path());
            check!(matches!(&r, Ok(d) if d == data), "what is cached is returned as it is", "{y}/{n} of {all:?}: {r:?}");
        }
        check!(tree(dir.path()) == before, "and the cache stays as it was");
        Outcome::Pass
    }
    fn address(y: u32, n: u32) -> String {
        format!("www.kozlonyok.hu/nkonline/MKPDF/hiteles/MK{:02}{:03}.pdf", y % 100, n)
    }
    /// Fetched once from its own address, whole or not at all
    pub fn downloaded<S: Src>(s: &mut S) -> Outcome {
        let dir = tempfile::Builder::new().prefix("hl_p24").tempdir().unwrap();
        // something else is there already
        let other = vec![1, 2, 3];
        std::fs::create_dir_all(dir.path().join("MK/2013")).unwrap();
        std::fs::write(dir.path().join("MK/2013/31.pdf"), &other).unwrap();
        let y = *gen::one_of(s, &[2013u32, 2005, 2000, 1999, 2022]);
        let n = *gen::one_of(s, &[1u32, 32, 131, 7, 1000]);
        let body: Vec<u8> = (0..*gen::one_of(s, &[3usize, 0, 1, 40, 9000])).map(|i| (i % 251) as u8 ^ y as u8).collect();
        let b = body.clone();
        let (answer, good) = match s.below(6) {
            0 => (Answer::Body(b), true),
            1 => (Answer::Unsized(b), true),
            2 => (Answer::Status(*gen::one_of(s, &[404u16, 500, 403])), false),
            3 => (Answer::Cut(b), false),
            4 => (Answer::Nothing, false),
            _ => (Answer::Body(b), true),
        };
        let url = address(y, n);
        // issues of the same address are told apart by running one at a time
        let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
        net::answer(&url, Some(answer.clone()));
        let limit = *gen::one_of(s, &[0usize, 1, 2, 3, 20, 39, 40, 41, 100000]);
        let disk = match s.below(3) {
            0 => Disk::Good,
            1 => Disk::Full(limit),
            _ => Disk::Dies(limit),
        };
        let issue = MkIssue { year: y as i64, issue: n as i64 };
        let what = format!("{y}/{n} answered by {answer:?}, {disk:?}");
        let r = disk::with_disk(disk, || download_mk_issue(&issue, dir.path()));
        check!(net::asked(&url) > 0, "it is asked for at its own address", "{what}: {r:?}");
        if disk == Disk::Good {
            check!(r.is_ok() == good, "it succeeds exactly if there is an issue", "{what}: {r:?}");
        }
        if let Ok(r) = &r {
            check!(good && *r == body, "what is served is returned", "{what}: {r:?}");
        }
        // later: from the cache if the first time succeeded, otherwise again
        let again = Answer::Body([&body[..], &[9]].concat());
        net::answer(&url, Some(again));
        let r2 = download_mk_issue(&issue, dir.path());
        let asked = net::asked(&url) > 0;
        if r.is_ok() && disk == Disk::Good {
            check!(!asked, "a downloaded issue is cached", "{what}");
        }
        let want = if asked { [&body[..], &[9]].concat() } else { body.clone() };
        check!(asked || good, "nothing is cached that was not there", "{what}: {r2:?}");
        check!(matches!(&r2, Ok(x) if *x == want), "the next time it is whole", "{what}, asked again: {asked}: {r2:?}");
        net::answer(&url, None);
        let r3 = download_mk_issue(&issue, dir.path());
        check!(matches!(&r3, Ok(x) if *x == want), "and stays so", "{what}: {r3:?}");
        check!(std::fs::read(dir.path().join(format!("MK/{y}/{n}.pdf"))).ok() == Some(want), "in its place", "{what}");
        check!(std::fs::read(dir.path().join("MK/2013/31.pdf")).ok() == Some(other), "others stay", "{what}");
        Outcome::Pass
    }
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
}
#[cfg(not(kani))]
pub use native::*;

obligations! { P24:
    descriptor, standin, "605 descriptors", "MkIssue::from_str", [];
    cached, standin, "up to 4 cached issues", "download_mk_issue, MkIssue::cache_key", [];
    downloaded, standin, "5 answers of a loopback server, bodies up to 9000 bytes, disk full or process dying after any of 9 amounts written", "download_mk_issue, MkIssue::url, MkIssue::cache_key", [];
}
