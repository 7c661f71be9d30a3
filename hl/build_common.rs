// The real build script of /repo, verbatim: it generates phf_generated.rs.
mod real {
    include!("/repo/build.rs");
    pub fn run() {
        main()
    }
}

// Modules hl/src/lib.rs does not mount by itself, should /repo have any: helpers moved into a
// new file stay part of the code under verification.
fn extra(file: &str, dir: &str, known: &[&str], out: &str) {
    println!("cargo:rerun-if-changed={file}");
    let mut t = String::new();
    for l in std::fs::read_to_string(file).unwrap_or_default().lines() {
        let Some(m) = l.trim().strip_suffix(';').and_then(|l| l.split("mod ").nth(1)) else { continue };
        let m = m.trim();
        if l.trim().starts_with("//") || known.contains(&m) {
            continue;
        }
        for p in [format!("{dir}/{m}.rs"), format!("{dir}/{m}/mod.rs")] {
            if std::path::Path::new(&p).exists() {
                t += &format!("#[path = {p:?}]\npub mod {m};\n");
            }
        }
    }
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join(out);
    if std::fs::read_to_string(&out).ok().as_ref() != Some(&t) {
        std::fs::write(out, t).unwrap();
    }
}

fn main() {
    real::run();
    extra(
        "/repo/src/lib.rs",
        "/repo/src",
        &["fixups", "identifier", "mk_downloader", "output", "parser", "reference", "semantic_info", "structure", "util"],
        "extra_mods.rs",
    );
    extra("/repo/src/parser/mod.rs", "/repo/src/parser", &["mk_act_section", "pdf", "semantic_info", "structure"], "extra_parser_mods.rs");
}
