// /repo/hun_law_grammar, with the parser generated by peg.py instead of peginator_codegen.
use std::{env, fs, path::Path, process::Command};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    for f in ["/repo/hun_law_grammar/src/lib.rs", "/repo/hun_law_grammar/grammar.ebnf", "peg.py", "build.rs"] {
        println!("cargo:rerun-if-changed={f}");
    }
    let gen = Path::new(&out).join("grammar_generated.rs");
    let ok = Command::new("python3").args(["peg.py", "/repo/hun_law_grammar/grammar.ebnf"]).arg(&gen).status().unwrap().success();
    assert!(ok, "peg.py");
    // the only change to the source: where the generated module is
    let lib = fs::read_to_string("/repo/hun_law_grammar/src/lib.rs").unwrap();
    let here = format!("#[path = {gen:?}]\nmod grammar_generated;");
    assert!(lib.contains("mod grammar_generated;"));
    fs::write(Path::new(&out).join("mounted.rs"), lib.replacen("mod grammar_generated;", &here, 1)).unwrap();
}
