//! Write the workspace of one corpus: the generated grammar crates, the bridge
//! crate and a runner, with path dependencies on the rust-peg tree under test.
//! usage: simgen PROFILE SEED OUTDIR PEG_PATH SIM_DIR CRATES [FEATURES]
use simlib::ast::{Input, Printer, ENTRIES};
use simlib::gen;
use std::fmt::Write;
use std::path::Path;

fn put(path: &Path, text: &str) {
    if let Ok(old) = std::fs::read_to_string(path) {
        if old == text {
            return;
        }
    }
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    std::fs::write(path, text).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "texts" {
        // simgen texts SEED OUTDIR: the grammars of every profile as plain text
        let out = Path::new(&a[3]);
        for p in gen::PROFILES {
            for (i, g) in gen::corpus(a[2].parse().unwrap(), &gen::profile(p)).iter().enumerate() {
                let text = Printer { g }.grammar(&format!("g{}", i));
                put(&out.join(format!("{}-{:03}.peg", p, i)), &format!("pub {}\n", text));
            }
        }
        return;
    }
    let prof = gen::profile(&a[1]);
    let seed: u64 = a[2].parse().unwrap();
    let out = Path::new(&a[3]);
    let peg = &a[4];
    let sim = &a[5];
    let crates: usize = a[6].parse().unwrap();
    let features = a.get(7).cloned().unwrap_or_default();
    let corpus = gen::corpus(seed, &prof);
    let feats = if features.is_empty() {
        String::new()
    } else {
        format!(", features = [\"{}\"]", features)
    };

    // cargo tells apart packages of different workspaces in one target
    // directory by name only
    let tag = format!("{}{}{}", a[1], seed, features);
    let mut members = vec!["\"simrt\"".to_string(), "\"run\"".to_string()];
    put(
        &out.join("simrt/Cargo.toml"),
        &format!(
            "[package]\nname = \"simrt_{tag}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[lib]\nname = \"simrt\"\npath = \"{sim}/simrt/src/lib.rs\"\n[dependencies]\nsimlib = {{ path = \"{sim}/simlib\" }}\npeg = {{ path = \"{peg}\"{feats} }}\n"
        ),
    );
    let mut arms = String::new();
    let mut deps = String::new();
    for c in 0..crates {
        let mut src = String::from(
            "#![allow(warnings)]\nextern crate peg;\nuse simrt::prelude::*;\nuse simlib::model::Outcome;\nuse std::rc::Rc;\n",
        );
        let mut run = String::from(
            "pub fn run(g: usize, entry: u32, env: &Rc<Env>) -> Outcome {\n    match (g, entry) {\n",
        );
        for (i, g) in corpus.iter().enumerate() {
            if i % crates != c {
                continue;
            }
            let name = format!("g{}", i);
            write!(
                src,
                "peg::parser!{{ pub {} }}\n",
                Printer { g }.grammar(&name)
            )
            .unwrap();
            let how = match g.input {
                Input::Device => "exec_dev",
                Input::DeviceLt => "exec_lt",
                Input::Str => "exec_str",
                Input::Bytes => "exec_bytes",
            };
            for (e, f) in ENTRIES.iter().enumerate() {
                let arg = if *f == "counted" {
                    format!(", {}", e - 2)
                } else {
                    String::new()
                };
                write!(
                    run,
                    "        ({i}, {e}) => simrt::{how}(env, |i, e| {name}::{f}(i, e{arg})),\n"
                )
                .unwrap();
            }
        }
        run.push_str("        _ => unreachable!(),\n    }\n}\n");
        src.push_str(&run);
        put(&out.join(format!("c{c}/src/lib.rs")), &src);
        put(
            &out.join(format!("c{c}/Cargo.toml")),
            &format!(
                "[package]\nname = \"c{c}_{tag}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nsimlib = {{ path = \"{sim}/simlib\" }}\nsimrt_{tag} = {{ path = \"../simrt\" }}\npeg = {{ path = \"{peg}\"{feats} }}\n"
            ),
        );
        members.push(format!("\"c{c}\""));
        write!(arms, "        {c} => c{c}_{tag}::run(g, entry, env),\n").unwrap();
        write!(deps, "c{c}_{tag} = {{ path = \"../c{c}\" }}\n").unwrap();
    }
    put(
        &out.join("run/Cargo.toml"),
        &format!(
            "[package]\nname = \"run_{tag}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nsimlib = {{ path = \"{sim}/simlib\" }}\nsimcheck = {{ path = \"{sim}/simcheck\" }}\n{deps}"
        ),
    );
    put(
        &out.join("run/src/main.rs"),
        &format!(
            "use simlib::{{env::Env, model::Outcome}};\nuse std::rc::Rc;\nfn run(g: usize, entry: u32, env: &Rc<Env>) -> Outcome {{\n    match g % {crates} {{\n{arms}        _ => unreachable!(),\n    }}\n}}\nfn main() {{\n    simcheck::main(\"{}\", {seed}, run, {});\n}}\n",
            a[1],
            !features.is_empty()
        ),
    );
    put(
        &out.join("Cargo.toml"),
        &format!(
            "[workspace]\nresolver = \"2\"\nmembers = [{}]\n\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n[profile.dev.package.simlib]\nopt-level = 2\n[profile.dev.package.simcheck]\nopt-level = 1\n[profile.dev.package.peg-macros]\nopt-level = 1\n",
            members.join(", ")
        ),
    );
    println!("{} grammars", corpus.len());
}
