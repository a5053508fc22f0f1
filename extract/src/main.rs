//! vx: mechanical extraction of functions of /repo into a Verus file, with the contracts of
//! /verif/contracts woven in. See DESIGN.md, "Extraction", for everything it drops or rewrites.
mod contracts;
mod db;
mod rewrite;
mod emit;
mod locks;

use std::collections::BTreeMap;
use std::path::PathBuf;

fn main() {
    let mut args = std::env::args().skip(1);
    let mut repo = PathBuf::from("/repo");
    let mut cdir = PathBuf::from("/verif/contracts");
    let mut unit = None;
    let mut out = None;
    let mut report = None;
    let mut vacuity = false;
    let mut choices: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("value");
        match a.as_str() {
            "--repo" => repo = val().into(),
            "--contracts" => cdir = val().into(),
            "--unit" => unit = Some(val()),
            "--out" => out = Some(val()),
            "--report" => report = Some(val()),
            "--choices" => {
                let t = std::fs::read_to_string(val()).expect("choices");
                let v: serde_json::Value = serde_json::from_str(&t).expect("choices json");
                for (f, m) in v.as_object().unwrap() {
                    let mut mm = BTreeMap::new();
                    for (k, x) in m.as_object().unwrap() {
                        mm.insert(k.clone(), x.as_str().unwrap().to_string());
                    }
                    choices.insert(f.clone(), mm);
                }
            }
            "--vacuity" => vacuity = true,
            _ => panic!("unknown argument {a}"),
        }
    }
    let unit = unit.expect("--unit");
    let (text, rep) = match run(&repo, &cdir, &unit, choices, vacuity) {
        Ok(x) => x,
        Err(e) => {
            // A lost anchor: the code under contract was moved out of the extractor's reach
            println!("LOST {e}");
            std::process::exit(3);
        }
    };
    std::fs::write(out.expect("--out"), text).expect("write");
    if let Some(r) = report {
        std::fs::write(r, serde_json::to_string_pretty(&rep).unwrap()).expect("write");
    }
}

fn run(
    repo: &std::path::Path,
    cdir: &std::path::Path,
    unit: &str,
    choices: BTreeMap<String, BTreeMap<String, String>>,
    vacuity: bool,
) -> Result<(String, serde_json::Value), String> {
    let db = db::Db::load(repo)?;
    let con = contracts::Contracts::load(cdir)?;
    emit::emit_unit(&db, &con, cdir, unit, &choices, vacuity)
}
