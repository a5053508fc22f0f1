//! Reader for the contract files (*.vc).
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub key: String,
    pub params: Vec<String>,
    pub ret: Option<String>,
    /// section name -> text; loop sections are "loop N invariant" and so on
    pub sec: BTreeMap<String, String>,
    pub vars: Vec<(String, String)>,
    pub used: bool,
}

pub struct Contracts {
    pub map: BTreeMap<String, Contract>,
}

impl Contracts {
    pub fn load(dir: &Path) -> Result<Contracts, String> {
        let mut map: BTreeMap<String, Contract> = BTreeMap::new();
        let mut names: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().map_or(false, |x| x == "vc"))
            .collect();
        names.sort();
        for p in names {
            let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
            let mut cur: Option<Contract> = None;
            let mut sec = String::new();
            let mut flush = |c: Option<Contract>| {
                if let Some(c) = c {
                    if map.insert(c.key.clone(), c.clone()).is_some() {
                        panic!("contract {} given twice", c.key);
                    }
                }
            };
            for line in text.lines() {
                if let Some(h) = line.strip_prefix("=== ") {
                    flush(cur.take());
                    let mut c = Contract::default();
                    let mut h = h.trim();
                    if let Some((a, r)) = h.rsplit_once(" -> ") {
                        c.ret = Some(r.trim().to_string());
                        h = a.trim();
                    }
                    if h.ends_with(')') {
                        let i = h.rfind('(').unwrap();
                        c.params = h[i + 1..h.len() - 1].split(',').map(|s| s.trim().to_string())
                            .filter(|s| !s.is_empty() && s != "self").collect();
                        h = h[..i].trim();
                    }
                    c.key = h.to_string();
                    cur = Some(c);
                    sec = String::new();
                } else if let Some(c) = cur.as_mut() {
                    let t = line.trim_end();
                    if !t.starts_with(' ') && t.ends_with(':') && !t.starts_with("//") {
                        sec = t[..t.len() - 1].to_string();
                        c.sec.entry(sec.clone()).or_default();
                    } else if t.starts_with("vars:") {
                        for kv in t[5..].split_whitespace() {
                            let (k, v) = kv.split_once('=').expect("vars");
                            c.vars.push((k.into(), v.into()));
                        }
                    } else if !t.trim().is_empty() && !t.starts_with("//") {
                        if sec.is_empty() {
                            panic!("{}: text outside a section in {}: {t}", p.display(), c.key);
                        }
                        let e = c.sec.entry(sec.clone()).or_default();
                        e.push_str(t);
                        e.push('\n');
                    }
                }
            }
            flush(cur.take());
        }
        Ok(Contracts { map })
    }
}
