use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct H {
    prop: String,
    state: u64,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    fails: Vec<String>,
    pub deadline: Instant,
    current: Arc<Mutex<(String, Instant)>>,
    /// only what kills the process counts: results are not looked at
    pub memory_only: bool,
}

pub type Res = Result<(), String>;

impl H {
    pub fn new(prop: &str, seed: u64, secs: u64) -> H {
        std::panic::set_hook(Box::new(|_| {}));
        let current = Arc::new(Mutex::new((String::new(), Instant::now())));
        let c2 = current.clone();
        let p = prop.to_string();
        // a case that does not come back is a failure of its own
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = match c2.lock() { Ok(g) => g, Err(e) => e.into_inner() };
            if !g.0.is_empty() && g.1.elapsed() > Duration::from_secs(60) {
                println!("FAIL {p} {} -- does not return", g.0);
                println!("STATS evaluations=0 distinct=0");
                std::process::exit(1);
            }
        });
        H {
            prop: prop.into(), state: seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567, evals: 0, distinct: HashSet::new(),
            samples: vec![], fails: vec![], deadline: Instant::now() + Duration::from_secs(secs), current, memory_only: false,
        }
    }
    pub fn rnd(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.rnd() % n } }
    pub fn full(&self) -> bool { self.fails.len() >= 3 || Instant::now() > self.deadline }
    /// Runs one case; `name` must allow to repeat it by hand
    pub fn case(&mut self, name: impl Fn() -> String, f: impl FnOnce() -> Res) {
        if self.fails.len() >= 3 { return; }
        let nm = name();
        self.evals += 1;
        let mut hs = std::collections::hash_map::DefaultHasher::new();
        nm.hash(&mut hs);
        self.distinct.insert(hs.finish());
        if self.samples.len() < 3 || (self.samples.len() < 8 && self.evals % 997 == 0) { self.samples.push(nm.clone()); }
        *self.current.lock().unwrap() = (nm.clone(), Instant::now());
        if self.memory_only { self.group(&nm); }
        let r = catch_unwind(AssertUnwindSafe(f));
        *self.current.lock().unwrap() = (String::new(), Instant::now());
        if self.memory_only { return; }
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => format!("panics: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        println!("FAIL {} {nm} -- {}", self.prop, msg.replace('\n', " "));
        self.fails.push(nm);
    }
    /// Announces a group of cases, for the event that the process is killed in it
    pub fn group(&self, name: &str) {
        use std::io::Write;
        println!("GROUP {name}");
        let _ = std::io::stdout().flush();
    }
    pub fn finish(self) {
        for s in &self.samples { println!("SAMPLE {s}"); }
        println!("STATS evaluations={} distinct={}", self.evals, self.distinct.len());
        if !self.fails.is_empty() { std::process::exit(1); }
        println!("DONE");
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, want {want:?}")) }
}
