//! Case bookkeeping of the executable contracts.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
}

pub struct Failure {
    pub case: u64,
    pub contract: String,
    pub key: String,
    pub input: String,
    pub detail: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<u64>,
    pub shard: u64,
    pub shards: u64,
    pub deadline: Instant,
    pub case_no: u64,
    pub evaluated: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<(String, String)>,
    pub failures: Vec<Failure>,
    pub fail_count: u64,
    pub per_contract: std::collections::BTreeMap<String, u64>,
    pub exhaustive: Vec<String>,
    pub current: Arc<Mutex<(Instant, String)>>,
}

thread_local! { pub static PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn h64(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub enum Res {
    Ok,
    /// the precondition of the contract does not hold for this case
    Skip,
    Bad(String),
}

impl Ctx {
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline && self.failures.len() < 5
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(h64(&(self.seed, &self.prop, self.case_no, salt)))
    }
    /// Advances to the next case; true if this process is to evaluate it.
    pub fn mine(&mut self) -> bool {
        self.case_no += 1;
        match self.only {
            Some(n) => n == self.case_no,
            None => self.case_no % self.shards == self.shard,
        }
    }
    /// Evaluates one executable contract on one input.
    pub fn eval(&mut self, contract: &str, input: impl Fn() -> String, f: impl FnOnce() -> Res) {
        {
            let mut c = self.current.lock().unwrap();
            c.0 = Instant::now();
            c.1 = format!("{contract} case {}", self.case_no);
        }
        PANIC.with(|p| p.borrow_mut().clear());
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| {
            Res::Bad(format!("panic: {}", PANIC.with(|p| p.borrow().clone())))
        });
        if let Res::Skip = r {
            return;
        }
        self.evaluated += 1;
        let n = self.per_contract.entry(contract.to_owned()).or_insert(0);
        *n += 1;
        if matches!(*n, 1 | 50 | 3000 | 20_000) && self.samples.len() < 24 {
            self.samples.push((contract.to_owned(), input()));
        }
        if self.nontrivial.len() < 3_000_000 {
            self.nontrivial.insert(h64(&(contract, input())));
        }
        if let Res::Bad(d) = r {
            self.fail_count += 1;
            if self.failures.len() < 5 {
                self.failures.push(Failure {
                    case: self.case_no,
                    contract: contract.into(),
                    key: contract.into(),
                    input: input(),
                    detail: d,
                });
            }
        }
    }
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    let trunc = b.len() > 4000;
    for &c in if trunc { &b[..4000] } else { b } {
        s.extend(std::ascii::escape_default(c).map(char::from));
    }
    if trunc {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn report(c: &Ctx, rule: &str) -> String {
    let mut o = String::from("{");
    o.push_str(&format!("\"prop\":{},\"seed\":{},\"shard\":{},\"cases\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"fail_count\":{},",
        json(&c.prop), c.seed, c.shard, c.case_no, c.evaluated, c.nontrivial.len(), c.fail_count));
    o.push_str(&format!("\"rule\":{},", json(rule)));
    o.push_str(&format!("\"exhaustive\":[{}],", c.exhaustive.iter().map(|s| json(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"per_contract\":{{{}}},", c.per_contract.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"samples\":[{}],", c.samples.iter().map(|(k, v)| format!("{{\"contract\":{},\"input\":{}}}", json(k), json(v))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"failures\":[{}]", c.failures.iter().map(|f| format!(
        "{{\"case\":{},\"contract\":{},\"key\":{},\"input\":{},\"detail\":{}}}",
        f.case, json(&f.contract), json(&f.key), json(&f.input), json(&f.detail))).collect::<Vec<_>>().join(",")));
    o.push('}');
    o
}

pub fn watchdog(cur: Arc<Mutex<(Instant, String)>>, limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = cur.lock().unwrap().clone();
        if c.0.elapsed() > limit {
            println!("HANG {}", c.1);
            std::process::exit(4);
        }
    });
}
