use rand::{Rng, RngCore, SeedableRng};
use rand_pcg::Pcg64;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/// What is running now, for the watchdog: (property ids, description, input).
static CURRENT: Mutex<Option<(String, String, Value)>> = Mutex::new(None);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
const HANG_S: u64 = 15;
/// Set when the code under test aborts the process (stack overflow, abort): the watchdog then reports the input.
static ABORTED: AtomicBool = AtomicBool::new(false);
extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
}
extern "C" fn on_abort(_: i32) {
    ABORTED.store(true, Ordering::SeqCst);
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
    }
}

pub struct Cx {
    pub prop: String,
    pub rng: Pcg64,
    pub thorough: bool,
    pub out: String,
    pub cases: u64,
    pub kinds: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub fails: Vec<Value>,
}

fn write_out(out: &str, v: &Value) {
    std::fs::write(out, serde_json::to_string_pretty(v).unwrap()).unwrap();
}

impl Cx {
    pub fn new(prop: &str, seed: u64, thorough: bool, out: &str) -> Cx {
        let o = out.to_string();
        let p = prop.to_string();
        // SIGABRT
        unsafe { signal(6, on_abort as usize) };
        std::thread::spawn(move || {
            let mut last = PROGRESS.load(Ordering::SeqCst);
            let mut same = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let now = PROGRESS.load(Ordering::SeqCst);
                let dead = ABORTED.load(Ordering::SeqCst);
                if now != last && !dead {
                    last = now;
                    same = 0;
                    continue;
                }
                same += 1;
                if same >= HANG_S * 5 || dead {
                    let cur = CURRENT.lock().unwrap().clone();
                    if let Some((props, what, input)) = cur {
                        let mine = props.split(',').any(|x| x == p);
                        let fails = if mine {
                            vec![json!({"prop": p, "check": what, "why": if dead { "the process was aborted (stack overflow?)".to_string() } else { format!("no result after {} s", HANG_S) }, "input": input})]
                        } else {
                            vec![]
                        };
                        write_out(&o, &json!({"cases": now, "hang": what, "fails": fails, "distinct": 0, "kinds": {}, "samples": []}));
                        std::process::exit(if mine { 1 } else { 3 });
                    }
                    if dead {
                        std::process::exit(4);
                    }
                    same = 0;
                }
            }
        });
        Cx { prop: prop.into(), rng: Pcg64::seed_from_u64(seed ^ 0x9e3779b97f4a7c15), thorough, out: out.into(), cases: 0, kinds: BTreeMap::new(), distinct: HashSet::new(), samples: vec![], fails: vec![] }
    }
    pub fn wants(&self, props: &[&str]) -> bool {
        props.iter().any(|p| *p == self.prop)
    }
    pub fn fail(&mut self, prop: &str, check: &str, why: &str, input: Value) {
        if prop == self.prop && self.fails.len() < 20 {
            self.fails.push(json!({"prop": prop, "check": check, "why": why, "input": input}));
        }
    }
    pub fn case(&mut self, kind: &str, input: &Value) {
        self.cases += 1;
        *self.kinds.entry(kind.to_string()).or_insert(0) += 1;
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        kind.hash(&mut h);
        input.to_string().hash(&mut h);
        if self.distinct.insert(h.finish()) && self.samples.len() < 3 && input.to_string().len() < 1500 {
            self.samples.push(json!({"kind": kind, "input": input}));
        }
    }
    /// Run `f` under the watchdog; a hang is reported for every property in `props`.
    pub fn enter(&self, props: &str, what: &str, input: &Value) {
        PROGRESS.fetch_add(1, Ordering::SeqCst);
        *CURRENT.lock().unwrap() = Some((props.to_string(), what.to_string(), input.clone()));
    }
    pub fn guarded<T>(&mut self, props: &str, what: &str, input: &Value, f: impl FnOnce() -> T) -> Result<T, String> {
        *CURRENT.lock().unwrap() = Some((props.to_string(), what.to_string(), input.clone()));
        PROGRESS.fetch_add(1, Ordering::SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        *CURRENT.lock().unwrap() = None;
        PROGRESS.fetch_add(1, Ordering::SeqCst);
        r.map_err(|e| {
            if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }
        })
    }
    pub fn finish(self) {
        let bad = !self.fails.is_empty();
        write_out(&self.out, &json!({"cases": self.cases, "kinds": self.kinds, "distinct": self.distinct.len(), "samples": self.samples, "fails": self.fails}));
        std::process::exit(if bad { 1 } else { 0 });
    }
}

pub fn pick<'a, T>(r: &mut Pcg64, v: &'a [T]) -> &'a T {
    &v[(r.next_u64() % v.len() as u64) as usize]
}
pub fn below(r: &mut Pcg64, n: u64) -> u64 {
    r.next_u64() % n
}
pub fn coin(r: &mut Pcg64, p: f64) -> bool {
    r.gen_range(0.0, 1.0) < p
}
pub fn s<'a>(v: &'a Value, k: &str) -> Option<&'a str> {
    v.get(k).and_then(|x| x.as_str())
}
pub fn arr<'a>(v: &'a Value, k: &str) -> Option<&'a Vec<Value>> {
    v.get(k).and_then(|x| x.as_array())
}
pub fn with(v: &Value, k: &str, x: Value) -> Value {
    let mut n = v.clone();
    n.as_object_mut().unwrap().insert(k.to_string(), x);
    n
}
