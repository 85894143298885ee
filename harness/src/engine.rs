//! Choice-sequence property-based testing engine: every random decision of a case is drawn from one
//! recorded sequence of bounded integers, so a case is a pure function of that sequence; it can be replayed
//! from it and shrunk by editing it (deleting spans, lowering values), whatever the generator does with it.

use std::{
    cell::Cell,
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

thread_local! { static QUIET: Cell<bool> = const { Cell::new(false) }; }
pub fn quiet_panics() -> bool {
    QUIET.try_with(|q| q.get()).unwrap_or(false)
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut s = h;
    splitmix(&mut s)
}

pub struct Src {
    rng: Option<u64>,
    replay: Vec<u64>,
    pos: usize,
    pub choices: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            rng: Some(seed),
            replay: vec![],
            pos: 0,
            choices: vec![],
            spans: vec![],
            open: vec![],
        }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Src {
            rng: None,
            replay: v,
            pos: 0,
            choices: vec![],
            spans: vec![],
            open: vec![],
        }
    }
    /// uniform in 0..n (n >= 1); 0 is the simplest value
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match self.rng.as_mut() {
            Some(r) => {
                let x = splitmix(r);
                ((x as u128 * n as u128) >> 64) as u64
            }
            None => self.replay.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        self.choices.push(v);
        v
    }
    pub fn raw64(&mut self) -> u64 {
        let v = match self.rng.as_mut() {
            Some(r) => splitmix(r),
            None => self.replay.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        self.choices.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.idx(v.len());
        &v[i]
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi - lo == u64::MAX {
            return self.raw64();
        }
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is the simplest value
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// index drawn with the given weights (index 0 is the simplest)
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        w.len() - 1
    }
    /// a u64 with a spread of magnitudes and boundary values
    pub fn mag64(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => self.below(1000),
            2 | 3 | 4 => {
                let bits = 1 + self.below(64);
                let v = self.raw64();
                if bits == 64 {
                    v
                } else {
                    v & ((1u64 << bits) - 1)
                }
            }
            5 => {
                let bits = self.below(64);
                let d = self.below(3);
                (1u64 << bits).wrapping_add(d).wrapping_sub(1)
            }
            6 => {
                let p = self.below(20) as u32;
                let m = self.below(10);
                let d = self.below(3);
                10u64
                    .checked_pow(p)
                    .unwrap_or(u64::MAX)
                    .saturating_mul(m)
                    .saturating_add(d)
                    .saturating_sub(1)
            }
            _ => u64::MAX - self.below(3),
        }
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for i in 0..4 {
            let v = self.raw64();
            o[i * 8..i * 8 + 8].copy_from_slice(&v.to_be_bytes());
        }
        o
    }
    pub fn bytes(&mut self, max: u64) -> Vec<u8> {
        let n = self.below(max + 1) as usize;
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    pub fn begin(&mut self) {
        self.open.push(self.pos);
    }
    pub fn end(&mut self) {
        if let Some(s) = self.open.pop() {
            self.spans.push((s, self.pos));
        }
    }
    /// "another operation?": the simplest answer is no
    pub fn more(&mut self, mean: u64) -> bool {
        self.below(1000) >= 1000 / (mean + 1)
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Fail {
    pub site: String,
    pub tags: Vec<&'static str>,
    pub msg: String,
}

#[derive(Default)]
pub struct Obs {
    pub classes: BTreeMap<&'static str, u64>,
    pub trace: Option<Vec<String>>,
    pub nontrivial: bool,
    pub fp: u64,
    pub ops: u64,
    pub txs: u64,
}

impl Obs {
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
    pub fn class_n(&mut self, c: &'static str, n: u64) {
        *self.classes.entry(c).or_insert(0) += n;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = f();
            self.trace.as_mut().unwrap().push(s);
        }
    }
    pub fn mix(&mut self, s: &str) {
        self.fp = self.fp.rotate_left(5) ^ hash_bytes(s.as_bytes());
    }
    pub fn mixn(&mut self, n: u64) {
        self.fp = self.fp.rotate_left(5) ^ hash_bytes(&n.to_le_bytes());
    }
}

pub type CaseFn<'a> = dyn Fn(&mut Src, &mut Obs) -> Result<(), Fail> + Sync + 'a;

pub struct Check<'a> {
    pub id: &'static str,
    /// which of the property's drivers this is; also part of the seed
    pub part: &'static str,
    pub case: &'a CaseFn<'a>,
}

pub struct Outcome {
    pub cases: u64,
    pub ops: u64,
    pub txs: u64,
    pub fps: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<(u64, Vec<u64>, Fail)>,
    pub foreign: BTreeMap<String, u64>,
    pub wall: f64,
}

pub enum CaseRes {
    Ok,
    Fail(Fail),
    Panic(String),
}

pub fn run_one(f: &CaseFn, src: &mut Src, obs: &mut Obs) -> CaseRes {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| f(src, obs)));
    QUIET.with(|q| q.set(false));
    match r {
        Ok(Ok(())) => CaseRes::Ok,
        Ok(Err(f)) => CaseRes::Fail(f),
        Err(e) => {
            let s = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            CaseRes::Panic(s)
        }
    }
}

pub fn case_seed(seed: u64, id: &str, part: &str, i: u64) -> u64 {
    let mut s = seed ^ hash_bytes(id.as_bytes()) ^ hash_bytes(part.as_bytes()).rotate_left(17);
    let a = splitmix(&mut s);
    let mut t = a ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut t)
}

pub fn explore(
    c: &Check,
    seed: u64,
    cases: u64,
    threads: usize,
    max_wall: Option<Duration>,
) -> Result<Outcome, String> {
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let done_cases = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    struct Agg {
        classes: BTreeMap<&'static str, u64>,
        fps: HashSet<u64>,
        ops: u64,
        txs: u64,
        fail: Option<(u64, Vec<u64>, Fail)>,
        foreign: BTreeMap<String, u64>,
        panic: Option<(u64, String)>,
        sample_idx: Vec<u64>,
    }
    let agg = Mutex::new(Agg {
        classes: BTreeMap::new(),
        fps: HashSet::new(),
        ops: 0,
        txs: 0,
        fail: None,
        foreign: BTreeMap::new(),
        panic: None,
        sample_idx: vec![],
    });
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases || i > first_fail.load(Ordering::SeqCst) {
                        break;
                    }
                    if let Some(m) = max_wall {
                        if start.elapsed() > m {
                            break;
                        }
                    }
                    let mut src = Src::random(case_seed(seed, c.id, c.part, i));
                    let mut obs = Obs::default();
                    let r = run_one(c.case, &mut src, &mut obs);
                    done_cases.fetch_add(1, Ordering::Relaxed);
                    let mut a = agg.lock().unwrap();
                    for (k, v) in obs.classes {
                        *a.classes.entry(k).or_insert(0) += v;
                    }
                    a.ops += obs.ops;
                    a.txs += obs.txs;
                    if obs.nontrivial && a.fps.insert(obs.fp) && a.sample_idx.len() < 3 {
                        a.sample_idx.push(i);
                    }
                    match r {
                        CaseRes::Ok => {}
                        CaseRes::Fail(f) => {
                            if f.tags.contains(&c.id) {
                                if a.fail.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                                    first_fail.fetch_min(i, Ordering::SeqCst);
                                    a.fail = Some((i, src.choices.clone(), f));
                                }
                            } else {
                                *a.foreign.entry(f.site).or_insert(0) += 1;
                            }
                        }
                        CaseRes::Panic(p) => {
                            if a.panic.is_none() {
                                a.panic = Some((i, p));
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let a = agg.into_inner().unwrap();
    if a.fail.is_none() {
        if let Some((i, p)) = a.panic {
            return Err(format!("harness panic in case {i}: {p}"));
        }
    }
    let mut samples = vec![];
    for i in a.sample_idx.iter() {
        let mut src = Src::random(case_seed(seed, c.id, c.part, *i));
        let mut obs = Obs {
            trace: Some(vec![]),
            ..Default::default()
        };
        let _ = run_one(c.case, &mut src, &mut obs);
        let mut t = obs.trace.unwrap_or_default();
        t.truncate(40);
        samples.push(format!("case {}: {}", i, t.join("; ")));
    }
    Ok(Outcome {
        cases: done_cases.load(Ordering::SeqCst),
        ops: a.ops,
        txs: a.txs,
        fps: a.fps,
        classes: a.classes,
        samples,
        failure: a.fail,
        foreign: a.foreign,
        wall: start.elapsed().as_secs_f64(),
    })
}

/// Shrinks a failing choice sequence, keeping the same failure site.
pub fn shrink(c: &Check, choices: Vec<u64>, fail: Fail, budget: Duration) -> (Vec<u64>, Fail, u64) {
    let start = Instant::now();
    let mut runs = 0u64;
    let site = fail.site.clone();
    struct St {
        best: Vec<u64>,
        fail: Fail,
        spans: Vec<(usize, usize)>,
    }
    let mut st = St {
        best: choices,
        fail,
        spans: vec![],
    };
    let key = |v: &Vec<u64>| {
        (
            v.len(),
            v.iter().fold(0u128, |a, x| a + *x as u128),
            v.clone(),
        )
    };
    let mut try_it = |st: &mut St, cand: Vec<u64>| -> bool {
        runs += 1;
        let mut src = Src::replay(cand);
        let mut obs = Obs::default();
        if let CaseRes::Fail(f) = run_one(c.case, &mut src, &mut obs) {
            if f.site == site && f.tags.contains(&c.id) && key(&src.choices) < key(&st.best) {
                st.best = src.choices;
                st.spans = src.spans;
                st.fail = f;
                return true;
            }
        }
        false
    };
    // establish spans
    {
        let mut src = Src::replay(st.best.clone());
        let mut obs = Obs::default();
        let _ = run_one(c.case, &mut src, &mut obs);
        st.spans = src.spans;
    }
    let over = || start.elapsed() > budget;
    let mut improved = true;
    while improved && !over() {
        improved = false;
        // cut everything after a prefix
        let mut k = st.best.len() / 2;
        while k > 0 && !over() {
            let n = st.best.len();
            if n > k {
                let v = st.best[..n - k].to_vec();
                if try_it(&mut st, v) {
                    improved = true;
                    continue;
                }
            }
            k /= 2;
        }
        // delete whole operations, last first
        let mut i = 0;
        loop {
            let mut sp = st.spans.clone();
            sp.sort_by(|a, b| b.cmp(a));
            if i >= sp.len() || over() {
                break;
            }
            let (s, e) = sp[i];
            if e > s && e <= st.best.len() {
                let mut v = st.best.clone();
                v.drain(s..e);
                if try_it(&mut st, v) {
                    improved = true;
                    continue;
                }
            }
            i += 1;
        }
        // delete small windows
        for w in [8usize, 4, 2, 1] {
            let mut i = st.best.len();
            while i > 0 && !over() {
                i -= 1;
                if i + w <= st.best.len() {
                    let mut v = st.best.clone();
                    v.drain(i..i + w);
                    if try_it(&mut st, v) {
                        improved = true;
                    }
                }
            }
        }
        // lower values
        let mut i = 0;
        while i < st.best.len() && !over() {
            let v0 = st.best[i];
            if v0 != 0 {
                let mut v = st.best.clone();
                v[i] = 0;
                if try_it(&mut st, v) {
                    improved = true;
                } else {
                    let (mut lo, mut hi) = (0u64, v0);
                    let mut steps = 0;
                    while lo + 1 < hi && steps < 24 && !over() {
                        steps += 1;
                        let mid = lo + (hi - lo) / 2;
                        if i >= st.best.len() {
                            break;
                        }
                        let mut v = st.best.clone();
                        v[i] = mid;
                        if try_it(&mut st, v) {
                            improved = true;
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (st.best, st.fail, runs)
}
