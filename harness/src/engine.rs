//! Choice-tape property engine: generation, execution, shrinking, evidence.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value as Json};

use crate::crash::{self, Shared};
use crate::shim::{self, Ctl};

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut rng = Self(seed ^ 0x9E37_79B9_7F4A_7C15);

        for _ in 0..4 {
            rng.next();
        }

        rng
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }

        (((self.next() as u128) * (n as u128)) >> 64) as u64
    }

    pub fn fill(&mut self, out: &mut [u8]) {
        for chunk in out.chunks_mut(8) {
            let word = self.next().to_le_bytes();
            chunk.copy_from_slice(&word[..chunk.len()]);
        }
    }
}

pub fn hash_str(text: &str) -> u64 {
    // FNV-1a with a final mix
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;

    for b in text.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }

    h ^ (h >> 29)
}

/// Source of choices. Every choice is recorded; a recorded tape replays the case.
pub struct Src {
    pre: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(rng: Rng) -> Self {
        Self { pre: vec![], pos: 0, rng: Some(rng), rec: vec![] }
    }

    /// Replay the tape; exhausted tapes yield zeros, the simplest choice.
    pub fn tape(tape: Vec<u64>) -> Self {
        Self { pre: tape, pos: 0, rng: None, rec: vec![] }
    }

    /// Replay the tape, continue with random choices.
    pub fn tape_then_random(tape: Vec<u64>, rng: Rng) -> Self {
        Self { pre: tape, pos: 0, rng: Some(rng), rec: vec![] }
    }

    /// Number in `0..n`, smaller is simpler.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);

        let v = if self.pos < self.pre.len() {
            let v = self.pre[self.pos];
            self.pos += 1;
            if v < n { v } else { v % n }
        } else {
            match &mut self.rng {
                Some(rng) => rng.below(n),
                None => 0,
            }
        };

        self.rec.push(v);

        v
    }

    pub fn word(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);

        (hi << 32) | lo
    }

    pub fn upto(&mut self, n: usize) -> usize {
        self.below(n as u64 + 1) as usize
    }

    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// True with probability `num / den`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }

    /// Index chosen with the given weights; earlier is simpler.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);

        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }

        weights.len() - 1
    }

    pub fn vec<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let n = min + self.upto(max - min);

        (0..n).map(|_| f(self)).collect()
    }
}

// ------------------------------------------------------------------- verdict

/// Reason of the failed case.
#[derive(Debug, Clone)]
pub struct Fail(pub String);

pub type Verdict = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::engine::Fail(format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err($crate::engine::Fail(format!($($arg)*))); } };
}

/// The harness itself can't go on: error exit, never a violation.
pub struct Infra(pub String);

pub fn infra(msg: impl Into<String>) -> ! {
    std::panic::panic_any(Infra(msg.into()))
}

pub fn short(value: &impl std::fmt::Debug) -> String {
    let mut text = format!("{value:?}");

    if text.len() > 600 {
        let mut end = 600;
        while !text.is_char_boundary(end) {
            end -= 1;
        }
        text.truncate(end);
        text.push_str("...");
    }

    text
}

/// Context of a running case.
pub struct Cx {
    pub scratch: PathBuf,
    rt: tokio::runtime::Runtime,
    /// Controls file operations made by futures run by `block_on`.
    pub ctl: Arc<Ctl>,
    /// Further independent runtimes for concurrent operations.
    slots: Vec<Arc<(tokio::runtime::Runtime, Arc<Ctl>)>>,
    pub shard: usize,
    pub thorough: bool,
    dirs: u64,
    labels: Vec<&'static str>,
    nontrivial: bool,
    pub execs: u64,
    pub quiet: bool,
}

impl Cx {
    /// Classify the case.
    pub fn label(&mut self, label: &'static str) {
        if !self.labels.contains(&label) {
            self.labels.push(label);
        }
    }

    pub fn label_if(&mut self, cond: bool, label: &'static str) {
        if cond {
            self.label(label);
        }
    }

    /// The case exercises the property (see the check's rule).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    /// One more execution of the code under test within this case.
    pub fn exec(&mut self) {
        self.execs += 1;
    }

    /// Run the future to the end.
    pub fn block_on<F: std::future::Future>(&self, future: F) -> F::Output {
        shim::attach(Some(self.ctl.clone()));
        let result = catch_unwind(AssertUnwindSafe(|| self.rt.block_on(future)));
        shim::attach(None);

        match result {
            Ok(value) => value,
            Err(payload) => std::panic::resume_unwind(payload),
        }
    }

    /// Independent runtime number `n`.
    pub fn slot(&mut self, n: usize) -> Arc<(tokio::runtime::Runtime, Arc<Ctl>)> {
        while self.slots.len() <= n {
            self.slots.push(Arc::new(make_runtime(self.ctl.shared.clone())));
        }

        self.slots[n].clone()
    }

    /// New empty directory within the scratch directory.
    pub fn fresh_dir(&mut self) -> PathBuf {
        self.dirs += 1;
        let dir = self.scratch.join(format!("s{}-{}", self.shard, self.dirs));

        if let Err(err) = std::fs::create_dir(&dir) {
            infra(format!("can't create {dir:?}: {err}"));
        }

        dir
    }

    pub fn remove_dir(&mut self, dir: &Path) {
        if dir.starts_with(&self.scratch) {
            let _ = std::fs::remove_dir_all(dir);
        }
    }
}

// -------------------------------------------------------------------- checks

type ExecFn = Box<dyn Fn(&mut Src, &mut Cx) -> (Verdict, Option<String>) + Send + Sync>;
type ReplayFn = Box<dyn Fn(&str, &mut Cx) -> Result<Verdict, String> + Send + Sync>;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub shards: usize,
    exec: ExecFn,
    replay: ReplayFn,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("HARNESS_PANICS").is_some() {
            eprintln!("{info}");
        }

        let location = info.location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();

        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };

        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {location}: {message}")));
    }));
}

pub fn panic_text(payload: &(dyn Any + Send)) -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
        payload.downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| payload.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| String::from("panic"))
    })
}

/// Run code under test, turning its panics into failures.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(value) => Ok(value),
        Err(payload) => {
            if payload.is::<Infra>() {
                std::panic::resume_unwind(payload);
            }

            Err(Fail(panic_text(&*payload)))
        }
    }
}

fn run_guarded<C: Serialize>(run: &(dyn Fn(&C, &mut Cx) -> Verdict + Send + Sync), case: &Numbered<C>, cx: &mut Cx) -> Verdict {
    crate::gens::set_salt(case.keys);

    let shared = cx.ctl.shared.clone();

    // What was done some calls ago was done long ago, or nothing was done in this century
    match case.keys % 4 {
        1 => shared.clock.set(1_700_000_000, 0, 1000),
        3 => shared.clock.set(5_000_000_000, 999_999_999, 1),
        _ => shared.clock.unset(),
    }

    shared.traced.store(case.keys % 3 == 0, Ordering::Relaxed);

    let verdict = shared.running(case, || guarded(|| run(&case.case, cx)).and_then(|verdict| verdict));
    shared.clock.unset();

    verdict
}

/// Case with the set of keys its ids stand for.
#[derive(Serialize, serde::Deserialize)]
struct Numbered<C> {
    keys: u16,
    case: C,
}

pub struct Def<C> {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub shards: usize,
    pub gen: fn(&mut Src) -> C,
    pub run: fn(&C, &mut Cx) -> Verdict,
}

impl<C: Serialize + DeserializeOwned + 'static> Def<C> {
    pub fn build(self) -> Check {
        let gen = self.gen;
        let run = self.run;

        Check {
            id: self.id,
            level: self.level,
            rule: self.rule,
            assumptions: self.assumptions,
            quick: self.quick,
            thorough: self.thorough,
            shards: self.shards,
            exec: Box::new(move |src, cx| {
                // Ids stand for other keys in other cases
                let keys = src.below(320).saturating_sub(40) as u16;
                crate::gens::set_salt(keys);

                let case = Numbered { keys, case: gen(src) };
                let verdict = run_guarded(&run, &case, cx);

                let json = (cx.nontrivial || verdict.is_err())
                    .then(|| serde_json::to_string(&case).unwrap_or_else(|err| infra(err.to_string())));

                (verdict, json)
            }),
            replay: Box::new(move |text, cx| {
                let case = serde_json::from_str::<Numbered<C>>(text).map_err(|err| err.to_string())?;

                Ok(run_guarded(&run, &case, cx))
            }),
        }
    }
}

// -------------------------------------------------------------------- runner

pub struct RunConfig {
    pub seed: u64,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub cases: Option<u64>,
    pub shards: Option<usize>,
}

struct Failure {
    index: u64,
    shard: usize,
    tape: Vec<u64>,
    json: String,
    message: String,
}

#[derive(Default)]
struct ShardStats {
    cases: u64,
    execs: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(String, Vec<&'static str>)>,
}

pub fn make_runtime(shared: Arc<Shared>) -> (tokio::runtime::Runtime, Arc<Ctl>) {
    let ctl = Arc::new(Ctl::new(shared));
    let thread_ctl = ctl.clone();

    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .on_thread_start(move || shim::attach(Some(thread_ctl.clone())))
        .build()
        .unwrap_or_else(|err| infra(format!("runtime: {err}")));

    (rt, ctl)
}

fn make_cx(config: &RunConfig, shard: usize, shared: Arc<Shared>) -> Cx {
    let (rt, ctl) = make_runtime(shared);

    Cx {
        scratch: config.scratch.clone(),
        rt,
        ctl,
        slots: vec![],
        shard,
        thorough: config.thorough,
        dirs: 0,
        labels: vec![],
        nontrivial: false,
        execs: 0,
        quiet: false,
    }
}

fn run_tape(check: &Check, src: &mut Src, cx: &mut Cx) -> (Verdict, Option<String>) {
    cx.labels.clear();
    cx.nontrivial = false;

    (check.exec)(src, cx)
}

fn shrink(check: &Check, cx: &mut Cx, failure: &mut Failure, progress: &AtomicU64, budget: usize, started: Instant) -> usize {
    let mut used = 0;
    let limit = std::time::Duration::from_secs(if cx.thorough { 120 } else { 40 });

    let mut attempt = |tape: Vec<u64>, failure: &mut Failure, used: &mut usize| -> bool {
        if tape == failure.tape || *used >= budget || started.elapsed() > limit {
            return false;
        }

        *used += 1;
        progress.store(*used as u64, Ordering::Relaxed);

        let mut src = Src::tape(tape);
        let (verdict, json) = run_tape(check, &mut src, cx);

        if let Err(Fail(message)) = verdict {
            let rec = src.rec;

            // Accept strictly simpler tapes only
            if (rec.len(), &rec) < (failure.tape.len(), &failure.tape) {
                failure.tape = rec;
                failure.json = json.unwrap_or_default();
                failure.message = message;

                return true;
            }
        }

        false
    };

    loop {
        let before = failure.tape.clone();

        // Delete chunks
        for size in [64, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i < failure.tape.len() {
                let mut tape = failure.tape.clone();
                let end = (i + size).min(tape.len());
                tape.drain(i..end);

                if !attempt(tape, failure, &mut used) {
                    // Also try: delete and decrement an earlier length choice
                    if i > 0 && size <= 16 {
                        let mut tape = failure.tape.clone();
                        let end = (i + size).min(tape.len());
                        tape.drain(i..end);
                        let mut done = false;
                        for back in 1..=2 {
                            if i >= back && tape[i - back] > 0 {
                                let mut t = tape.clone();
                                t[i - back] -= 1;
                                if attempt(t, failure, &mut used) {
                                    done = true;
                                    break;
                                }
                            }
                        }
                        if done {
                            continue;
                        }
                    }
                    i += size;
                }
            }
        }

        // Zero chunks
        for size in [16, 4, 1] {
            let mut i = 0;
            while i < failure.tape.len() {
                let end = (i + size).min(failure.tape.len());
                if failure.tape[i..end].iter().any(|v| *v != 0) {
                    let mut tape = failure.tape.clone();
                    tape[i..end].fill(0);
                    attempt(tape, failure, &mut used);
                }
                i += size;
            }
        }

        // Lower single values
        let mut i = 0;
        while i < failure.tape.len() {
            let v = failure.tape[i];

            if v > 0 {
                let mut lo = 0;
                let mut hi = v;

                while lo + 1 < hi && used < budget {
                    let mid = lo + (hi - lo) / 2;
                    let mut tape = failure.tape.clone();
                    if i >= tape.len() {
                        break;
                    }
                    tape[i] = mid;

                    if attempt(tape, failure, &mut used) { hi = mid } else { lo = mid }
                }

                if i < failure.tape.len() && failure.tape[i] > 0 {
                    let mut tape = failure.tape.clone();
                    tape[i] -= 1;
                    attempt(tape, failure, &mut used);
                }
            }

            i += 1;
        }

        if failure.tape == before || used >= budget || started.elapsed() > limit {
            break;
        }
    }

    used
}

fn mutate(rng: &mut Rng, tape: &[u64], other: &[u64]) -> Vec<u64> {
    let mut tape = tape.to_vec();

    for _ in 0..=rng.below(4) {
        if tape.is_empty() {
            break;
        }

        let at = rng.below(tape.len() as u64) as usize;

        match rng.below(6) {
            0 => tape[at] = rng.next() >> rng.below(64),
            1 => tape[at] = tape[at].wrapping_add(1),
            2 => tape[at] = tape[at].saturating_sub(1),
            3 => { tape.truncate(at); }
            4 => {
                let end = (at + 1 + rng.below(8) as usize).min(tape.len());
                let chunk = tape[at..end].to_vec();
                let to = rng.below(tape.len() as u64) as usize;
                tape.splice(to..to, chunk);
            }
            _ => {
                if !other.is_empty() {
                    let from = rng.below(other.len() as u64) as usize;
                    tape.truncate(at);
                    tape.extend_from_slice(&other[from..]);
                }
            }
        }
    }

    tape
}

/// A case which takes this long doesn't end, in the quick tier.
const HANG_S: u32 = 120;

pub struct Outcome {
    pub evidence: Json,
    pub failure: Option<Json>,
}

pub fn run(check: &Check, config: &RunConfig) -> Result<Outcome, String> {
    let started = Instant::now();
    let shards = config.shards.unwrap_or(check.shards).max(1);
    let total = config.cases.unwrap_or(if config.thorough { check.thorough } else { check.quick });
    let per_shard = total.div_ceil(shards as u64);

    // Smallest index of a failed case found so far
    let stop_at = AtomicU64::new(u64::MAX);
    let failures = Mutex::new(Vec::<Failure>::new());
    let errors = Mutex::new(Vec::<String>::new());
    let progress: Vec<AtomicU64> = (0..shards).map(|_| AtomicU64::new(0)).collect();
    let progress = Arc::new(progress);
    let base = config.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ hash_str(check.id);

    let shared = (0..shards).map(|_| Arc::<Shared>::default()).collect::<Vec<_>>();
    crash::watch(check.id, progress.clone(), shared.clone(), if config.thorough { 900 } else { HANG_S });

    let stats = std::thread::scope(|scope| {
        let handles = (0..shards).map(|shard| {
            let (stop_at, failures, errors, progress, shared) = (&stop_at, &failures, &errors, progress.clone(), shared[shard].clone());

            std::thread::Builder::new()
                .name(format!("shard-{shard}"))
                .stack_size(32 << 20)
                .spawn_scoped(scope, move || {
                    let mut stats = ShardStats::default();

                    let result = catch_unwind(AssertUnwindSafe(|| {
                        let mut cx = make_cx(config, shard, shared);
                        let mut corpus: Vec<Vec<u64>> = vec![];
                        let mut seen = HashSet::new();
                        let mut mrng = Rng::new(base ^ (shard as u64) << 32 ^ 0xABCD);

                        for index in 0..per_shard {
                            if index > stop_at.load(Ordering::Relaxed) {
                                break;
                            }

                            progress[shard].store(index + 1, Ordering::Relaxed);

                            let rng = Rng::new(base.wrapping_add((shard as u64) << 48).wrapping_add(index.wrapping_mul(0xD134_2543_DE82_EF95)));

                            // Later part of the deep tier mutates tapes that reached new classes
                            let mut src = if config.thorough && index > per_shard / 4 && corpus.len() > 1 && mrng.below(2) == 0 {
                                let a = mrng.below(corpus.len() as u64) as usize;
                                let b = mrng.below(corpus.len() as u64) as usize;
                                let tape = mutate(&mut mrng, &corpus[a], &corpus[b]);

                                Src::tape_then_random(tape, rng)
                            } else {
                                Src::random(rng)
                            };

                            let (verdict, json) = run_tape(check, &mut src, &mut cx);

                            stats.cases += 1;

                            let mut labels = cx.labels.clone();

                            for label in &labels {
                                *stats.labels.entry(label).or_default() += 1;
                            }

                            labels.sort();
                            let signature = hash_str(&labels.join(","));
                            let new = seen.insert(signature);

                            if config.thorough && new && corpus.len() < 2000 && src.rec.len() < 20_000 {
                                corpus.push(src.rec.clone());
                            }

                            if cx.nontrivial {
                                stats.nontrivial += 1;

                                if let Some(json) = &json {
                                    if stats.hashes.insert(hash_str(json)) && new && json.len() < 3000 && stats.samples.len() < 40 {
                                        stats.samples.push((json.clone(), labels));
                                    }
                                }
                            }

                            if let Err(Fail(message)) = verdict {
                                stop_at.fetch_min(index, Ordering::Relaxed);

                                failures.lock().unwrap().push(Failure {
                                    index,
                                    shard,
                                    tape: src.rec,
                                    json: json.unwrap_or_default(),
                                    message,
                                });

                                break;
                            }
                        }

                        stats.execs = cx.execs;
                    }));

                    progress[shard].store(u64::MAX, Ordering::Relaxed);

                    if let Err(payload) = result {
                        let text = match payload.downcast_ref::<Infra>() {
                            Some(Infra(text)) => text.clone(),
                            None => panic_text(&*payload),
                        };

                        errors.lock().unwrap().push(text);
                        stop_at.store(0, Ordering::Relaxed);
                    }

                    stats
                })
                .expect("spawn shard")
        }).collect::<Vec<_>>();

        handles.into_iter().map(|h| h.join().expect("shard")).collect::<Vec<_>>()
    });

    if let Some(error) = errors.into_inner().unwrap().into_iter().next() {
        return Err(error);
    }

    let mut merged = ShardStats::default();

    for s in stats {
        merged.cases += s.cases;
        merged.execs += s.execs;
        merged.nontrivial += s.nontrivial;
        merged.hashes.extend(s.hashes);
        for (k, v) in s.labels {
            *merged.labels.entry(k).or_default() += v;
        }
        merged.samples.extend(s.samples);
    }

    // Samples: prefer different classes, then short ones
    merged.samples.sort_by_key(|(json, labels)| (std::cmp::Reverse(labels.len()), json.len()));
    let mut samples = vec![];
    let mut covered: HashSet<&'static str> = HashSet::new();

    for (json, labels) in &merged.samples {
        if samples.len() < 6 && (samples.is_empty() || labels.iter().any(|l| !covered.contains(l))) {
            covered.extend(labels);
            samples.push(json!({
                "classes": labels,
                "case": serde_json::from_str::<Json>(json).unwrap_or(Json::Null)
            }));
        }
    }

    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| (f.index, f.shard));

    let mut failure = None;

    if let Some(mut first) = failures.into_iter().next() {
        let original = first.tape.len();

        let used = {
            let result = catch_unwind(AssertUnwindSafe(|| {
                // A case may end the process or hang only now
                let (progress, shared) = (Arc::new(vec![AtomicU64::new(0)]), Arc::<Shared>::default());
                crash::watch(check.id, progress.clone(), vec![shared.clone()], HANG_S);

                let mut cx = make_cx(config, 99, shared);
                cx.quiet = true;
                shrink(check, &mut cx, &mut first, &progress[0], if config.thorough { 6000 } else { 1500 }, Instant::now())
            }));

            result.unwrap_or(0)
        };

        failure = Some(json!({
            "property": check.id,
            "message": first.message,
            "case": serde_json::from_str::<Json>(&first.json).unwrap_or(Json::Null),
            "tape": first.tape,
            "seed": config.seed,
            "shard": first.shard,
            "index": first.index,
            "shrunk_from": original,
            "shrink_executions": used
        }));
    }

    let mut coverage = json!({
        "evaluations": merged.cases,
        "distinct_nontrivial": merged.hashes.len(),
        "rule": check.rule,
        "samples": samples,
        "nontrivial_cases": merged.nontrivial,
        "classes": merged.labels,
        "shards": shards
    });

    if merged.execs > 0 {
        coverage["executions_within_cases"] = json!(merged.execs);
    }

    let evidence = json!({
        "property": check.id,
        "tier": if config.thorough { "thorough" } else { "quick" },
        "seed": config.seed,
        "level": check.level,
        "coverage": coverage,
        "assumptions": check.assumptions,
        "wall_s": (started.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "violations": failure.is_some() as u64
    });

    Ok(Outcome { evidence, failure })
}

/// Run saved case several times (schedules may need more than one try).
pub fn replay(check: &Check, config: &RunConfig, file: &Json, tries: u32) -> Result<Verdict, String> {
    let (progress, shared) = (Arc::new(vec![AtomicU64::new(0)]), Arc::<Shared>::default());
    crash::watch(check.id, progress.clone(), vec![shared.clone()], HANG_S);

    let mut cx = make_cx(config, 0, shared);

    for n in 0..tries.max(1) {
        progress[0].store(n as u64 + 1, Ordering::Relaxed);

        let verdict = if !file["case"].is_null() {
            (check.replay)(&file["case"].to_string(), &mut cx)?
        } else {
            let tape = file["tape"].as_array().ok_or("no case and no tape")?
                .iter().filter_map(Json::as_u64).collect();

            run_tape(check, &mut Src::tape(tape), &mut cx).0
        };

        if verdict.is_err() {
            return Ok(verdict);
        }
    }

    Ok(Ok(()))
}
