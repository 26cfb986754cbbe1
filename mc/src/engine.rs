//! Explicit-state exploration of (real contract world) x (reference model).
use crate::host::{self, with, Log, Out, World};
use alloy_primitives::{Address, U256};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

/// What the reference model expects of one call.
#[derive(Clone, Debug)]
pub enum Expect {
    /// success with exactly this return data and these events
    Ok(Vec<u8>, Vec<Log>),
    /// failure with one of these revert payloads
    Err(Vec<Vec<u8>>),
    /// failure, any payload (panic, undocumented)
    Fail,
}

pub fn show(d: &[u8]) -> String {
    let mut s = String::from("0x");
    for b in d.iter().take(160) {
        s += &format!("{b:02x}");
    }
    if d.len() > 160 {
        s += "..";
    }
    s
}

fn show_logs(l: &[Log]) -> String {
    l.iter()
        .map(|l| {
            format!("{{{} [{}] {}}}", l.addr, l.topics.iter().map(|t| format!("{t}")).collect::<Vec<_>>().join(","), show(&l.data))
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Compares one executed call (its `Out` and the host's log) with `Expect`.
pub fn compare(what: &str, out: &Out, e: &Expect) -> Result<(), String> {
    match e {
        Expect::Ok(ret, logs) => {
            if !out.ok {
                return Err(format!("{what}: must succeed but failed ({}) {}", if out.panicked { "panic" } else { "revert" }, show(&out.data)));
            }
            if &out.data != ret {
                return Err(format!("{what}: returned {} instead of {}", show(&out.data), show(ret)));
            }
            let got = with(|vm| vm.logs.clone());
            if &got != logs {
                return Err(format!("{what}: events {} instead of {}", show_logs(&got), show_logs(logs)));
            }
        }
        Expect::Err(alts) => {
            if out.ok {
                return Err(format!("{what}: must fail but succeeded with {}", show(&out.data)));
            }
            if !alts.contains(&out.data) {
                return Err(format!(
                    "{what}: failed with {}{} instead of {}",
                    show(&out.data),
                    if out.panicked { " (panic)" } else { "" },
                    alts.iter().map(|a| show(a)).collect::<Vec<_>>().join(" | ")
                ));
            }
        }
        Expect::Fail => {
            if out.ok {
                return Err(format!("{what}: must fail but succeeded with {}", show(&out.data)));
            }
        }
    }
    Ok(())
}

/// Executes a transaction and compares it.
pub fn step(what: &str, from: Address, to: Address, data: Vec<u8>, e: &Expect) -> Result<(), String> {
    let out = host::tx(from, to, U256::ZERO, data);
    compare(what, &out, e)
}

/// A view that must return exactly `ret`.
pub fn must_view(what: &str, from: Address, to: Address, data: Vec<u8>, ret: &[u8]) -> Result<(), String> {
    let out = host::view(from, to, data);
    if !out.ok {
        return Err(format!("view {what}: failed ({}) {}", if out.panicked { "panic" } else { "revert" }, show(&out.data)));
    }
    if out.data != ret {
        return Err(format!("view {what}: returned {} instead of {}", show(&out.data), show(ret)));
    }
    Ok(())
}
/// A view that must fail with one of the payloads (empty list: any failure).
pub fn must_fail_view(what: &str, from: Address, to: Address, data: Vec<u8>, alts: &[Vec<u8>]) -> Result<(), String> {
    let out = host::view(from, to, data);
    if out.ok {
        return Err(format!("view {what}: must fail but returned {}", show(&out.data)));
    }
    if !alts.is_empty() && !alts.contains(&out.data) {
        return Err(format!("view {what}: failed with {} instead of {}", show(&out.data), alts.iter().map(|a| show(a)).collect::<Vec<_>>().join(" | ")));
    }
    Ok(())
}

pub trait System: Sync {
    type Model: Clone + Hash + Send + Sync;
    type Op: Clone + Debug + Send + Sync;
    fn init(&self) -> (World, Self::Model);
    fn ops(&self, m: &Self::Model) -> Vec<Self::Op>;
    /// Executes `op` on the host's world and the model, comparing both.
    /// Ok(true): the state may have changed; Ok(false): refused.
    fn apply(&self, m: &mut Self::Model, op: &Self::Op) -> Result<bool, String>;
    /// All views and invariants of one state.
    fn check(&self, m: &Self::Model) -> Result<(), String>;
    /// Coarse class of an operation for outcome statistics.
    fn kind(&self, op: &Self::Op) -> String {
        let s = format!("{op:?}");
        s.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub name: String,
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub refused: u64,
    pub depth: usize,
    pub frontier_empty: bool,
    pub capped: bool,
    pub traces: u64,
    pub outcomes: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<String>,
    pub bounds: String,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub config: String,
    pub path: Vec<usize>,
    pub ops: Vec<String>,
    pub message: String,
}

/// Soft end of the explorations of one check: past it, an exploration stops
/// and is reported as capped (reached only when the code under test keeps
/// state that grows without being observable).
fn out_of_time() -> bool {
    use std::sync::OnceLock;
    use std::time::{Duration, Instant};
    static END: OnceLock<Instant> = OnceLock::new();
    let end = END.get_or_init(|| {
        let t = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { 10_000 } else { 300 };
        Instant::now() + Duration::from_secs(t)
    });
    Instant::now() > *end
}

struct Node<M> {
    world: World,
    model: M,
    path: Vec<u32>,
}

fn hash_model<M: Hash>(m: &M) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    m.hash(&mut h);
    h.finish()
}
fn key<M: Hash>(w: &World, m: &M) -> u128 {
    w.fingerprint() ^ ((hash_model(m) as u128).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835))
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8)
    })
}

/// Maps `f` over items in parallel, results in item order.
pub fn par_map<T: Sync, R: Send>(items: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let n = threads();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let chunk = (items.len() / (n * 8)).clamp(1, 256);
    let out: Mutex<Vec<(usize, Vec<R>)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..n {
            sc.spawn(|| loop {
                let s = next.fetch_add(chunk, std::sync::atomic::Ordering::Relaxed);
                if s >= items.len() {
                    break;
                }
                let e = (s + chunk).min(items.len());
                let r: Vec<R> = (s..e).map(|i| f(i, &items[i])).collect();
                out.lock().unwrap().push((s, r));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().flat_map(|x| x.1).collect()
}

fn guarded<S: System>(sys: &S, m: &mut S::Model, op: &S::Op) -> Result<bool, String> {
    let before = with(|vm| vm.world.fingerprint());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sys.apply(m, op)))
        .map_err(|_| "harness panicked".to_string())??;
    if !r {
        let after = with(|vm| vm.world.fingerprint());
        if before != after {
            return Err("a refused operation changed the state".into());
        }
    }
    Ok(r)
}

/// One given history: every operation compared, every state's views checked at
/// the end (and at the start).
pub fn script<S: System>(sys: &S, ops: &[S::Op]) -> Result<bool, String> {
    let (w, mut m) = sys.init();
    with(|vm| vm.world = w);
    let mut ok = true;
    for op in ops {
        ok = guarded(sys, &mut m, op)?;
    }
    sys.check(&m)?;
    Ok(ok)
}

/// Breadth-first exploration to `depth` operations (all histories up to that
/// length, merged where the complete world and model states are identical).
pub fn explore<S: System>(name: &str, bounds: &str, sys: &S, depth: usize, cap: usize) -> (Stats, Option<Violation>) {
    let mut st = Stats { name: name.into(), bounds: bounds.into(), ..Default::default() };
    let (w0, m0) = sys.init();
    let mk = |path: &[u32], last: Option<u32>, message: String| -> Violation {
        let mut p: Vec<u32> = path.to_vec();
        p.extend(last);
        let ops = describe(sys, &p);
        Violation { config: name.into(), path: p.iter().map(|x| *x as usize).collect(), ops, message }
    };
    with(|vm| vm.world = w0.clone());
    if let Err(e) = sys.check(&m0) {
        return (st, Some(mk(&[], None, format!("initial state: {e}"))));
    }
    let mut seen: HashSet<u128> = HashSet::new();
    seen.insert(key(&w0, &m0));
    let mut frontier = vec![Node { world: w0, model: m0, path: vec![] }];
    st.states = 1;
    let mut leaves: Vec<(Vec<u32>, u128)> = vec![];
    for level in 0..depth {
        if frontier.is_empty() {
            break;
        }
        struct Res<M> {
            new: Vec<(u128, Node<M>)>,
            fail: Option<(u32, String)>,
            acc: u64,
            refu: u64,
            kinds: BTreeMap<String, (u64, u64)>,
        }
        let seen_ref = &seen;
        let last_level = level + 1 == depth;
        let results: Vec<Res<S::Model>> = par_map(&frontier, |_, node| {
            let mut r = Res { new: vec![], fail: None, acc: 0, refu: 0, kinds: BTreeMap::new() };
            if out_of_time() {
                return r;
            }
            let ops = sys.ops(&node.model);
            let mut local: HashSet<u128> = HashSet::new();
            for (i, op) in ops.iter().enumerate() {
                with(|vm| vm.world = node.world.clone());
                let mut m = node.model.clone();
                match guarded(sys, &mut m, op) {
                    Err(e) => {
                        r.fail = Some((i as u32, e));
                        break;
                    }
                    Ok(acc) => {
                        let k = r.kinds.entry(sys.kind(op)).or_default();
                        if acc {
                            r.acc += 1;
                            k.0 += 1;
                        } else {
                            r.refu += 1;
                            k.1 += 1;
                            continue;
                        }
                        let world = with(|vm| vm.world.clone());
                        let k = key(&world, &m);
                        if !seen_ref.contains(&k) && local.insert(k) {
                            let mut path = node.path.clone();
                            path.push(i as u32);
                            r.new.push((k, Node { world, model: m, path }));
                        }
                    }
                }
            }
            r
        });
        let mut next = vec![];
        for (n, r) in results.into_iter().enumerate() {
            if let Some((i, e)) = r.fail {
                return (st, Some(mk(&frontier[n].path, Some(i), e)));
            }
            st.transitions += r.acc + r.refu;
            st.accepted += r.acc;
            st.refused += r.refu;
            for (k, v) in r.kinds {
                let e = st.outcomes.entry(k).or_default();
                e.0 += v.0;
                e.1 += v.1;
            }
            let mut any = false;
            for (k, nd) in r.new {
                if seen.insert(k) {
                    any = true;
                    next.push((k, nd));
                }
            }
            if !any && leaves.len() < 4000 {
                leaves.push((frontier[n].path.clone(), key(&frontier[n].world, &frontier[n].model)));
            }
        }
        st.depth = level + 1;
        // every new state: all views and invariants
        let fails: Vec<Option<String>> = par_map(&next, |_, (_, nd)| {
            with(|vm| vm.world = nd.world.clone());
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sys.check(&nd.model)))
                .unwrap_or_else(|_| Err("harness panicked in check".into()))
                .err()
        });
        for (i, f) in fails.into_iter().enumerate() {
            if let Some(e) = f {
                return (st, Some(mk(&next[i].1.path, None, e)));
            }
        }
        st.states += next.len() as u64;
        if last_level {
            for (k, nd) in next.iter().take(4000usize.saturating_sub(leaves.len())) {
                leaves.push((nd.path.clone(), *k));
            }
        }
        if seen.len() > cap || out_of_time() {
            st.capped = true;
            for (k, nd) in next.iter().take(1000) {
                leaves.push((nd.path.clone(), *k));
            }
            frontier = vec![];
            break;
        }
        frontier = next.into_iter().map(|x| x.1).collect();
    }
    st.frontier_empty = frontier.is_empty() && !st.capped;
    // replay maximal traces from the initial state on the implementation:
    // the same history must lead to the same world (owned nondeterminism).
    leaves.truncate(4000);
    let bad: Vec<Option<Violation>> = par_map(&leaves, |_, (path, k)| {
        let (w, mut m) = sys.init();
        with(|vm| vm.world = w);
        for i in path {
            let ops = sys.ops(&m);
            if let Err(e) = guarded(sys, &mut m, &ops[*i as usize]) {
                return Some(mk(path, None, format!("replay diverged: {e}")));
            }
        }
        let w = with(|vm| vm.world.clone());
        if key(&w, &m) != *k {
            return Some(mk(path, None, "replay of the same history reached a different state".into()));
        }
        None
    });
    st.traces = leaves.len() as u64;
    for v in bad.into_iter().flatten() {
        return (st, Some(v));
    }
    for (p, _) in leaves.iter().rev().take(1).chain(leaves.iter().take(1)) {
        st.samples.push(format!("{}: {}", name, describe(sys, p).join(" ; ")));
    }
    (st, None)
}

/// Human-readable operations of a path (re-running the model to know the alphabet).
pub fn describe<S: System>(sys: &S, path: &[u32]) -> Vec<String> {
    let saved = with(|vm| vm.world.clone());
    let (w, mut m) = sys.init();
    with(|vm| vm.world = w);
    let mut out = vec![];
    for i in path {
        let ops = sys.ops(&m);
        let Some(op) = ops.get(*i as usize) else { break };
        out.push(format!("{op:?}"));
        if guarded(sys, &mut m, op).is_err() {
            break;
        }
    }
    with(|vm| vm.world = saved);
    out
}
