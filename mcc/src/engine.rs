use std::collections::BTreeMap;
use std::sync::Mutex;

static CURRENT: Mutex<String> = Mutex::new(String::new());
pub fn current() -> String {
    CURRENT.lock().map(|s| s.clone()).unwrap_or_default()
}
pub fn set_current(s: &str) {
    *CURRENT.lock().unwrap() = s.to_string();
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub name: String,
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub refused: u64,
    pub depth: usize,
    pub frontier_empty: bool,
    pub capped: bool,
    pub traces: u64,
    pub outcomes: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<String>,
    pub bounds: String,
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub config: String,
    pub path: Vec<usize>,
    pub ops: Vec<String>,
    pub message: String,
}
/// A deterministic transition system over implementation objects: the state
/// is rebuilt by replaying the history (stateless exploration).
pub trait System: Sync {
    fn histories(&self, depth: usize) -> Vec<Vec<usize>>;
    fn run(&self, history: &[usize]) -> Result<(), String>;
    fn show(&self, history: &[usize]) -> Vec<String>;
}
/// Runs every history up to the depth.
pub fn explore<S: System>(name: &str, bounds: &str, sys: &S, depth: usize, _cap: usize) -> (Stats, Option<Violation>) {
    set_current(name);
    let hs = sys.histories(depth);
    let r = par_map(&hs, |_, h| crate::quiet(|| sys.run(h)).unwrap_or_else(|| Err("panicked".into())));
    let mut st = Stats { name: name.into(), bounds: bounds.into(), depth, frontier_empty: true, ..Default::default() };
    for (h, x) in hs.iter().zip(r) {
        st.states += 1;
        st.transitions += h.len() as u64;
        st.accepted += 1;
        if let Err(e) = x {
            return (st, Some(Violation { config: name.into(), path: h.clone(), ops: sys.show(h), message: e }));
        }
    }
    st.traces = st.states;
    for i in [hs.len() / 3, hs.len() * 2 / 3] {
        st.samples.push(format!("{name}: {}", sys.show(&hs[i]).join("; ")));
    }
    (st, None)
}
pub fn threads() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16)
}
pub fn par_map<T: Sync, R: Send>(items: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let n = threads();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let chunk = (items.len() / (n * 8)).clamp(1, 256);
    let out: Mutex<Vec<(usize, Vec<R>)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..n {
            sc.spawn(|| loop {
                let s = next.fetch_add(chunk, std::sync::atomic::Ordering::Relaxed);
                if s >= items.len() {
                    break;
                }
                let e = (s + chunk).min(items.len());
                let r: Vec<R> = (s..e).map(|i| f(i, &items[i])).collect();
                out.lock().unwrap().push((s, r));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().flat_map(|x| x.1).collect()
}
