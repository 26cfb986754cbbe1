//! Check driver: collects what was explored, writes evidence and replay files.
use crate::engine::{explore, Stats, System, Violation};
use std::collections::BTreeMap;
use std::time::Instant;

pub struct Check {
    pub property: String,
    pub tier: String,
    seed: i64,
    start: Instant,
    pub stats: Vec<Stats>,
    pub assumptions: Vec<String>,
    violations: Vec<Violation>,
    known: Vec<(String, String)>,
    fatal: Option<String>,
    verif: String,
    /// cases of purely functional enumerations, by group
    pub cases: BTreeMap<String, (u64, u64)>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Check {
    pub fn new(property: &str) -> Self {
        crate::host::install_panic_hook();
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        // known findings: lines "known: property=<id> <key>"
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{verif}/known-findings.txt")) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix("known: property=") {
                    if let Some((id, rest)) = r.split_once(' ') {
                        if id == property {
                            known.push((rest.split(' ').next().unwrap_or("").to_string(), rest.to_string()));
                        }
                    }
                }
            }
        }
        Check {
            property: property.into(),
            tier,
            seed,
            start: Instant::now(),
            stats: vec![],
            assumptions: vec![],
            violations: vec![],
            known,
            fatal: None,
            verif,
            cases: BTreeMap::new(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    /// quick or thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn run<S: System>(&mut self, name: &str, bounds: &str, sys: &S, depth: usize) {
        if self.failed() {
            return;
        }
        let cap = self.q(600_000usize, 8_000_000usize);
        let t = Instant::now();
        let (st, v) = explore(name, bounds, sys, depth, cap);
        eprintln!(
            "[{}] {}: states={} transitions={} ok={} refused={} depth={} traces={} complete={} {:.1}s {:?}",
            self.property, name, st.states, st.transitions, st.accepted, st.refused, st.depth, st.traces, !st.capped, t.elapsed().as_secs_f64(), st.outcomes
        );
        self.stats.push(st);
        if let Some(v) = v {
            self.violations.push(v);
        }
    }
    /// Exhaustive enumeration of a finite input space of a pure function:
    /// every case is a state of the one-step transition system.
    pub fn enumerate<T: Sync>(&mut self, name: &str, bounds: &str, items: &[T], f: impl Fn(&T) -> Result<bool, String> + Sync)
    where
        T: std::fmt::Debug,
    {
        if self.failed() {
            return;
        }
        let t = Instant::now();
        let r = crate::engine::par_map(items, |_, x| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(x))).unwrap_or_else(|_| Err("panicked".into()))
        });
        let mut st = Stats { name: name.into(), bounds: bounds.into(), depth: 1, frontier_empty: true, ..Default::default() };
        for (i, x) in r.into_iter().enumerate() {
            match x {
                Err(e) => {
                    self.violations.push(Violation {
                        config: name.into(),
                        path: vec![i],
                        ops: vec![format!("{:?}", items[i])],
                        message: e,
                    });
                    break;
                }
                Ok(acc) => {
                    st.states += 1;
                    st.transitions += 1;
                    if acc {
                        st.accepted += 1;
                    } else {
                        st.refused += 1;
                    }
                }
            }
        }
        st.traces = st.transitions;
        for i in [items.len() / 3, items.len() * 2 / 3] {
            if let Some(x) = items.get(i) {
                let mut s = format!("{name}: {x:?}");
                s.truncate(600);
                st.samples.push(s);
            }
        }
        eprintln!("[{}] {}: cases={} ok={} refused={} {:.1}s", self.property, name, st.states, st.accepted, st.refused, t.elapsed().as_secs_f64());
        self.stats.push(st);
    }
    /// Each case of the last enumeration covered `k` inputs.
    pub fn scale_last(&mut self, k: u64) {
        if self.failed() {
            return;
        }
        if let Some(st) = self.stats.last_mut() {
            st.states *= k;
            st.transitions *= k;
            st.accepted *= k;
            st.refused *= k;
            st.traces *= k;
        }
    }
    /// A single fact checked outright (named case).
    pub fn fact(&mut self, name: &str, r: Result<(), String>) {
        if self.failed() {
            return;
        }
        let c = self.cases.entry("facts".into()).or_default();
        c.0 += 1;
        if let Err(e) = r {
            self.violations.push(Violation { config: name.into(), path: vec![], ops: vec![name.into()], message: e });
        }
    }
    /// Reports a deviation identified by `key`; known findings are not violations.
    pub fn finding(&mut self, key: &str, message: String) {
        if let Some((_, full)) = self.known.iter().find(|(k, _)| k == key) {
            println!("KNOWN-FINDING: property={} {}", self.property, full);
            return;
        }
        self.violations.push(Violation { config: key.into(), path: vec![], ops: vec![key.into()], message });
    }
    /// A history with a known defect: `Ok(true)` where the code is right,
    /// `Ok(false)` where it is wrong in exactly the known way.
    pub fn probe(&mut self, key: &str, r: Result<bool, String>, message: &str) -> bool {
        match r {
            Ok(true) => true,
            Ok(false) => {
                self.finding(key, message.into());
                false
            }
            Err(e) => {
                self.violations.push(Violation { config: key.into(), path: vec![], ops: vec![key.into()], message: e });
                true
            }
        }
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|(k, _)| k == key)
    }
    pub fn fatal(&mut self, m: String) {
        self.fatal = Some(m);
    }
    pub fn finish(self) -> ! {
        let states: u64 = self.stats.iter().map(|s| s.states).sum();
        let trans: u64 = self.stats.iter().map(|s| s.transitions).sum();
        let traces: u64 = self.stats.iter().map(|s| s.traces).sum();
        let facts: u64 = self.cases.values().map(|c| c.0).sum();
        let complete = self.stats.iter().all(|s| !s.capped) && self.violations.is_empty();
        let mut o = String::from("{\n");
        o += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", js(&self.property), js(&self.tier), self.seed);
        o += " \"coverage\": {\n";
        o += &format!("  \"states\": {states},\n  \"transitions\": {trans},\n  \"traces_validated_against_impl\": {traces},\n  \"named_facts\": {facts},\n  \"exhaustive\": {complete},\n");
        o += "  \"configurations\": [\n";
        let rows: Vec<String> = self
            .stats
            .iter()
            .map(|s| {
                let oc: Vec<String> = s.outcomes.iter().map(|(k, v)| format!("{}: [{}, {}]", js(k), v.0, v.1)).collect();
                format!(
                    "   {{\"name\": {}, \"bounds\": {}, \"states\": {}, \"transitions\": {}, \"accepted\": {}, \"refused\": {}, \"depth\": {}, \"fixpoint\": {}, \"capped\": {}, \"outcomes_accepted_refused\": {{{}}}}}",
                    js(&s.name), js(&s.bounds), s.states, s.transitions, s.accepted, s.refused, s.depth, s.frontier_empty, s.capped, oc.join(", ")
                )
            })
            .collect();
        o += &rows.join(",\n");
        o += "\n  ],\n  \"samples\": [\n";
        let smp: Vec<String> = self.stats.iter().flat_map(|s| s.samples.iter().map(|x| format!("   {}", js(x)))).collect();
        o += &smp.join(",\n");
        o += "\n  ]\n },\n";
        let asm: Vec<String> = self.assumptions.iter().map(|a| js(a)).collect();
        o += &format!(" \"assumptions\": [{}],\n", asm.join(", "));
        o += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), self.violations.len());
        let dir = format!("{}/evidence", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{dir}/{}.json", self.property), o) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(3);
        }
        if let Some(m) = self.fatal {
            eprintln!("error: {m}");
            std::process::exit(3);
        }
        if let Some(v) = self.violations.first() {
            let rp = format!("{dir}/{}.replay.txt", self.property);
            let mut t = format!("property: {}\nconfiguration: {}\nviolation: {}\npath: {:?}\n", self.property, v.config, v.message, v.path);
            for (i, op) in v.ops.iter().enumerate() {
                t += &format!("{i}: {op}\n");
            }
            t += &format!("re-run: MC_REPLAY is not needed; `./check.sh {} {}` reproduces it deterministically\n", self.property, self.tier);
            let _ = std::fs::write(&rp, &t);
            eprint!("{t}");
            println!("VIOLATION property={} replay={}", self.property, rp);
            std::process::exit(1);
        }
        println!("OK property={} states={states} transitions={trans} traces={traces}", self.property);
        std::process::exit(0);
    }
}
