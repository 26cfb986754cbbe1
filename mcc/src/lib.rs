//! Shared parts of the crypto checks: parallel enumeration, evidence, and
//! reference implementations that share no code with the library.
pub mod engine;
pub mod keccak;
#[path = "../../mc/src/report.rs"]
pub mod report;
/// stands in for the contract host of the other crate
pub mod host {
    pub fn install_panic_hook() {
        std::panic::set_hook(Box::new(|info| {
            if !crate::QUIET.with(|q| q.get()) {
                eprintln!("panic: {info}");
            }
        }));
        // A computation of the library that never ends is a violation too.
        // The checks take seconds; this only fires far beyond that.
        let limit: u64 = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { 13_000 } else { 480 };
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(limit));
            let id = std::env::args().nth(1).unwrap_or_default();
            let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) + "/evidence";
            let _ = std::fs::create_dir_all(&dir);
            let _ = std::fs::write(format!("{dir}/{id}.replay.txt"), format!("property: {id}\nno end after {limit} s in: {}\n", crate::engine::current()));
            println!("VIOLATION property={id} replay={dir}/{id}.replay.txt");
            std::process::exit(1);
        });
    }
}
thread_local! {
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// None if `f` panics.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    QUIET.with(|q| q.set(old));
    r
}
#[macro_export]
macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {{
        match (&$got, &$want) {
            (g, w) => {
                if g != w {
                    return Err(format!("{}: {:?} instead of {:?}", $what, g, w));
                }
            }
        }
    }};
}
/// little-endian limbs to integer
pub fn big(l: &[u64]) -> num_bigint::BigUint {
    let mut v = vec![];
    for x in l {
        v.push(*x as u32);
        v.push((*x >> 32) as u32);
    }
    num_bigint::BigUint::new(v)
}
/// the low `N` limbs of an integer
pub fn limbs<const N: usize>(b: &num_bigint::BigUint) -> [u64; N] {
    let mut o = [0; N];
    for (i, x) in b.iter_u64_digits().take(N).enumerate() {
        o[i] = x;
    }
    o
}
/// all words of length `len` over an alphabet of `k` symbols
pub fn words(k: usize, len: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|w: Vec<usize>| (0..k).map(move |i| [w.clone(), vec![i]].concat())).collect();
    }
    v
}

/// Runs the WebAssembly build of the same code (see ../mcw) under node and adds
/// its enumerations to the check.  `VERIF_WASM` is set by check.sh when that
/// build is possible here.
pub fn wasm(ck: &mut report::Check, part: &str) {
    let file = std::env::var("VERIF_WASM").unwrap_or_default();
    if ck.failed() {
        return;
    }
    if file.is_empty() {
        ck.assume("no WebAssembly toolchain or node here: the WebAssembly build was not explored");
        return;
    }
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let out = std::process::Command::new("node").args([format!("{dir}/mcw/run.mjs").as_str(), file.as_str(), part, if ck.thorough() { "thorough" } else { "quick" }]).output();
    let Ok(out) = out else {
        ck.assume("node did not start: the WebAssembly build was not explored");
        return;
    };
    if !out.status.success() {
        return ck.fatal(format!("node: {}", String::from_utf8_lossy(&out.stderr)));
    }
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let get = |k: &str| {
            let at = l.find(&format!("\"{k}\":"))? + k.len() + 3;
            let r = &l[at..];
            Some(match r.strip_prefix('"') {
                Some(s) => s[..s.find("\",").or(s.find("\"}"))?].to_string(),
                None => r.chars().take_while(|c| c.is_ascii_digit()).collect(),
            })
        };
        let name = get("name").unwrap_or_default();
        match (get("cases"), get("violation")) {
            (_, Some(v)) => ck.fact(&name, Err(v)),
            (Some(n), _) => {
                let n: u64 = n.parse().unwrap_or(0);
                ck.enumerate(&name, &get("bounds").unwrap_or_default(), &[name.clone()], |_| Ok(true));
                ck.scale_last(n);
            }
            _ => ck.fatal(format!("node said {l}")),
        }
    }
}
