//! C31: Merkle proofs; C32: hashing.
use mcc::keccak::keccak256;
use mcc::report::Check;
use mcc::*;
use openzeppelin_crypto::hash::{commutative_hash_pair, hash_pair, BuildHasher, Hash, Hasher};
use openzeppelin_crypto::keccak::KeccakBuilder;
use openzeppelin_crypto::merkle::{MultiProofError, Verifier};
use std::collections::VecDeque;

type B32 = [u8; 32];

/// Not commutative, sensitive to every byte and to the split between inputs' order.
struct Toy;
struct ToyHasher(Vec<u8>);
impl BuildHasher for Toy {
    type Hasher = ToyHasher;
    fn build_hasher(&self) -> ToyHasher {
        ToyHasher(vec![])
    }
}
impl Hasher for ToyHasher {
    type Output = B32;
    fn update(&mut self, input: impl AsRef<[u8]>) {
        self.0.extend_from_slice(input.as_ref());
    }
    fn finalize(self) -> B32 {
        toy(&self.0)
    }
}
fn toy(d: &[u8]) -> B32 {
    let mut h = [0x9e3779b97f4a7c15u64, 0xbf58476d1ce4e5b9, 0x94d049bb133111eb, 0x2545f4914f6cdd1d];
    for (i, b) in d.iter().enumerate() {
        for (j, x) in h.iter_mut().enumerate() {
            *x = (*x ^ (*b as u64 + 1 + i as u64 * 257 + j as u64)).wrapping_mul(0x100000001b3).rotate_left(23 + j as u32);
        }
    }
    let mut o = [0; 32];
    for (j, x) in h.iter().enumerate() {
        o[8 * j..8 * j + 8].copy_from_slice(&x.to_be_bytes());
    }
    o
}
type Hf = fn(&[u8]) -> B32;
fn node(h: Hf, a: &B32, b: &B32) -> B32 {
    let (x, y) = if a <= b { (a, b) } else { (b, a) };
    h(&[&x[..], &y[..]].concat())
}
/// complete tree as produced by the JavaScript library: node i has children 2i+1, 2i+2
fn tree(h: Hf, leaves: &[B32]) -> Vec<B32> {
    let n = leaves.len();
    let mut t = vec![[0; 32]; 2 * n - 1];
    for (i, l) in leaves.iter().enumerate() {
        t[2 * n - 2 - i] = *l;
    }
    for i in (0..n - 1).rev() {
        t[i] = node(h, &t[2 * i + 1], &t[2 * i + 2]);
    }
    t
}
fn sib(i: usize) -> usize {
    if i % 2 == 1 {
        i + 1
    } else {
        i - 1
    }
}
fn proof(t: &[B32], mut i: usize) -> Vec<B32> {
    let mut p = vec![];
    while i > 0 {
        p.push(t[sib(i)]);
        i = (i - 1) / 2;
    }
    p
}
fn multi(t: &[B32], idx: &[usize]) -> (Vec<B32>, Vec<bool>, Vec<B32>) {
    let mut q: VecDeque<usize> = idx.iter().copied().collect();
    let (mut p, mut f) = (vec![], vec![]);
    while q.front().is_some_and(|x| *x > 0) {
        let j = q.pop_front().unwrap();
        if q.front() == Some(&sib(j)) {
            f.push(true);
            q.pop_front();
        } else {
            f.push(false);
            p.push(t[sib(j)]);
        }
        q.push_back((j - 1) / 2);
    }
    if idx.is_empty() {
        p.push(t[0]);
    }
    (p, f, idx.iter().map(|i| t[*i]).collect())
}
/// The documented meaning of a multi-proof.
fn multi_ref(h: Hf, p: &[B32], f: &[bool], root: B32, leaves: &[B32]) -> Result<bool, MultiProofError> {
    if leaves.len() + p.len() != f.len() + 1 {
        return Err(MultiProofError::InvalidTotalHashes);
    }
    if f.is_empty() {
        return Ok([leaves, p].concat()[0] == root);
    }
    if leaves.is_empty() {
        return Err(MultiProofError::NoLeaves);
    }
    let mut q: VecDeque<B32> = leaves.iter().copied().collect();
    let mut p: VecDeque<B32> = p.iter().copied().collect();
    for flag in f {
        let a = q.pop_front().unwrap();
        let b = if *flag { q.pop_front().ok_or(MultiProofError::InvalidRootChild)? } else { p.pop_front().ok_or(MultiProofError::InvalidProofLength)? };
        q.push_back(node(h, &a, &b));
    }
    Ok(q.pop_back() == Some(root))
}
fn verify(real: bool, p: &[B32], root: B32, leaf: B32) -> bool {
    if real {
        let x = Verifier::verify(p, root, leaf);
        assert_eq!(x, Verifier::verify_with_builder(p, root, leaf, &KeccakBuilder), "the two entry points differ");
        x
    } else {
        Verifier::verify_with_builder(p, root, leaf, &Toy)
    }
}
fn verify_multi(real: bool, p: &[B32], f: &[bool], root: B32, l: &[B32]) -> Result<bool, MultiProofError> {
    if real {
        Verifier::verify_multi_proof(p, f, root, l)
    } else {
        Verifier::verify_multi_proof_with_builder(p, f, root, l, &Toy)
    }
}
fn leaf(kind: usize, i: usize) -> B32 {
    match kind {
        // hashed leaves
        0 => keccak256(&[i as u8, 0x5a]),
        // neighbouring values that differ in the last byte only
        1 => {
            let mut x = [0x11; 32];
            x[31] = i as u8;
            x
        }
        // differ in the first byte, descending
        _ => {
            let mut x = [0xee; 32];
            x[0] = 0xff - i as u8;
            x
        }
    }
}
fn single(n: usize, kind: usize, real: bool, thorough: bool) -> Result<u64, String> {
    let h: Hf = if real { keccak256 } else { toy };
    let ls: Vec<B32> = (0..n).map(|i| leaf(kind, i)).collect();
    let t = tree(h, &ls);
    let root = t[0];
    let mut cases = 0;
    let outsider = keccak256(b"outsider");
    for i in n - 1..2 * n - 1 {
        let p = proof(&t, i);
        if !verify(real, &p, root, t[i]) {
            return Err(format!("the proof of leaf {} of {n} is refused", 2 * n - 2 - i));
        }
        let mut no = |p: &[B32], r: B32, l: B32, what: &str| -> Result<(), String> {
            cases += 1;
            if verify(real, p, r, l) {
                return Err(format!("leaf {} of {n}: accepted with {what}", 2 * n - 2 - i));
            }
            Ok(())
        };
        for (j, x) in t.iter().chain([&outsider, &[0; 32]]).enumerate() {
            if j != i {
                // the proof belongs to the leaf and to its sibling's swap only
                if !(p.len() == 1 && false) {
                    no(&p, root, *x, "another leaf")?;
                }
                no(&p, *x, t[i], "another root").or_else(|e| if *x == root { Ok(()) } else { Err(e) })?;
            }
        }
        for k in 0..p.len() {
            no(&[&p[..k], &p[k + 1..]].concat(), root, t[i], "a missing element")?;
            for b in 0..if thorough { 256 } else { 256usize.min(if n <= 4 { 256 } else { 64 }) } {
                let b = if n <= 4 || thorough { b } else { (b * 4 + k) % 256 };
                let mut q = p.clone();
                q[k][b / 8] ^= 1 << (b % 8);
                no(&q, root, t[i], "a changed bit")?;
            }
            for j in k + 1..p.len() {
                let mut q = p.clone();
                q.swap(k, j);
                no(&q, root, t[i], "exchanged elements")?;
            }
            for x in t.iter().chain([&outsider]) {
                if *x != p[k] {
                    let mut q = p.clone();
                    q[k] = *x;
                    no(&q, root, t[i], "a replaced element")?;
                }
            }
        }
        for k in 0..=p.len() {
            for x in t.iter().chain([&outsider]) {
                let mut q = p.clone();
                q.insert(k, *x);
                no(&q, root, t[i], "an additional element")?;
            }
        }
        for b in 0..256 {
            let (mut l, mut r) = (t[i], root);
            l[b / 8] ^= 1 << (b % 8);
            r[b / 8] ^= 1 << (b % 8);
            no(&p, root, l, "a changed leaf")?;
            no(&p, r, t[i], "a changed root")?;
        }
    }
    Ok(cases)
}
fn subsets(n: usize, kind: usize, real: bool, set: u32) -> Result<u64, String> {
    let h: Hf = if real { keccak256 } else { toy };
    let ls: Vec<B32> = (0..n).map(|i| leaf(kind, i)).collect();
    let t = tree(h, &ls);
    let idx: Vec<usize> = (n - 1..2 * n - 1).rev().filter(|i| set >> (i - (n - 1)) & 1 == 1).collect();
    let (p, f, l) = multi(&t, &idx);
    let mut cases = 1;
    same!(format!("multi-proof of {l:?}"), verify_multi(real, &p, &f, t[0], &l), Ok(true));
    let outsider = keccak256(b"outsider");
    let mut cmp = |p: &[B32], f: &[bool], r: B32, l: &[B32]| -> Result<bool, String> {
        cases += 1;
        let got = quiet(|| verify_multi(real, p, f, r, l)).ok_or("panicked")?;
        let want = multi_ref(h, p, f, r, l);
        if got != want {
            return Err(format!("{n} leaves, subset {set:b}: {got:?} instead of {want:?} for proof {p:x?} flags {f:?} leaves {l:x?}"));
        }
        // soundness: nothing outside of the tree verifies
        if got == Ok(true) && !l.iter().all(|x| t.contains(x)) {
            return Err(format!("{n} leaves: a value outside of the tree verifies"));
        }
        Ok(got == Ok(true))
    };
    for k in 0..f.len() {
        let mut g = f.clone();
        g[k] = !g[k];
        cmp(&p, &g, t[0], &l)?;
        cmp(&p, &[&f[..k], &f[k + 1..]].concat(), t[0], &l)?;
        for v in [false, true] {
            let mut g = f.clone();
            g.insert(k, v);
            cmp(&p, &g, t[0], &l)?;
            for x in [t[0], outsider] {
                cmp(&[p.clone(), vec![x]].concat(), &g, t[0], &l)?;
                cmp(&p, &g, t[0], &[l.clone(), vec![x]].concat())?;
            }
        }
    }
    for k in 0..p.len() {
        cmp(&[&p[..k], &p[k + 1..]].concat(), &f, t[0], &l)?;
        for x in t.iter().chain([&outsider]) {
            let mut q = p.clone();
            q[k] = *x;
            cmp(&q, &f, t[0], &l)?;
        }
    }
    for k in 0..l.len() {
        let mut q = l.clone();
        q[k] = outsider;
        if cmp(&p, &f, t[0], &q)? {
            return Err("a value outside of the tree verifies".into());
        }
        cmp(&p, &f, t[0], &[&l[..k], &l[k + 1..]].concat())?;
        for j in 0..k {
            let mut q = l.clone();
            q.swap(j, k);
            cmp(&p, &f, t[0], &q)?;
        }
    }
    for x in t.iter().skip(1).chain([&outsider]) {
        if cmp(&p, &f, *x, &l)? {
            return Err("another root is accepted".into());
        }
    }
    Ok(cases)
}
/// Every proof, flag vector and list of leaves over the nodes of a tree.
fn all_inputs(n: usize, ll: usize, pl: usize, flags: &[bool], real: bool) -> Result<u64, String> {
    let h: Hf = if real { keccak256 } else { toy };
    let ls: Vec<B32> = (0..n).map(|i| leaf(0, i)).collect();
    let t = tree(h, &ls);
    let mut al = t.clone();
    al.push(keccak256(b"outsider"));
    let mut cases = 0;
    for lw in words(al.len(), ll) {
        let l: Vec<B32> = lw.iter().map(|i| al[*i]).collect();
        for pw in words(al.len(), pl) {
            let p: Vec<B32> = pw.iter().map(|i| al[*i]).collect();
            cases += 1;
            let got = quiet(|| verify_multi(real, &p, flags, t[0], &l)).ok_or("panicked")?;
            let want = multi_ref(h, &p, flags, t[0], &l);
            if got != want {
                return Err(format!("{got:?} instead of {want:?} for leaves {lw:?}, proof {pw:?}, flags {flags:?}"));
            }
            if got == Ok(true) && lw.contains(&(al.len() - 1)) {
                return Err(format!("a value outside of the tree verifies: leaves {lw:?}, proof {pw:?}, flags {flags:?}"));
            }
        }
    }
    Ok(cases)
}
/// A path of `len` elements: the proof verifies, every shorter or longer one and
/// every change of one element does not.
fn deep(len: usize, kind: usize) -> Result<u64, String> {
    let el = |i: usize| -> B32 {
        match kind {
            0 => keccak256(&[b"el", &i.to_be_bytes()[..]].concat()),
            1 => [0; 32],
            2 => [0xff; 32],
            _ => {
                let mut x = [if i % 2 == 0 { 0 } else { 0xff }; 32];
                x[24..].copy_from_slice(&(i as u64).to_be_bytes());
                x
            }
        }
    };
    let leaf = keccak256(b"leaf");
    let p: Vec<B32> = (0..len).map(el).collect();
    let mut at = vec![leaf];
    for x in &p {
        at.push(node(keccak256, at.last().unwrap(), x));
    }
    let root = at[len];
    let mut cases = 0;
    let mut is = |p: &[B32], r: B32, l: B32, want: bool, what: String| -> Result<(), String> {
        cases += 1;
        if verify(true, p, r, l) != want {
            return Err(format!("path of {len} (family {kind}): {} {what}", if want { "refused" } else { "accepted" }));
        }
        Ok(())
    };
    is(&p, root, leaf, true, "as given".into())?;
    for k in 0..=len {
        is(&p[k..], root, at[k], true, format!("from level {k}"))?;
        is(&p[..k], at[k], leaf, true, format!("up to level {k}"))?;
        if k < len {
            is(&p[..k], root, leaf, false, format!("cut at {k}"))?;
            is(&p[k + 1..], root, at[k], false, format!("starting above {k}"))?;
            let mut q = p.clone();
            q[k][k % 32] ^= 1 << (k % 8);
            is(&q, root, leaf, false, format!("changed at {k}"))?;
        }
    }
    is(&[p.clone(), vec![root]].concat(), root, leaf, false, "extended by the root".into())?;
    is(&[p.clone(), vec![[0; 32]]].concat(), root, leaf, false, "extended by zero".into())?;
    // the same path as a multi-proof with one leaf
    same!(format!("path of {len} as a multi-proof"), verify_multi(true, &p, &vec![false; len], root, &[leaf]), Ok(true));
    for k in 0..len {
        let mut f = vec![false; len];
        f[k] = true;
        same!(format!("path of {len}, flag {k}"), quiet(|| verify_multi(true, &p, &f, root, &[leaf])), Some(multi_ref(keccak256, &p, &f, root, &[leaf])));
    }
    Ok(cases + len as u64 + 1)
}
/// Large trees with regular subsets.
fn large(n: usize, which: usize) -> Result<u64, String> {
    let ls: Vec<B32> = (0..n).map(|i| keccak256(&(i as u64).to_be_bytes())).collect();
    let t = tree(keccak256, &ls);
    let mut cases = 0;
    let parts: Vec<Vec<usize>> = match which {
        0 => vec![(0..n).collect(), vec![]],
        1 => (0..n).map(|i| vec![i]).collect(),
        2 => (1..n).step_by(1 + n / 24).map(|i| (0..i).collect()).collect(),
        3 => (1..n).step_by(1 + n / 24).map(|i| (i..n).collect()).collect(),
        4 => (2..9).flat_map(|m| (0..m).map(move |r| (0..n).filter(|i| i % m == r).collect())).collect(),
        _ => (0..n).map(|i| (0..n).filter(|j| *j != i).collect()).collect(),
    };
    for part in parts {
        let idx: Vec<usize> = (n - 1..2 * n - 1).rev().filter(|i| part.contains(&(2 * n - 2 - i))).collect();
        let (p, f, l) = multi(&t, &idx);
        cases += 1;
        same!(format!("{n} leaves, {} of them", l.len()), verify_multi(true, &p, &f, t[0], &l), Ok(true));
        for k in (0..l.len()).step_by(1 + l.len() / 6) {
            let mut q = l.clone();
            q[k][31] ^= 1;
            cases += 1;
            same!(format!("{n} leaves, leaf {k} of {} changed", l.len()), verify_multi(true, &p, &f, t[0], &q), Ok(false));
        }
        for k in (0..f.len()).step_by(1 + f.len() / 12) {
            let mut g = f.clone();
            g[k] = !g[k];
            cases += 1;
            same!(format!("{n} leaves, flag {k} of {} turned", f.len()), quiet(|| verify_multi(true, &p, &g, t[0], &l)), Some(multi_ref(keccak256, &p, &g, t[0], &l)));
        }
        for k in (0..p.len()).step_by(1 + p.len() / 12) {
            let mut q = p.clone();
            q[k][0] ^= 0x80;
            cases += 1;
            same!(format!("{n} leaves, element {k} of {} changed", p.len()), verify_multi(true, &q, &f, t[0], &l), Ok(false));
        }
    }
    if which == 1 {
        for i in n - 1..2 * n - 1 {
            cases += 1;
            if !verify(true, &proof(&t, i), t[0], t[i]) || verify(true, &proof(&t, i), t[0], t[(i + 1) % t.len()]) {
                return Err(format!("{n} leaves: the proof of node {i}"));
            }
        }
    }
    Ok(cases)
}
fn c31(ck: &mut Check) {
    let th = ck.thorough();
    let nmax = if th { 33 } else { 17 };
    let mut items = vec![];
    for n in 1..=nmax {
        for kind in 0..3 {
            for real in [true, false] {
                items.push((n, kind, real));
            }
        }
    }
    let tot = std::sync::atomic::AtomicU64::new(0);
    let add = |k: u64| {
        tot.fetch_add(k, std::sync::atomic::Ordering::Relaxed);
        Ok(true)
    };
    ck.enumerate("single proofs", "all complete trees of 1..n leaves (three leaf families, Keccak and another hasher): each leaf, every other leaf and root, every proof with one element changed (bits), replaced by any node, removed, inserted, exchanged", &items, |(n, k, r)| single(*n, *k, *r, th).and_then(add));
    let mut items = vec![];
    for n in 1..=if th { 11usize } else { 8 } {
        for set in 0..1u32 << n {
            for kind in 0..if n <= 5 { 3 } else { 1 } {
                items.push((n, kind, true, set));
                if n <= 6 {
                    items.push((n, kind, false, set));
                }
            }
        }
    }
    ck.enumerate("multi-proofs", "all trees, all subsets of leaves, every single mutation of flags, proof, leaves and root against the documented algorithm", &items, |(n, k, r, s)| subsets(*n, *k, *r, *s).and_then(add));
    let mut items = vec![];
    for (n, max) in [(1usize, 4usize), (2, 4), (3, if th { 4 } else { 3 }), (4, if th { 4 } else { 3 })] {
        for ll in 0..=max {
            for pl in 0..=max {
                if ll + pl > if th { 6 } else { 5 } {
                    continue;
                }
                for fl in 0..=6usize {
                    // mismatched lengths need only a few flag vectors
                    for fw in words(2, fl) {
                        if ll + pl != fl + 1 && fw.iter().skip(1).any(|x| *x == 1) {
                            continue;
                        }
                        let f: Vec<bool> = fw.iter().map(|x| *x == 1).collect();
                        items.push((n, ll, pl, f.clone(), true));
                    }
                }
            }
        }
    }
    ck.enumerate("all multi-proof inputs", "trees of 1..4 leaves; every list of leaves, list of proof elements (over all nodes and an outsider) and flag vector", &items, |(n, l, p, f, r)| all_inputs(*n, *l, *p, f, *r).and_then(add));
    let items: Vec<(usize, usize)> = (0..=if th { 300usize } else { 130 }).chain([255, 256, 257]).flat_map(|l| (0..4).map(move |k| (l, k))).collect();
    ck.enumerate("long paths", "paths of 0..130 (thorough 300) and 255..257 elements of four families: every cut, every changed element, every intermediate level; the same as multi-proofs", &items, |(l, k)| deep(*l, *k).and_then(add));
    let items: Vec<(usize, usize)> = [18usize, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257].iter().chain(if th { &[500usize, 512, 1000, 1025][..] } else { &[] }).flat_map(|l| (0..6).map(move |k| (*l, k))).collect();
    ck.enumerate("large trees", "18 to 257 (thorough 1025) leaves: all leaves, none, each one, all but each one, prefixes, suffixes, residue classes", &items, |(l, k)| large(*l, *k).and_then(add));
    let n = tot.load(std::sync::atomic::Ordering::Relaxed);
    if let Some(s) = ck.stats.last_mut() {
        s.states = n;
        s.transitions = n;
        s.traces = n;
        s.accepted = n;
    }
    ck.assume("no Keccak-256 collision among the enumerated values");
}

struct Word(Vec<u8>);
impl Hash for Word {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.update(&self.0);
    }
}
#[derive(PartialEq, PartialOrd)]
struct Num(u32);
impl Hash for Num {
    fn hash<H: Hasher>(&self, s: &mut H) {
        // two updates
        s.update((self.0 >> 16).to_be_bytes());
        s.update([self.0 as u8, 7]);
    }
}
fn num_bytes(x: u32) -> Vec<u8> {
    [&(x >> 16).to_be_bytes()[..], &[x as u8, 7]].concat()
}
fn c32(ck: &mut Check) {
    let th = ck.thorough();
    // the reference itself, against published digests
    let hex = |b: B32| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    ck.fact("reference digest of the empty string", (hex(keccak256(b"")) == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470").then_some(()).ok_or("reference".into()));
    ck.fact("reference digest of abc", (hex(keccak256(b"abc")) == "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45").then_some(()).ok_or("reference".into()));
    let max = if th { 700 } else { 420 };
    let data: Vec<u8> = (0..max as u32).map(|i| (i.wrapping_mul(167) ^ (i >> 3)) as u8).collect();
    let lens: Vec<usize> = (0..=max).collect();
    ck.enumerate("lengths and splits", "all lengths across several sponge blocks, in one update, byte by byte, and every split into two updates (and with an empty update)", &lens, |n| {
        let d = &data[..*n];
        let want = keccak256(d);
        let one = |parts: &[&[u8]]| {
            let mut h = KeccakBuilder.build_hasher();
            for p in parts {
                h.update(p);
            }
            h.finalize()
        };
        same!(format!("length {n}"), one(&[d]), want);
        same!(format!("length {n}, bytes"), one(&d.chunks(1).collect::<Vec<_>>()), want);
        same!(format!("length {n}, hash_one"), KeccakBuilder.hash_one(Word(d.to_vec())), want);
        for k in 0..=*n {
            same!(format!("length {n} split at {k}"), one(&[&d[..k], &d[k..]]), want);
        }
        for c in [3, 8, 64, 135, 136, 137] {
            same!(format!("length {n} chunks of {c}"), one(&d.chunks(c).collect::<Vec<_>>()), want);
        }
        same!("empty updates", one(&[b"", d, b""]), want);
        for fill in [0u8, 0xff, 1, 0x80] {
            let v = vec![fill; *n];
            same!(format!("length {n} of {fill:#x}"), one(&[&v]), keccak256(&v));
        }
        Ok(true)
    });
    let lens: Vec<usize> = [1000usize, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 65537, 100_000].to_vec();
    ck.enumerate("long messages", "messages of 1000 to 100000 bytes in one update and in chunks of 1, 32, 136, 4096 bytes", &lens, |n| {
        let d: Vec<u8> = (0..*n as u32).map(|i| (i.wrapping_mul(2654435761) >> 24) as u8).collect();
        let want = keccak256(&d);
        for c in [1usize, 32, 136, 4096, *n] {
            let mut h = KeccakBuilder.build_hasher();
            for p in d.chunks(c) {
                h.update(p);
            }
            same!(format!("length {n} chunks of {c}"), h.finalize(), want);
        }
        Ok(true)
    });
    let mut trip = vec![];
    for n in [1usize, 135, 136, 137, 271, 272, 273] {
        for i in 0..=n {
            trip.push((n, i));
        }
    }
    ck.enumerate("three updates", "all splits into three updates of lengths around the block boundaries", &trip, |(n, i)| {
        let d = &data[..*n];
        let want = keccak256(d);
        for j in (*i..=*n).step_by(if th || *n < 138 { 1 } else { 3 }) {
            let mut h = KeccakBuilder.build_hasher();
            h.update(&d[..*i]);
            h.update(d[*i..j].to_vec());
            h.update(&d[j..]);
            same!(format!("length {n} split at {i}, {j}"), h.finalize(), want);
        }
        Ok(true)
    });
    // pairs that differ at one or two byte positions
    let mut al: Vec<B32> = vec![[0; 32], [0xff; 32], [0x7f; 32], [0x80; 32]];
    for i in 0..32 {
        for v in [1u8, 0x7f, 0x80, 0xff] {
            let mut x = [0; 32];
            x[i] = v;
            al.push(x);
            let mut x = [0x80; 32];
            x[i] ^= v;
            al.push(x);
        }
    }
    let items: Vec<usize> = (0..al.len()).collect();
    ck.enumerate("pairs", "all ordered pairs over values that differ in each byte position, equal pairs included: hash_pair, commutative_hash_pair, both hashers", &items, |i| {
        let a = al[*i];
        same!("hash of one word", KeccakBuilder.hash_one(a), keccak256(&a));
        for b in al.iter() {
            let ab = keccak256(&[&a[..], &b[..]].concat());
            same!(format!("hash_pair({a:x?}, {b:x?})"), hash_pair(&a, b, KeccakBuilder.build_hasher()), ab);
            let s = node(keccak256, &a, b);
            same!(format!("commutative_hash_pair({a:x?}, {b:x?})"), commutative_hash_pair(&a, b, KeccakBuilder.build_hasher()), s);
            same!(format!("commutative_hash_pair({b:x?}, {a:x?})"), commutative_hash_pair(b, &a, KeccakBuilder.build_hasher()), s);
            same!("other hasher", commutative_hash_pair(&a, b, Toy.build_hasher()), node(toy, &a, b));
        }
        Ok(true)
    });
    let nums: Vec<u32> = [0u32, 1, 2, 255, 256, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff].to_vec();
    ck.enumerate("pairs of other types", "values whose order differs from the order of their encodings, and a state that has already absorbed a prefix", &nums, |x| {
        for y in &nums {
            let (lo, hi) = if x <= y { (x, y) } else { (y, x) };
            for pre in [&b""[..], b"prefix"] {
                let st = || {
                    let mut h = KeccakBuilder.build_hasher();
                    h.update(pre);
                    h
                };
                same!("pair", hash_pair(&Num(*x), &Num(*y), st()), keccak256(&[pre, &num_bytes(*x), &num_bytes(*y)].concat()));
                same!("commutative pair", commutative_hash_pair(&Num(*x), &Num(*y), st()), keccak256(&[pre, &num_bytes(*lo), &num_bytes(*hi)].concat()));
            }
        }
        Ok(true)
    });
}
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let mut ck = Check::new(&id);
    match id.as_str() {
        "C31" => c31(&mut ck),
        "C32" => c32(&mut ck),
        _ => ck.fatal(format!("unknown property {id}")),
    }
    ck.finish()
}
