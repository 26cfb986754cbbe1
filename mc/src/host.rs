//! A small deterministic EVM/Stylus host implementing the `vm_hooks` imports
//! that compiled contracts link against.  The contracts under check are the
//! real library code; everything below this interface is ours.
//!
//! Storage caching follows Nitro: every call frame owns a cache; loads fill
//! it, stores only touch it, `flush(false)` persists dirty entries and keeps
//! the cache, `flush(true)` persists and drops it.  A successful frame is
//! flushed when it returns.  Reverts restore the complete world and the log.

use alloy_primitives::{Address, B256, U256};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub type NativeFn = fn(Vec<u8>) -> Result<Vec<u8>, Vec<u8>>;

#[derive(Clone, Copy)]
pub enum Code {
    None,
    Native(NativeFn),
}

#[derive(Clone)]
pub struct Acct {
    pub code: Code,
    pub storage: Arc<BTreeMap<B256, B256>>,
    pub balance: U256,
}

impl Default for Acct {
    fn default() -> Self {
        Acct { code: Code::None, storage: Arc::new(BTreeMap::new()), balance: U256::ZERO }
    }
}

#[derive(Clone, Default)]
pub struct World {
    pub accts: BTreeMap<Address, Acct>,
    pub timestamp: u64,
    pub chain_id: u64,
    pub block_number: u64,
}

impl World {
    pub fn acct(&mut self, a: Address) -> &mut Acct {
        self.accts.entry(a).or_default()
    }
    pub fn set_slot(&mut self, a: Address, slot: u64, v: U256) {
        let m = Arc::make_mut(&mut self.acct(a).storage);
        m.insert(B256::from(U256::from(slot)), B256::from(v));
    }
    /// A string in Solidity's storage layout.
    pub fn set_string(&mut self, a: Address, slot: u64, v: &str) {
        let b = v.as_bytes();
        if b.len() < 32 {
            let mut x = [0u8; 32];
            x[..b.len()].copy_from_slice(b);
            x[31] = (b.len() * 2) as u8;
            self.set_slot(a, slot, U256::from_be_bytes(x));
            return;
        }
        self.set_slot(a, slot, U256::from(b.len() * 2 + 1));
        let base = U256::from_be_bytes(crate::keccak(&U256::from(slot).to_be_bytes::<32>()).0);
        for (i, c) in b.chunks(32).enumerate() {
            let mut x = [0u8; 32];
            x[..c.len()].copy_from_slice(c);
            let m = Arc::make_mut(&mut self.acct(a).storage);
            m.insert(B256::from(base + U256::from(i)), B256::from(x));
        }
    }
    pub fn get_slot(&self, a: Address, slot: u64) -> U256 {
        self.accts
            .get(&a)
            .and_then(|x| x.storage.get(&B256::from(U256::from(slot))))
            .map(|b| U256::from_be_bytes(b.0))
            .unwrap_or(U256::ZERO)
    }
    /// 128-bit fingerprint of everything observable in the world.
    pub fn fingerprint(&self) -> u128 {
        use std::collections::hash_map::DefaultHasher;
        use std::hash::Hasher;
        let mut h1 = DefaultHasher::new();
        let mut h2 = DefaultHasher::new();
        h2.write_u64(0x9e37_79b9_7f4a_7c15);
        let mut put = |b: &[u8]| {
            h1.write(b);
            h2.write(b);
        };
        put(&self.timestamp.to_be_bytes());
        put(&self.chain_id.to_be_bytes());
        for (a, c) in &self.accts {
            put(a.as_slice());
            put(&c.balance.to_be_bytes::<32>());
            for (k, v) in c.storage.iter() {
                if !v.is_zero() {
                    put(k.as_slice());
                    put(v.as_slice());
                }
            }
        }
        ((h1.finish() as u128) << 64) | h2.finish() as u128
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Log {
    pub addr: Address,
    pub topics: Vec<B256>,
    pub data: Vec<u8>,
}

/// One external call made by contract code (recorded for the oracles).
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CallRec {
    pub depth: usize,
    pub from: Address,
    pub to: Address,
    pub value: U256,
    pub is_static: bool,
    pub data: Vec<u8>,
    pub ok: bool,
    pub ret: Vec<u8>,
}

struct Entry {
    value: B256,
    known: Option<B256>,
}

struct Frame {
    me: Address,
    sender: Address,
    value: U256,
    is_static: bool,
    trapped: bool,
    reentrant: bool,
    cache: HashMap<B256, Entry>,
    return_data: Vec<u8>,
}

pub struct Vm {
    pub world: World,
    pub logs: Vec<Log>,
    pub calls: Vec<CallRec>,
    pub tx_origin: Address,
    /// when false, a re-entrant call into a Native contract is refused, as
    /// the SDK entry point does without the `reentrant` feature.
    pub allow_reentry: bool,
    frames: Vec<Frame>,
    pub steps: u64,
    /// free-form control words for mock contracts
    pub ctl: Vec<u64>,
    /// blobs for mock contracts (scripts, replies)
    pub blobs: Vec<Vec<u8>>,
    /// which frames may be re-entered: mock bookkeeping
    pub notes: Vec<String>,
}

impl Default for Vm {
    fn default() -> Self {
        Vm {
            world: World::default(),
            logs: vec![],
            calls: vec![],
            tx_origin: Address::ZERO,
            allow_reentry: true,
            frames: vec![],
            steps: 0,
            ctl: vec![],
            blobs: vec![],
            notes: vec![],
        }
    }
}

thread_local! {
    static VM: RefCell<Vm> = RefCell::new(Vm::default());
}

pub fn with<R>(f: impl FnOnce(&mut Vm) -> R) -> R {
    VM.with(|v| f(&mut v.borrow_mut()))
}

pub const EOA_CODEHASH: [u8; 32] = [
    0xc5, 0xd2, 0x46, 0x01, 0x86, 0xf7, 0x23, 0x3c, 0x92, 0x7e, 0x7d, 0xb2, 0xdc, 0xc7, 0x03, 0xc0, 0xe5, 0x00,
    0xb6, 0x53, 0xca, 0x82, 0x27, 0x3b, 0x7b, 0xfa, 0xd8, 0x04, 0x5d, 0x85, 0xa4, 0x70,
];

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Out {
    pub ok: bool,
    pub panicked: bool,
    pub data: Vec<u8>,
}

fn flush_frame(vm: &mut Vm, clear: bool) {
    let Some(fr) = vm.frames.last_mut() else { return };
    let me = fr.me;
    let mut writes: Vec<(B256, B256)> = vec![];
    for (k, e) in fr.cache.iter_mut() {
        if e.known != Some(e.value) {
            writes.push((*k, e.value));
            e.known = Some(e.value);
        }
    }
    if fr.is_static && !writes.is_empty() {
        fr.trapped = true;
        return;
    }
    if clear {
        fr.cache.clear();
    }
    if !writes.is_empty() {
        let st = Arc::make_mut(&mut vm.world.acct(me).storage);
        for (k, v) in writes {
            if v.is_zero() {
                st.remove(&k);
            } else {
                st.insert(k, v);
            }
        }
    }
}

fn precompile(to: &Address, data: &[u8]) -> Option<Vec<u8>> {
    let w = to.as_slice();
    if w[..19].iter().any(|b| *b != 0) || w[19] == 0 || w[19] > 9 {
        return None;
    }
    if w[19] == 1 {
        return Some(ecrecover(data));
    }
    Some(vec![])
}

/// Precompile 0x1, per the yellow paper: empty output when invalid.
pub fn ecrecover(data: &[u8]) -> Vec<u8> {
    let mut b = [0u8; 128];
    let n = data.len().min(128);
    b[..n].copy_from_slice(&data[..n]);
    if b[32..63].iter().any(|x| *x != 0) || (b[63] != 27 && b[63] != 28) {
        return vec![];
    }
    let Ok(sig) = k256::ecdsa::Signature::from_slice(&b[64..128]) else { return vec![] };
    let Some(rid) = k256::ecdsa::RecoveryId::from_byte(b[63] - 27) else { return vec![] };
    // k256 refuses high-s in recovery; the precompile does not: normalise.
    let (sig, rid) = match sig.normalize_s() {
        Some(n) => (n, k256::ecdsa::RecoveryId::new(!rid.is_y_odd(), rid.is_x_reduced())),
        None => (sig, rid),
    };
    let Ok(key) = k256::ecdsa::VerifyingKey::recover_from_prehash(&b[..32], &sig, rid) else { return vec![] };
    let pt = key.to_encoded_point(false);
    let h = crate::keccak(&pt.as_bytes()[1..]);
    let mut out = vec![0u8; 32];
    out[12..].copy_from_slice(&h.0[12..]);
    out
}

fn do_call(from: Address, to: Address, value: U256, data: Vec<u8>, is_static: bool) -> Out {
    // snapshot
    enum Prep {
        Done(Out),
        Run(NativeFn),
    }
    let (snap, nlogs, prep) = with(|vm| {
        vm.steps += 1;
        let snap = vm.world.clone();
        let nlogs = vm.logs.len();
        let parent_static = vm.frames.last().map(|f| f.is_static).unwrap_or(false);
        let is_static = is_static || parent_static;
        if is_static && !value.is_zero() {
            return (snap, nlogs, Prep::Done(Out { ok: false, panicked: false, data: vec![] }));
        }
        if vm.frames.len() > 40 {
            return (snap, nlogs, Prep::Done(Out { ok: false, panicked: false, data: vec![] }));
        }
        if !value.is_zero() {
            let b = vm.world.acct(from).balance;
            if b < value {
                return (snap, nlogs, Prep::Done(Out { ok: false, panicked: false, data: vec![] }));
            }
            vm.world.acct(from).balance = b - value;
            let t = vm.world.acct(to);
            t.balance = t.balance.wrapping_add(value);
        }
        if let Some(out) = precompile(&to, &data) {
            return (snap, nlogs, Prep::Done(Out { ok: true, panicked: false, data: out }));
        }
        match vm.world.accts.get(&to).map(|a| a.code).unwrap_or(Code::None) {
            Code::None => (snap, nlogs, Prep::Done(Out { ok: true, panicked: false, data: vec![] })),
            Code::Native(f) => {
                let reentrant = vm.frames.iter().any(|fr| fr.me == to);
                if reentrant && !vm.allow_reentry {
                    return (snap, nlogs, Prep::Done(Out { ok: false, panicked: false, data: vec![] }));
                }
                vm.frames.push(Frame {
                    me: to,
                    sender: from,
                    value,
                    is_static,
                    trapped: false,
                    reentrant,
                    cache: HashMap::new(),
                    return_data: vec![],
                });
                (snap, nlogs, Prep::Run(f))
            }
        }
    });
    let f = match prep {
        Prep::Done(o) => {
            if !o.ok {
                with(|vm| vm.world = snap);
            }
            return o;
        }
        Prep::Run(f) => f,
    };
    let res = catch_unwind(AssertUnwindSafe(|| f(data)));
    with(|vm| {
        let out = match res {
            Ok(Ok(d)) => {
                flush_frame(vm, true);
                if vm.frames.last().unwrap().trapped {
                    Out { ok: false, panicked: true, data: vec![] }
                } else {
                    Out { ok: true, panicked: false, data: d }
                }
            }
            Ok(Err(d)) => Out { ok: false, panicked: false, data: d },
            Err(_) => Out { ok: false, panicked: true, data: vec![] },
        };
        vm.frames.pop();
        if !out.ok {
            vm.world = snap;
            vm.logs.truncate(nlogs);
        }
        out
    })
}

/// Every transaction is sent by this account; the accounts of the checks act
/// through wallet contracts, so caller and origin always differ.
pub const ORIGIN: Address = Address::new([0x0f; 20]);

/// A top-level transaction.  Logs and call records are reset first.
pub fn tx(from: Address, to: Address, value: U256, data: Vec<u8>) -> Out {
    with(|vm| {
        vm.logs.clear();
        vm.calls.clear();
        vm.notes.clear();
        vm.frames.clear();
        vm.tx_origin = ORIGIN;
    });
    do_call(from, to, value, data, false)
}

/// A read-only top-level call; any write attempt fails it.
pub fn view(from: Address, to: Address, data: Vec<u8>) -> Out {
    with(|vm| {
        vm.frames.clear();
        vm.tx_origin = ORIGIN;
    });
    do_call(from, to, U256::ZERO, data, true)
}

/// A nested call made by a mock contract (as the currently running frame).
pub fn sub_call(to: Address, value: U256, data: Vec<u8>) -> Out {
    let me = with(|vm| vm.frames.last().unwrap().me);
    record_call(me, to, value, data, false)
}

/// Storage of the running mock frame.
pub fn my_slot(slot: u64) -> U256 {
    with(|vm| {
        let me = vm.frames.last().unwrap().me;
        vm.world.get_slot(me, slot)
    })
}
pub fn set_my_slot(slot: u64, v: U256) {
    with(|vm| {
        let fr = vm.frames.last_mut().unwrap();
        if fr.is_static {
            fr.trapped = true;
            return;
        }
        let me = fr.me;
        vm.world.set_slot(me, slot, v)
    })
}
pub fn me() -> Address {
    with(|vm| vm.frames.last().unwrap().me)
}
pub fn caller() -> Address {
    with(|vm| vm.frames.last().unwrap().sender)
}
pub fn callvalue() -> U256 {
    with(|vm| vm.frames.last().unwrap().value)
}
/// How many frames of `a` are on the stack.
pub fn on_stack(a: Address) -> usize {
    with(|vm| vm.frames.iter().filter(|f| f.me == a).count())
}

fn record_call(from: Address, to: Address, value: U256, data: Vec<u8>, is_static: bool) -> Out {
    let idx = with(|vm| {
        let depth = vm.frames.len();
        vm.calls.push(CallRec { depth, from, to, value, is_static, data: data.clone(), ok: false, ret: vec![] });
        vm.calls.len() - 1
    });
    let out = do_call(from, to, value, data, is_static);
    with(|vm| {
        vm.calls[idx].ok = out.ok;
        vm.calls[idx].ret = out.data.clone();
        if let Some(f) = vm.frames.last_mut() {
            f.return_data = out.data.clone();
        }
    });
    out
}

/// Quiet panics: contract panics are reverts, not harness failures.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let in_contract = VM.with(|v| v.try_borrow().map(|v| !v.frames.is_empty()).unwrap_or(false));
        if !in_contract && !crate::QUIET.with(|q| q.get()) {
            eprintln!("harness panic: {info}");
        }
    }));
}

// ---------------------------------------------------------------- vm_hooks

unsafe fn rd20(p: *const u8) -> Address {
    Address::from_slice(std::slice::from_raw_parts(p, 20))
}
unsafe fn rd32(p: *const u8) -> B256 {
    B256::from_slice(std::slice::from_raw_parts(p, 32))
}
unsafe fn wr(p: *mut u8, b: &[u8]) {
    std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
}
unsafe fn rdv(p: *const u8, n: usize) -> Vec<u8> {
    if n == 0 {
        vec![]
    } else {
        std::slice::from_raw_parts(p, n).to_vec()
    }
}

#[no_mangle]
pub unsafe extern "C" fn account_balance(a: *const u8, dest: *mut u8) {
    let a = rd20(a);
    let b = with(|vm| vm.world.accts.get(&a).map(|x| x.balance).unwrap_or(U256::ZERO));
    wr(dest, &b.to_be_bytes::<32>());
}
fn has_code(a: &Address) -> bool {
    with(|vm| matches!(vm.world.accts.get(a).map(|x| x.code), Some(Code::Native(_))))
}
#[no_mangle]
pub unsafe extern "C" fn account_code(a: *const u8, offset: usize, size: usize, dest: *mut u8) -> usize {
    let a = rd20(a);
    let code: &[u8] = if has_code(&a) { &[0xef, 0xf0, 0x00, 0x00] } else { &[] };
    if offset >= code.len() {
        return 0;
    }
    let n = size.min(code.len() - offset);
    wr(dest, &code[offset..offset + n]);
    n
}
#[no_mangle]
pub unsafe extern "C" fn account_code_size(a: *const u8) -> usize {
    if has_code(&rd20(a)) {
        4
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn account_codehash(a: *const u8, dest: *mut u8) {
    let a = rd20(a);
    if has_code(&a) {
        let mut h = crate::keccak(a.as_slice()).0;
        h[0] ^= 0x5a;
        wr(dest, &h);
    } else {
        // an existing account without code; a non-existing one has hash 0
        let exists = with(|vm| vm.world.accts.get(&a).map(|x| !x.balance.is_zero()).unwrap_or(false));
        if exists {
            wr(dest, &EOA_CODEHASH);
        } else {
            wr(dest, &[0u8; 32]);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn storage_load_bytes32(key: *const u8, dest: *mut u8) {
    let k = rd32(key);
    let v = with(|vm| {
        let Vm { world, frames, .. } = vm;
        let Some(fr) = frames.last_mut() else { return B256::ZERO };
        if let Some(e) = fr.cache.get(&k) {
            return e.value;
        }
        let v = world.accts.get(&fr.me).and_then(|a| a.storage.get(&k)).copied().unwrap_or(B256::ZERO);
        fr.cache.insert(k, Entry { value: v, known: Some(v) });
        v
    });
    wr(dest, v.as_slice());
}
#[no_mangle]
pub unsafe extern "C" fn storage_cache_bytes32(key: *const u8, value: *const u8) {
    let (k, v) = (rd32(key), rd32(value));
    with(|vm| {
        let Some(fr) = vm.frames.last_mut() else { return };
        match fr.cache.get_mut(&k) {
            Some(e) => e.value = v,
            None => {
                fr.cache.insert(k, Entry { value: v, known: None });
            }
        }
    });
}
#[no_mangle]
pub unsafe extern "C" fn storage_flush_cache(clear: bool) {
    with(|vm| flush_frame(vm, clear));
}
#[no_mangle]
pub unsafe extern "C" fn block_basefee(d: *mut u8) {
    wr(d, &[0u8; 32]);
}
#[no_mangle]
pub unsafe extern "C" fn chainid() -> u64 {
    with(|vm| vm.world.chain_id)
}
#[no_mangle]
pub unsafe extern "C" fn block_coinbase(d: *mut u8) {
    wr(d, &[0u8; 20]);
}
#[no_mangle]
pub unsafe extern "C" fn block_gas_limit() -> u64 {
    1 << 40
}
#[no_mangle]
pub unsafe extern "C" fn block_number() -> u64 {
    with(|vm| vm.world.block_number)
}
#[no_mangle]
pub unsafe extern "C" fn block_timestamp() -> u64 {
    with(|vm| vm.world.timestamp)
}
#[no_mangle]
pub unsafe extern "C" fn call_contract(
    c: *const u8,
    cd: *const u8,
    n: usize,
    value: *const u8,
    _gas: u64,
    rlen: *mut usize,
) -> u8 {
    let from = with(|vm| vm.frames.last().map(|f| f.me).unwrap_or(Address::ZERO));
    let out = record_call(from, rd20(c), U256::from_be_bytes(rd32(value).0), rdv(cd, n), false);
    *rlen = out.data.len();
    if out.ok {
        0
    } else {
        1
    }
}
#[no_mangle]
pub unsafe extern "C" fn static_call_contract(
    c: *const u8,
    cd: *const u8,
    n: usize,
    _gas: u64,
    rlen: *mut usize,
) -> u8 {
    let from = with(|vm| vm.frames.last().map(|f| f.me).unwrap_or(Address::ZERO));
    let out = record_call(from, rd20(c), U256::ZERO, rdv(cd, n), true);
    *rlen = out.data.len();
    if out.ok {
        0
    } else {
        1
    }
}
#[no_mangle]
pub unsafe extern "C" fn delegate_call_contract(
    _c: *const u8,
    _cd: *const u8,
    _n: usize,
    _gas: u64,
    rlen: *mut usize,
) -> u8 {
    *rlen = 0;
    1
}
#[no_mangle]
pub unsafe extern "C" fn contract_address(d: *mut u8) {
    let a = with(|vm| vm.frames.last().map(|f| f.me).unwrap_or(Address::ZERO));
    wr(d, a.as_slice());
}
#[no_mangle]
pub unsafe extern "C" fn create1(_c: *const u8, _n: usize, _e: *const u8, d: *mut u8, r: *mut usize) {
    wr(d, &[0u8; 20]);
    *r = 0;
}
#[no_mangle]
pub unsafe extern "C" fn create2(_c: *const u8, _n: usize, _e: *const u8, _s: *const u8, d: *mut u8, r: *mut usize) {
    wr(d, &[0u8; 20]);
    *r = 0;
}
#[no_mangle]
pub unsafe extern "C" fn emit_log(data: *const u8, len: usize, topics: usize) {
    let raw = rdv(data, len);
    with(|vm| {
        let Some(fr) = vm.frames.last_mut() else { return };
        if fr.is_static || raw.len() < topics * 32 || topics > 4 {
            fr.trapped = true;
            return;
        }
        let addr = fr.me;
        let t = (0..topics).map(|i| B256::from_slice(&raw[i * 32..i * 32 + 32])).collect();
        vm.logs.push(Log { addr, topics: t, data: raw[topics * 32..].to_vec() });
    });
}
#[no_mangle]
pub unsafe extern "C" fn evm_gas_left() -> u64 {
    1 << 40
}
#[no_mangle]
pub unsafe extern "C" fn evm_ink_left() -> u64 {
    1 << 50
}
#[no_mangle]
pub unsafe extern "C" fn pay_for_memory_grow(_p: u16) {}
#[no_mangle]
pub unsafe extern "C" fn msg_reentrant() -> bool {
    with(|vm| vm.frames.last().map(|f| f.reentrant).unwrap_or(false))
}
#[no_mangle]
pub unsafe extern "C" fn msg_sender(d: *mut u8) {
    let a = with(|vm| vm.frames.last().map(|f| f.sender).unwrap_or(Address::ZERO));
    wr(d, a.as_slice());
}
#[no_mangle]
pub unsafe extern "C" fn msg_value(d: *mut u8) {
    let v = with(|vm| vm.frames.last().map(|f| f.value).unwrap_or(U256::ZERO));
    wr(d, &v.to_be_bytes::<32>());
}
#[no_mangle]
pub unsafe extern "C" fn native_keccak256(b: *const u8, n: usize, out: *mut u8) {
    let h = crate::keccak(&rdv(b, n));
    wr(out, h.as_slice());
}
#[no_mangle]
pub unsafe extern "C" fn read_args(_d: *mut u8) {}
#[no_mangle]
pub unsafe extern "C" fn read_return_data(d: *mut u8, offset: usize, size: usize) -> usize {
    let r = with(|vm| vm.frames.last().map(|f| f.return_data.clone()).unwrap_or_default());
    if offset >= r.len() {
        return 0;
    }
    let n = size.min(r.len() - offset);
    wr(d, &r[offset..offset + n]);
    n
}
#[no_mangle]
pub unsafe extern "C" fn write_result(_d: *const u8, _n: usize) {}
#[no_mangle]
pub unsafe extern "C" fn return_data_size() -> usize {
    with(|vm| vm.frames.last().map(|f| f.return_data.len()).unwrap_or(0))
}
#[no_mangle]
pub unsafe extern "C" fn tx_gas_price(d: *mut u8) {
    wr(d, &[0u8; 32]);
}
#[no_mangle]
pub unsafe extern "C" fn tx_ink_price() -> u32 {
    10_000
}
#[no_mangle]
pub unsafe extern "C" fn tx_origin(d: *mut u8) {
    let a = with(|vm| vm.tx_origin);
    wr(d, a.as_slice());
}
#[no_mangle]
pub unsafe extern "C" fn log_txt(_t: *const u8, _n: usize) {}
#[no_mangle]
pub unsafe extern "C" fn log_i32(_v: i32) {}
#[no_mangle]
pub unsafe extern "C" fn log_i64(_v: i64) {}
#[no_mangle]
pub unsafe extern "C" fn log_f32(_v: f32) {}
#[no_mangle]
pub unsafe extern "C" fn log_f64(_v: f64) {}

/// Keyed storage of the running mock frame.
pub fn my_get(tag: u8, a: Address, b: Address) -> U256 {
    let k = mkey(tag, a, b);
    with(|vm| {
        let me = vm.frames.last().unwrap().me;
        vm.world.accts.get(&me).and_then(|x| x.storage.get(&k)).map(|v| U256::from_be_bytes(v.0)).unwrap_or(U256::ZERO)
    })
}
pub fn my_set(tag: u8, a: Address, b: Address, v: U256) {
    let k = mkey(tag, a, b);
    with(|vm| {
        let fr = vm.frames.last_mut().unwrap();
        if fr.is_static {
            fr.trapped = true;
            return;
        }
        let me = fr.me;
        let st = Arc::make_mut(&mut vm.world.acct(me).storage);
        if v.is_zero() {
            st.remove(&k);
        } else {
            st.insert(k, B256::from(v));
        }
    })
}
fn mkey(tag: u8, a: Address, b: Address) -> B256 {
    let mut p = vec![tag];
    p.extend(a.as_slice());
    p.extend(b.as_slice());
    crate::keccak(&p)
}
pub fn mock_get(w: &World, t: Address, tag: u8, a: Address, b: Address) -> U256 {
    w.accts.get(&t).and_then(|x| x.storage.get(&mkey(tag, a, b))).map(|v| U256::from_be_bytes(v.0)).unwrap_or(U256::ZERO)
}
pub fn mock_put(w: &mut World, t: Address, tag: u8, a: Address, b: Address, v: U256) {
    let st = Arc::make_mut(&mut w.acct(t).storage);
    if v.is_zero() {
        st.remove(&mkey(tag, a, b));
    } else {
        st.insert(mkey(tag, a, b), B256::from(v));
    }
}
