//! Independent ABI encoding (does not use the SDK's or alloy's encoders).
use crate::host::Log;
use alloy_primitives::{Address, B256, U256};

#[derive(Clone, Debug)]
pub enum T {
    W(B256),
    Bytes(Vec<u8>),
    Arr(Vec<T>),  // dynamic array
    Tup(Vec<T>),  // tuple
}
pub fn w(v: u64) -> T {
    u(U256::from(v))
}
pub fn u(v: U256) -> T {
    T::W(B256::from(v))
}
pub fn a(v: Address) -> T {
    T::W(v.into_word())
}
pub fn b(v: bool) -> T {
    w(v as u64)
}
pub fn b32(v: B256) -> T {
    T::W(v)
}
pub fn b4(v: [u8; 4]) -> T {
    let mut x = [0u8; 32];
    x[..4].copy_from_slice(&v);
    T::W(B256::from(x))
}
pub fn bytes(v: &[u8]) -> T {
    T::Bytes(v.to_vec())
}
pub fn s(v: &str) -> T {
    T::Bytes(v.as_bytes().to_vec())
}
pub fn us(v: &[U256]) -> T {
    T::Arr(v.iter().map(|x| u(*x)).collect())
}
pub fn addrs(v: &[Address]) -> T {
    T::Arr(v.iter().map(|x| a(*x)).collect())
}
fn dynamic(t: &T) -> bool {
    match t {
        T::W(_) => false,
        T::Bytes(_) | T::Arr(_) => true,
        T::Tup(v) => v.iter().any(dynamic),
    }
}
fn word(n: usize) -> [u8; 32] {
    U256::from(n).to_be_bytes::<32>()
}
fn head_len(t: &T) -> usize {
    match t {
        T::Tup(v) if !dynamic(t) => v.iter().map(head_len).sum(),
        _ => 32,
    }
}
pub fn enc(ts: &[T]) -> Vec<u8> {
    let hl: usize = ts.iter().map(head_len).sum();
    let mut head = vec![];
    let mut tail: Vec<u8> = vec![];
    for t in ts {
        if dynamic(t) {
            head.extend(word(hl + tail.len()));
            match t {
                T::Bytes(v) => {
                    tail.extend(word(v.len()));
                    tail.extend(v);
                    while tail.len() % 32 != 0 {
                        tail.push(0);
                    }
                }
                T::Arr(v) => {
                    tail.extend(word(v.len()));
                    tail.extend(enc(v));
                }
                T::Tup(v) => tail.extend(enc(v)),
                T::W(_) => unreachable!(),
            }
        } else {
            match t {
                T::W(x) => head.extend(x.as_slice()),
                T::Tup(v) => head.extend(enc(v)),
                _ => unreachable!(),
            }
        }
    }
    head.extend(tail);
    head
}
pub fn selector(sig: &str) -> [u8; 4] {
    thread_local! {
        static C: std::cell::RefCell<std::collections::HashMap<String, [u8; 4]>> = Default::default();
    }
    C.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(x) = c.get(sig) {
            return *x;
        }
        let h = crate::keccak(sig.as_bytes());
        let r = [h[0], h[1], h[2], h[3]];
        c.insert(sig.to_string(), r);
        r
    })
}
/// calldata (or error data) of `sig` with arguments
pub fn cd(sig: &str, ts: &[T]) -> Vec<u8> {
    let mut v = selector(sig).to_vec();
    v.extend(enc(ts));
    v
}
pub fn ev(addr: Address, sig: &str, indexed: &[T], data: &[T]) -> Log {
    let mut topics = vec![crate::keccak(sig.as_bytes())];
    for t in indexed {
        match t {
            T::W(x) => topics.push(*x),
            _ => unreachable!(),
        }
    }
    Log { addr, topics, data: enc(data) }
}
pub fn word_at(d: &[u8], i: usize) -> Option<U256> {
    d.get(i * 32..i * 32 + 32).map(|x| U256::from_be_slice(x))
}
/// Decodes a single returned dynamic `bytes`/`string`.
pub fn dec_bytes(d: &[u8]) -> Option<Vec<u8>> {
    let off: usize = word_at(d, 0)?.try_into().ok()?;
    let len: usize = U256::from_be_slice(d.get(off..off + 32)?).try_into().ok()?;
    Some(d.get(off + 32..off + 32 + len)?.to_vec())
}
