//! Receiver contracts for the safe-transfer callbacks.  The behaviour of a
//! receiver is encoded in its address, so it needs no state of its own.
use crate::abi::*;
use crate::host::{self, me, sub_call, World};
use crate::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum R {
    /// answers with the selector of the called callback
    Accept,
    /// like Accept, but first asks the caller about balances and ownership
    Probe,
    /// answers 0xffffffff
    WrongValue,
    /// answers 0x00000000
    ZeroValue,
    /// answers with the acceptance value of a sibling callback
    SiblingValue,
    /// answers with the value in the wrong end of the word
    RightAligned,
    /// answers with the bare four bytes
    Short,
    /// answers with nothing (a fallback function)
    Empty,
    /// reverts without data
    RevertEmpty,
    /// reverts with a custom error
    RevertReason,
    /// reverts with the acceptance value as data
    RevertMagic,
}
pub const ALL: [R; 11] = [
    R::Accept,
    R::Probe,
    R::WrongValue,
    R::ZeroValue,
    R::SiblingValue,
    R::RightAligned,
    R::Short,
    R::Empty,
    R::RevertEmpty,
    R::RevertReason,
    R::RevertMagic,
];
pub const S721: &str = "onERC721Received(address,address,uint256,bytes)";
pub const S1155: &str = "onERC1155Received(address,address,uint256,uint256,bytes)";
pub const S1155B: &str = "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)";

pub fn recv(r: R) -> Address {
    let mut x = [0u8; 20];
    x[0] = 0xb0;
    x[1] = r as u8;
    x[19] = 0x77;
    Address::from(x)
}
pub fn mode_of(x: Address) -> Option<R> {
    if x.0[0] == 0xb0 && x.0[19] == 0x77 {
        ALL.get(x.0[1] as usize).copied()
    } else {
        None
    }
}
pub fn reason() -> Vec<u8> {
    cd("Rejected(uint256,string)", &[w(42), s("not for me")])
}
/// None: the receiver accepts. Some(None): rejected without own reason.
/// Some(Some(data)): rejected, `data` has to be passed on.
pub fn rejects(x: Address, callback: &str) -> Option<Option<Vec<u8>>> {
    match mode_of(x)? {
        R::Accept | R::Probe => None,
        R::RevertReason => Some(Some(reason())),
        R::RevertMagic => Some(Some(enc(&[b4(selector(callback))]))),
        _ => Some(None),
    }
}
pub fn install(w: &mut World) {
    for r in ALL {
        w.acct(recv(r)).code = Code::Native(mock_recv);
    }
}

pub fn mock_recv(input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    if input.len() < 4 {
        return Err(vec![]);
    }
    let sel: [u8; 4] = input[..4].try_into().unwrap();
    let cb = [S721, S1155, S1155B].into_iter().find(|c| selector(c) == sel);
    let Some(cb) = cb else { return Err(vec![]) };
    let magic = enc(&[b4(sel)]);
    match mode_of(me()).expect("receiver mode") {
        R::Accept => Ok(magic),
        R::Probe => {
            let token = host::caller();
            if cb == S721 {
                let id = word_at(&input[4..], 2).unwrap();
                sub_call(token, U256::ZERO, cd("ownerOf(uint256)", &[u(id)]));
                sub_call(token, U256::ZERO, cd("balanceOf(address)", &[a(me())]));
                sub_call(token, U256::ZERO, cd("getApproved(uint256)", &[u(id)]));
            } else if cb == S1155 {
                let id = word_at(&input[4..], 2).unwrap();
                sub_call(token, U256::ZERO, cd("balanceOf(address,uint256)", &[a(me()), u(id)]));
            } else {
                let d = &input[4..];
                let off = word_at(d, 2).unwrap().to::<usize>() / 32;
                let n = word_at(d, off).unwrap().to::<usize>();
                for i in 0..n {
                    let id = word_at(d, off + 1 + i).unwrap();
                    sub_call(token, U256::ZERO, cd("balanceOf(address,uint256)", &[a(me()), u(id)]));
                }
            }
            Ok(magic)
        }
        R::WrongValue => Ok(enc(&[b4([0xff; 4])])),
        R::ZeroValue => Ok(enc(&[b4([0; 4])])),
        R::SiblingValue => {
            let other = if cb == S1155 { S1155B } else { S1155 };
            Ok(enc(&[b4(selector(other))]))
        }
        R::RightAligned => {
            let mut v = vec![0u8; 32];
            v[28..].copy_from_slice(&sel);
            Ok(v)
        }
        R::Short => Ok(sel.to_vec()),
        R::Empty => Ok(vec![]),
        R::RevertEmpty => Err(vec![]),
        R::RevertReason => Err(reason()),
        R::RevertMagic => Err(magic),
    }
}

/// A receiver that answers (or reverts with) bytes given in its own storage:
/// slot 0 = 1 for a revert, slot 1 = length, slot 2 = first word.
pub const RAW: Address = Address::new([0xbb; 20]);
pub fn raw_recv(_: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    let len = host::my_slot(1).to::<usize>();
    let mut out = host::my_slot(2).to_be_bytes::<32>().to_vec();
    out.resize(len.max(32), 0);
    out.truncate(len);
    if host::my_slot(0).is_zero() {
        Ok(out)
    } else {
        Err(out)
    }
}
/// One answer of the raw receiver to be tried: (reverts, length, first word).
pub type Answer = (bool, usize, U256);
/// Answers around the acceptance value `sel`: every single-bit change, every
/// shifted position, every length; reverts of every length.
pub fn answers(sel: [u8; 4], max: usize) -> Vec<Answer> {
    let magic = U256::from(u32::from_be_bytes(sel)) << 224;
    let mut v: Vec<Answer> = vec![];
    for k in 224..256 {
        v.push((false, 32, magic ^ (U256::from(1) << k)));
        v.push((false, 32, U256::from(1) << k));
    }
    for k in 0..224 {
        v.push((false, 32, U256::from(u32::from_be_bytes(sel)) << k));
    }
    for l in (0..=max).chain([1024]) {
        // whether an acceptance value followed by more bytes is an acceptance
        // is left open: decoders differ
        if l <= 32 {
            v.push((false, l, magic));
        }
        v.push((false, l, U256::ZERO));
        v.push((false, l, U256::MAX));
        v.push((true, l, magic));
        v.push((true, l, U256::ZERO));
        v.push((true, l, U256::MAX));
    }
    v.push((false, 32, magic));
    v
}
/// What the token has to do: None = accept, Some(None) = refuse with its own
/// error, Some(Some(data)) = pass the reason on.
pub fn judge(sel: [u8; 4], x: &Answer) -> Option<Option<Vec<u8>>> {
    let magic = U256::from(u32::from_be_bytes(sel)) << 224;
    let mut out = x.2.to_be_bytes::<32>().to_vec();
    out.resize(x.1.max(32), 0);
    out.truncate(x.1);
    if x.0 {
        return Some((!out.is_empty()).then_some(out));
    }
    if x.1 >= 32 && x.2 == magic {
        None
    } else {
        Some(None)
    }
}
pub fn set_answer(w: &mut World, x: &Answer) {
    w.acct(RAW).code = Code::Native(raw_recv);
    w.set_slot(RAW, 0, U256::from(x.0 as u64));
    w.set_slot(RAW, 1, U256::from(x.1));
    w.set_slot(RAW, 2, x.2);
}
