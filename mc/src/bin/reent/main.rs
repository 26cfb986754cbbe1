//! C30: what a called party does during a callback is as if it ran at that point.
//!
//! Every outer operation is combined with every program of inner operations:
//! each callback into an agent contract executes the next operation of the
//! program (nested callbacks continue with the same program), swallowing its
//! failure.  The reference runs the outer operation up to the callback, the
//! inner one in full, then the rest.
extern crate alloc;
mod nft;
mod tokens;
mod vest;
use mc::abi::*;
use mc::erc20ref::Errs;
use mc::host;
use mc::mockrecv::{S1155, S1155B, S721};
use mc::report::Check;
use mc::*;
use std::collections::VecDeque;
use std::fmt::Debug;
use std::hash::Hash;

pub const ZERO: Address = Address::ZERO;
pub fn n(v: u64) -> U256 {
    U256::from(v)
}
pub fn ag(i: u8) -> Address {
    let mut x = [0xc0; 20];
    x[19] = i;
    Address::from(x)
}
pub fn is_agent(x: Address) -> bool {
    x.0[0] == 0xc0 && x.0[1] == 0xc0
}
/// Runs the next inner operation of the program, then answers as expected.
pub fn agent(input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    let next = with(|vm| {
        if vm.blobs.is_empty() {
            None
        } else {
            Some(vm.blobs.remove(0))
        }
    });
    if let Some(b) = next {
        let to = Address::from_slice(&b[..20]);
        let out = host::sub_call(to, U256::ZERO, b[20..].to_vec());
        with(|vm| vm.notes.push(format!("{}{}", if out.ok { '+' } else { '-' }, hex(&out.data))));
    }
    if input.len() >= 4 {
        let sel: [u8; 4] = input[..4].try_into().unwrap();
        for s in [S721, S1155, S1155B] {
            if selector(s) == sel {
                return Ok(enc(&[b4(sel)]));
            }
        }
        if selector("onFlashLoan(address,address,uint256,uint256,bytes)") == sel {
            return Ok(keccak(b"ERC3156FlashBorrower.onFlashLoan").0.to_vec());
        }
    }
    Ok(vec![])
}
fn hex(d: &[u8]) -> String {
    d.iter().map(|x| format!("{x:02x}")).collect()
}

pub type Ret = Result<Vec<u8>, Errs>;
pub struct Cx<C> {
    pub prog: VecDeque<C>,
    pub logs: Vec<Log>,
    obs: Vec<(C, Ret)>,
}
pub trait Party: Sync {
    type M: Clone + Hash + Send + Sync;
    type C: Clone + Debug + Send + Sync;
    fn start(&self) -> (World, Self::M);
    /// target and calldata
    fn encode(&self, c: &Self::C) -> (Address, Vec<u8>);
    /// Model of one call by `by`; callbacks through `callback`.
    fn body(&self, cx: &mut Cx<Self::C>, m: &mut Self::M, by: Address, c: &Self::C) -> Ret;
    fn outer(&self) -> Vec<(Address, Self::C)>;
    fn inner(&self) -> Vec<Self::C>;
    fn views(&self, m: &Self::M) -> Result<(), String>;
    fn max_prog(&self) -> usize;
}
pub fn exec<P: Party + ?Sized>(p: &P, cx: &mut Cx<P::C>, m: &mut P::M, by: Address, c: &P::C) -> Ret {
    let save = m.clone();
    let nl = cx.logs.len();
    let r = p.body(cx, m, by, c);
    if r.is_err() {
        *m = save;
        cx.logs.truncate(nl);
    }
    r
}
/// `who` is called back: an agent runs its next operation.
pub fn callback<P: Party + ?Sized>(p: &P, cx: &mut Cx<P::C>, m: &mut P::M, who: Address) {
    if !is_agent(who) {
        return;
    }
    if let Some(c) = cx.prog.pop_front() {
        let r = exec(p, cx, m, who, &c);
        cx.obs.push((c, r));
    }
}
pub fn logs<C>(cx: &mut Cx<C>, s: mc::erc20ref::Step) -> Result<(), Errs> {
    cx.logs.extend(s?);
    Ok(())
}

pub struct Re<P: Party>(pub P);
#[derive(Clone)]
pub struct Op<C>(Address, C, Vec<C>);
impl<C: Debug> Debug for Op<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?} by {} with callbacks {:?}", self.1, self.0, self.2)
    }
}
impl<P: Party> System for Re<P> {
    type Model = P::M;
    type Op = Op<P::C>;
    fn init(&self) -> (World, P::M) {
        self.0.start()
    }
    fn ops(&self, _: &P::M) -> Vec<Self::Op> {
        let mut v = vec![];
        let inner = self.0.inner();
        for (by, c) in self.0.outer() {
            v.push(Op(by, c.clone(), vec![]));
            for i in &inner {
                v.push(Op(by, c.clone(), vec![i.clone()]));
                if self.0.max_prog() >= 2 {
                    for j in &inner {
                        v.push(Op(by, c.clone(), vec![i.clone(), j.clone()]));
                    }
                }
            }
        }
        v
    }
    fn apply(&self, m: &mut P::M, op: &Self::Op) -> Result<bool, String> {
        let p = &self.0;
        let mut cx = Cx { prog: op.2.iter().cloned().collect(), logs: vec![], obs: vec![] };
        let r = exec(p, &mut cx, m, op.0, &op.1);
        with(|vm| {
            vm.blobs = op
                .2
                .iter()
                .map(|c| {
                    let (t, d) = p.encode(c);
                    [t.as_slice(), &d].concat()
                })
                .collect()
        });
        let (t, d) = p.encode(&op.1);
        let what = format!("{op:?}");
        let e = match &r {
            Ok(ret) => Expect::Ok(ret.clone(), cx.logs.clone()),
            Err(e) if e.is_empty() => Expect::Fail,
            Err(e) => Expect::Err(e.clone()),
        };
        step(&what, op.0, t, d, &e)?;
        if r.is_err() {
            return Ok(false);
        }
        let notes = with(|vm| vm.notes.clone());
        if notes.len() != cx.obs.len() {
            return Err(format!("{what}: {} callbacks ran an operation instead of {}", notes.len(), cx.obs.len()));
        }
        for (note, (c, r)) in notes.iter().zip(&cx.obs) {
            let good = match r {
                Ok(d) => note == &format!("+{}", hex(d)),
                Err(e) if e.is_empty() => note.starts_with('-'),
                Err(e) => e.iter().any(|x| note == &format!("-{}", hex(x))),
            };
            if !good {
                return Err(format!("{what}: inner {c:?} observed {note} instead of {r:?}"));
            }
        }
        Ok(true)
    }
    fn check(&self, m: &P::M) -> Result<(), String> {
        self.0.views(m)
    }
    fn kind(&self, op: &Self::Op) -> String {
        let s = format!("{:?}", op.1);
        format!("{}+{}", s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""), op.2.len())
    }
}
fn main() {
    let id = std::env::args().nth(1).unwrap_or_else(|| "C30".into());
    let mut ck = Check::new(&id);
    ck.assume("the contract's entry point does not refuse re-entrant calls (the `reentrant` feature); storage caching per call frame as in Nitro");
    tokens::run(&mut ck);
    nft::run(&mut ck);
    vest::run(&mut ck);
    ck.finish()
}
