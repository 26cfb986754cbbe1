//! Vesting wallet: the payee and the token call back during a release.
use crate::*;
use mc::host::{caller, my_get, my_set, my_slot, sub_call};
use mc::mocktok::T_BAL;
use openzeppelin_stylus::finance::vesting_wallet::VestingWallet;

const V: Address = Address::new([0x7b; 20]);
const TA: Address = Address::new([0x61; 20]);
const TB: Address = Address::new([0x62; 20]);

/// Slot 0: 1 = tells the receiver before, 2 = after moving the balance.
fn token(input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    if input.len() < 4 {
        return Err(vec![]);
    }
    let hook = my_slot(0).to::<u64>();
    let d = &input[4..];
    let who = Address::from_word(B256::from(word_at(d, 0).unwrap_or_default()));
    if input[..4] == selector("balanceOf(address)") {
        return Ok(enc(&[u(my_get(T_BAL, who, ZERO))]));
    }
    if input[..4] != selector("transfer(address,uint256)") {
        return Err(vec![]);
    }
    let v = word_at(d, 1).unwrap_or_default();
    if hook & 1 != 0 {
        sub_call(who, U256::ZERO, vec![9, 9, 9, 9]);
    }
    let bf = my_get(T_BAL, caller(), ZERO);
    if bf < v || who.is_zero() {
        return Err(vec![]);
    }
    my_set(T_BAL, caller(), ZERO, bf - v);
    let bt = my_get(T_BAL, who, ZERO);
    my_set(T_BAL, who, ZERO, bt + v);
    if hook & 2 != 0 {
        sub_call(who, U256::ZERO, vec![9, 9, 9, 9]);
    }
    Ok(enc(&[b(true)]))
}

#[derive(Clone, Hash)]
pub struct SM {
    owner: Address,
    bal: [u64; 3],
    rel: [u64; 3],
    got: std::collections::BTreeMap<(usize, Address), u64>,
    t: u64,
}
#[derive(Clone, Debug)]
enum SC {
    Release(usize),
    Owner(Address),
    Renounce,
    Releasable(usize),
    Released(usize),
    Vested(usize, u64),
    OwnerOf,
    /// time passes (outer only)
    Time(u64),
}
struct SSys {
    hook: u64,
    progs: usize,
}
const START: u64 = 100;
const DUR: u64 = 10;
impl SSys {
    fn vested(&self, m: &SM, k: usize, t: u64) -> u64 {
        let total = m.bal[k] + m.rel[k];
        if t < START {
            0
        } else if t >= START + DUR {
            total
        } else {
            total * (t - START) / DUR
        }
    }
    fn release(&self, cx: &mut Cx<SC>, m: &mut SM, k: usize) -> Result<(), Errs> {
        let Some(v) = self.vested(m, k, m.t).checked_sub(m.rel[k]) else { return Err(vec![]) };
        m.rel[k] += v;
        let to = m.owner;
        if k == 0 {
            m.bal[0] -= v;
            *m.got.entry((0, to)).or_default() += v;
            callback(self, cx, m, to);
            cx.logs.push(ev(V, "EtherReleased(uint256)", &[], &[w(v)]));
        } else {
            if self.hook & 1 != 0 {
                callback(self, cx, m, to);
            }
            if m.bal[k] < v || to.is_zero() {
                return Err(vec![]);
            }
            m.bal[k] -= v;
            *m.got.entry((k, to)).or_default() += v;
            if self.hook & 2 != 0 {
                callback(self, cx, m, to);
            }
            cx.logs.push(ev(V, "ERC20Released(address,uint256)", &[a([TA, TB][k - 1])], &[w(v)]));
        }
        Ok(())
    }
}
fn tok(k: usize) -> Address {
    [ZERO, TA, TB][k]
}
impl Party for SSys {
    type M = SM;
    type C = SC;
    fn start(&self) -> (World, SM) {
        let mut wd = World::default();
        wd.acct(V).code = native!(VestingWallet);
        wd.set_slot(V, 0, U256::from_be_bytes(ag(1).into_word().0));
        wd.set_slot(V, 3, n(START) | (n(DUR) << 64));
        wd.acct(V).balance = n(40);
        for i in 1..=2 {
            wd.acct(ag(i)).code = Code::Native(agent);
        }
        for (i, x) in [TA, TB].into_iter().enumerate() {
            wd.acct(x).code = Code::Native(token);
            wd.set_slot(x, 0, n(self.hook));
            host::mock_put(&mut wd, x, T_BAL, V, ZERO, n([30, 20][i]));
        }
        wd.timestamp = START;
        (wd, SM { owner: ag(1), bal: [40, 30, 20], rel: [0; 3], got: Default::default(), t: START })
    }
    fn encode(&self, c: &SC) -> (Address, Vec<u8>) {
        let d = match *c {
            SC::Release(0) => cd("release()", &[]),
            SC::Release(k) => cd("release(address)", &[a(tok(k))]),
            SC::Owner(x) => cd("transferOwnership(address)", &[a(x)]),
            SC::Renounce => cd("renounceOwnership()", &[]),
            SC::Releasable(0) => cd("releasable()", &[]),
            SC::Releasable(k) => cd("releasable(address)", &[a(tok(k))]),
            SC::Released(0) => cd("released()", &[]),
            SC::Released(k) => cd("released(address)", &[a(tok(k))]),
            SC::Vested(0, t) => cd("vestedAmount(uint64)", &[w(t)]),
            SC::Vested(k, t) => cd("vestedAmount(address,uint64)", &[a(tok(k)), w(t)]),
            SC::OwnerOf => cd("owner()", &[]),
            SC::Time(_) => cd("owner()", &[]),
        };
        (V, d)
    }
    fn body(&self, cx: &mut Cx<SC>, m: &mut SM, by: Address, c: &SC) -> Ret {
        match *c {
            SC::Release(k) => self.release(cx, m, k)?,
            SC::Owner(x) => {
                if by != m.owner {
                    return Err(vec![cd("OwnableUnauthorizedAccount(address)", &[a(by)])]);
                }
                cx.logs.push(ev(V, "OwnershipTransferred(address,address)", &[a(m.owner), a(x)], &[]));
                m.owner = x;
            }
            SC::Renounce => {
                if by != m.owner {
                    return Err(vec![cd("OwnableUnauthorizedAccount(address)", &[a(by)])]);
                }
                cx.logs.push(ev(V, "OwnershipTransferred(address,address)", &[a(m.owner), a(ZERO)], &[]));
                m.owner = ZERO;
            }
            SC::Releasable(k) => {
                return match self.vested(m, k, m.t).checked_sub(m.rel[k]) {
                    Some(v) => Ok(enc(&[w(v)])),
                    None => Err(vec![]),
                }
            }
            SC::Released(k) => return Ok(enc(&[w(m.rel[k])])),
            SC::Vested(k, t) => return Ok(enc(&[w(self.vested(m, k, t))])),
            SC::OwnerOf => return Ok(enc(&[a(m.owner)])),
            SC::Time(d) => {
                // seen by the call that follows
                m.t += d;
                with(|vm| vm.world.timestamp += d);
                return Ok(enc(&[a(m.owner)]));
            }
        }
        Ok(vec![])
    }
    fn outer(&self) -> Vec<(Address, SC)> {
        let mut v = vec![];
        for k in 0..3 {
            v.push((addr(1), SC::Release(k)));
        }
        v.push((ag(1), SC::Release(1)));
        v.push((ag(1), SC::Owner(ag(2))));
        v.push((ag(2), SC::Owner(ag(1))));
        v.push((addr(1), SC::Time(4)));
        v
    }
    fn inner(&self) -> Vec<SC> {
        let mut v = vec![SC::Owner(ag(2)), SC::Owner(addr(1)), SC::Renounce, SC::OwnerOf];
        for k in 0..3 {
            v.extend([SC::Release(k), SC::Releasable(k), SC::Released(k), SC::Vested(k, START + 5)]);
        }
        v
    }
    fn views(&self, m: &SM) -> Result<(), String> {
        must_view("owner()", addr(1), V, cd("owner()", &[]), &enc(&[a(m.owner)]))?;
        for k in 0..3 {
            for c in [SC::Released(k), SC::Releasable(k), SC::Vested(k, START + 5)] {
                let mut cx = Cx { prog: Default::default(), logs: vec![], obs: vec![] };
                let mut t = m.clone();
                if let Ok(r) = exec(self, &mut cx, &mut t, addr(1), &c) {
                    must_view(&format!("{c:?}"), addr(1), V, self.encode(&c).1, &r)?;
                }
            }
            for x in [V, ag(1), ag(2), addr(1), ZERO] {
                let want = if x == V { m.bal[k] } else { m.got.get(&(k, x)).copied().unwrap_or(0) };
                if k == 0 {
                    let have = with(|vm| vm.world.acct(x).balance);
                    if have != n(want) {
                        return Err(format!("{x} holds {have} wei instead of {want}"));
                    }
                } else {
                    must_view("token balance", addr(1), tok(k), cd("balanceOf(address)", &[a(x)]), &enc(&[w(want)]))?;
                }
            }
        }
        Ok(())
    }
    fn max_prog(&self) -> usize {
        self.progs
    }
}
pub fn run(ck: &mut Check) {
    let t = ck.thorough();
    let b = "ether and two tokens, start, several points and end of the schedule; every release with every program of inner operations run by the payee";
    for hook in 1..=3u64 {
        let pos = ["", "before", "after", "before and after"][hook as usize];
        ck.run(&format!("vesting, token calls the payee {pos} moving, one inner operation"), b, &Re(SSys { hook, progs: 1 }), if t { 6 } else { 4 });
        ck.run(&format!("vesting, token calls the payee {pos} moving, two inner operations"), b, &Re(SSys { hook, progs: 2 }), if t { 4 } else { 2 });
    }
}
