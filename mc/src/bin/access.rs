//! C19 (roles), C20 (ownership), C21 (pausing), C22 (nonces).
extern crate alloc;
use alloy_primitives::{Address, B256, U256};
use mc::abi::*;
use mc::host;
use mc::report::Check;
use mc::*;
use openzeppelin_stylus::{
    access::{
        control::{self, AccessControl, IAccessControl},
        ownable::{self, Ownable},
        ownable_two_step::Ownable2Step,
    },
    utils::{
        nonces::{self, Nonces},
        pausable::{self, Pausable},
    },
};
use std::collections::{BTreeMap, BTreeSet};
use stylus_sdk::prelude::*;

const T: Address = Address::new([0x7a; 20]);
const ZERO: Address = Address::ZERO;
fn n(v: u64) -> U256 {
    U256::from(v)
}
/// Accounts that differ in high, low or all bytes.
fn who(i: usize) -> Address {
    let mut x = [0x11u8; 20];
    match i {
        0 => {}
        1 => x[0] = 0x12,
        2 => x[19] = 0x12,
        _ => x = [0xff; 20],
    }
    Address::new(x)
}

// ---------------------------------------------------------------------- C19
#[storage]
struct Roles {
    #[borrow]
    ac: AccessControl,
}
unsafe impl TopLevelStorage for Roles {}
#[public]
#[inherit(AccessControl)]
impl Roles {
    fn set_admin(&mut self, role: B256, admin: B256) {
        self.ac._set_role_admin(role, admin);
    }
    fn raw_grant(&mut self, role: B256, who: Address) -> bool {
        self.ac._grant_role(role, who)
    }
    fn raw_revoke(&mut self, role: B256, who: Address) -> bool {
        self.ac._revoke_role(role, who)
    }
    fn check_role(&self, role: B256, who: Address) -> Result<(), control::Error> {
        self.ac._check_role(role, who)
    }
    fn guarded(&self, role: B256) -> Result<bool, control::Error> {
        self.ac.only_role(role)?;
        Ok(true)
    }
    fn default_admin(&self) -> B256 {
        AccessControl::DEFAULT_ADMIN_ROLE.into()
    }
}
#[derive(Clone, Debug)]
enum AOp {
    Grant(Address, B256, Address),
    Revoke(Address, B256, Address),
    Renounce(Address, B256, Address),
    SetAdmin(B256, B256),
    RawGrant(B256, Address),
    RawRevoke(B256, Address),
    Guarded(Address, B256),
}
struct ASys {
    roles: Vec<B256>,
    accts: Vec<Address>,
    seed: Vec<(usize, usize)>,
    set_admin: bool,
}
#[derive(Clone, Hash)]
struct AM {
    has: BTreeSet<(B256, Address)>,
    admin: BTreeMap<B256, B256>,
}
impl AM {
    fn adm(&self, r: B256) -> B256 {
        self.admin.get(&r).copied().unwrap_or(B256::ZERO)
    }
}
fn e_role(who: Address, r: B256) -> Vec<u8> {
    cd("AccessControlUnauthorizedAccount(address,bytes32)", &[a(who), b32(r)])
}
impl ASys {
    fn granted(&self, m: &mut AM, by: Address, r: B256, x: Address) -> Vec<Log> {
        if m.has.insert((r, x)) {
            vec![ev(T, "RoleGranted(bytes32,address,address)", &[b32(r), a(x), a(by)], &[])]
        } else {
            vec![]
        }
    }
    fn revoked(&self, m: &mut AM, by: Address, r: B256, x: Address) -> Vec<Log> {
        if m.has.remove(&(r, x)) {
            vec![ev(T, "RoleRevoked(bytes32,address,address)", &[b32(r), a(x), a(by)], &[])]
        } else {
            vec![]
        }
    }
}
impl System for ASys {
    type Model = AM;
    type Op = AOp;
    fn init(&self) -> (World, AM) {
        let mut wd = World::default();
        wd.acct(T).code = native!(Roles);
        with(|vm| vm.world = wd);
        let mut m = AM { has: BTreeSet::new(), admin: BTreeMap::new() };
        for (r, x) in &self.seed {
            let (r, x) = (self.roles[*r], self.accts[*x]);
            host::tx(addr(9), T, U256::ZERO, cd("rawGrant(bytes32,address)", &[b32(r), a(x)]));
            m.has.insert((r, x));
        }
        (with(|vm| vm.world.clone()), m)
    }
    fn ops(&self, _m: &AM) -> Vec<AOp> {
        let mut v = vec![];
        for r in &self.roles {
            for x in &self.accts {
                for y in &self.accts {
                    if !x.is_zero() {
                        v.push(AOp::Grant(*x, *r, *y));
                        v.push(AOp::Revoke(*x, *r, *y));
                        v.push(AOp::Renounce(*x, *r, *y));
                    }
                }
                if !x.is_zero() {
                    v.push(AOp::Guarded(*x, *r));
                }
                v.push(AOp::RawGrant(*r, *x));
                v.push(AOp::RawRevoke(*r, *x));
            }
            if self.set_admin {
                for q in &self.roles {
                    v.push(AOp::SetAdmin(*r, *q));
                }
            }
        }
        v
    }
    fn apply(&self, m: &mut AM, op: &AOp) -> Result<bool, String> {
        let by9 = addr(9);
        let (from, call, e) = match op {
            AOp::Grant(by, r, x) => {
                let adm = m.adm(*r);
                let e = if m.has.contains(&(adm, *by)) { Expect::Ok(vec![], self.granted(m, *by, *r, *x)) } else { Expect::Err(vec![e_role(*by, adm)]) };
                (*by, cd("grantRole(bytes32,address)", &[b32(*r), a(*x)]), e)
            }
            AOp::Revoke(by, r, x) => {
                let adm = m.adm(*r);
                let e = if m.has.contains(&(adm, *by)) { Expect::Ok(vec![], self.revoked(m, *by, *r, *x)) } else { Expect::Err(vec![e_role(*by, adm)]) };
                (*by, cd("revokeRole(bytes32,address)", &[b32(*r), a(*x)]), e)
            }
            AOp::Renounce(by, r, x) => {
                let e = if by == x { Expect::Ok(vec![], self.revoked(m, *by, *r, *x)) } else { Expect::Err(vec![cd("AccessControlBadConfirmation()", &[])]) };
                (*by, cd("renounceRole(bytes32,address)", &[b32(*r), a(*x)]), e)
            }
            AOp::SetAdmin(r, q) => {
                let prev = m.adm(*r);
                m.admin.insert(*r, *q);
                if q.is_zero() {
                    m.admin.remove(r);
                }
                (by9, cd("setAdmin(bytes32,bytes32)", &[b32(*r), b32(*q)]), Expect::Ok(vec![], vec![ev(T, "RoleAdminChanged(bytes32,bytes32,bytes32)", &[b32(*r), b32(prev), b32(*q)], &[])]))
            }
            AOp::RawGrant(r, x) => {
                let l = self.granted(m, by9, *r, *x);
                (by9, cd("rawGrant(bytes32,address)", &[b32(*r), a(*x)]), Expect::Ok(enc(&[b(!l.is_empty())]), l))
            }
            AOp::RawRevoke(r, x) => {
                let l = self.revoked(m, by9, *r, *x);
                (by9, cd("rawRevoke(bytes32,address)", &[b32(*r), a(*x)]), Expect::Ok(enc(&[b(!l.is_empty())]), l))
            }
            AOp::Guarded(x, r) => {
                let e = if m.has.contains(&(*r, *x)) { Expect::Ok(enc(&[b(true)]), vec![]) } else { Expect::Err(vec![e_role(*x, *r)]) };
                (*x, cd("guarded(bytes32)", &[b32(*r)]), e)
            }
        };
        step(&format!("{op:?}"), from, T, call, &e)?;
        Ok(matches!(e, Expect::Ok(..)))
    }
    fn check(&self, m: &AM) -> Result<(), String> {
        let q = addr(9);
        for r in &self.roles {
            must_view("getRoleAdmin", q, T, cd("getRoleAdmin(bytes32)", &[b32(*r)]), &enc(&[b32(m.adm(*r))]))?;
            for x in &self.accts {
                let has = m.has.contains(&(*r, *x));
                must_view("hasRole", q, T, cd("hasRole(bytes32,address)", &[b32(*r), a(*x)]), &enc(&[b(has)]))?;
                let (o, k) = (cd("onlyRole(bytes32)", &[b32(*r)]), cd("checkRole(bytes32,address)", &[b32(*r), a(*x)]));
                if has {
                    must_view("onlyRole", *x, T, o, &[])?;
                    must_view("checkRole", q, T, k, &[])?;
                } else {
                    must_fail_view("onlyRole", *x, T, o, &[e_role(*x, *r)])?;
                    must_fail_view("checkRole", q, T, k, &[e_role(*x, *r)])?;
                }
            }
        }
        must_view("default admin role", q, T, cd("defaultAdmin()", &[]), &enc(&[b32(B256::ZERO)]))
    }
}
fn c19(c: &mut Check) {
    let r1 = keccak(b"MINTER");
    let r2 = {
        let mut x = r1;
        x[31] ^= 1;
        x
    };
    let sys = ASys { roles: vec![B256::ZERO, r1, r2], accts: vec![who(0), who(1)], seed: vec![(0, 0)], set_admin: true };
    c.run("3 roles x 2 accounts, any admin graph", "default role plus two roles differing in one bit, 2 accounts, every admin assignment (27), every membership; grant, revoke, renounce, internal grant/revoke, admin change, guarded call; all histories to a fixed point", &sys, 40);
    let sys = ASys { roles: vec![B256::ZERO, r1], accts: vec![who(0), who(1), who(2), ZERO], seed: vec![(0, 0)], set_admin: true };
    c.run("2 roles x 4 accounts", "default role plus one, 4 accounts incl. zero, every admin assignment and membership; to a fixed point", &sys, 40);
    let sys = ASys { roles: vec![B256::ZERO, r1, r2], accts: vec![who(0), who(1), who(2)], seed: vec![(0, 0)], set_admin: true };
    c.run("3 roles x 3 accounts", "every admin assignment and membership; to a fixed point", &sys, 40);
    {
        let sys = ASys { roles: vec![B256::ZERO, r1, r2, B256::repeat_byte(0xff)], accts: vec![who(0), who(1)], seed: vec![(0, 0)], set_admin: true };
        c.run("4 roles x 2 accounts", "every admin assignment (256) and membership; to a fixed point", &sys, 40);
    }
    {
        let sys = ASys { roles: vec![B256::ZERO, r1], accts: vec![who(0), T, addr(1), who(1)], seed: vec![(0, 0)], set_admin: true };
        c.run("the contract itself as admin and member", "default role plus one, 4 accounts incl. the contract itself and a precompile; to a fixed point", &sys, 40);
    }
    if c.thorough() {
        let sys = ASys { roles: vec![B256::ZERO, r1, r2, B256::repeat_byte(0xff)], accts: vec![who(0), who(1), who(2)], seed: vec![(0, 0)], set_admin: true };
        c.run("4 roles x 3 accounts", "every admin assignment (256) and membership; to a fixed point", &sys, 40);
    }
    // many members, many roles, long admin chains
    let sizes: Vec<usize> = vec![1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, c.q(130, 300)];
    c.enumerate("many members and roles", "k accounts granted one role each by a chain of k admin roles, members removed in every order of thirds; k up to 130 (thorough 300)", &sizes, |k| {
        let role = |i: usize| if i == 0 { B256::ZERO } else { keccak(&[(i % 256) as u8, (i / 256) as u8]) };
        let acct = |i: usize| Address::from_word(U256::from(0x1000 + i).into());
        let roles: Vec<B256> = (0..=*k).map(role).collect();
        let accts: Vec<Address> = (0..=*k).map(acct).collect();
        let sys = ASys { roles: roles[k.saturating_sub(6)..].to_vec(), accts: accts.clone(), seed: vec![], set_admin: true };
        let (wd, mut m) = sys.init();
        with(|vm| vm.world = wd);
        let mut go = |m: &mut AM, op: AOp| sys.apply(m, &op);
        go(&mut m, AOp::RawGrant(role(0), acct(0)))?;
        for i in 1..=*k {
            // role i is administered by role i-1; its holder appoints the next
            go(&mut m, AOp::SetAdmin(role(i), role(i - 1)))?;
            go(&mut m, AOp::Grant(acct(i - 1), role(i), acct(i)))?;
            go(&mut m, AOp::Grant(acct(i), role(i), acct(0)))?;
        }
        sys.check(&m)?;
        // one role with k members
        for i in 0..=*k {
            go(&mut m, AOp::Grant(acct(*k - 1), role(*k), acct(i)))?;
        }
        sys.check(&m)?;
        for part in [1, 0, 2] {
            for i in (0..=*k).filter(|i| i % 3 == part) {
                if i % 2 == 0 {
                    go(&mut m, AOp::Renounce(acct(i), role(*k), acct(i)))?;
                } else {
                    go(&mut m, AOp::Revoke(acct(*k - 1), role(*k), acct(i)))?;
                }
            }
            sys.check(&m)?;
        }
        Ok(true)
    });
    let mut cases: Vec<(B256, Address)> = vec![];
    let (r0, x0) = (r1, who(0));
    for i in 0..256 {
        let mut r = r0;
        r[i / 8] ^= 1 << (i % 8);
        cases.push((r, x0));
        if i < 160 {
            let mut x = x0;
            x[i / 8] ^= 1 << (i % 8);
            cases.push((r0, x));
            for j in [0usize, 128, 255] {
                let mut r = r0;
                r[j / 8] ^= 1 << (j % 8);
                cases.push((r, x));
            }
        }
    }
    c.enumerate("independent pairs", "a grant, revocation and admin change of one (role, account) against every pair differing in one bit of the role or of the account", &cases, |(r, x)| {
        let sys = ASys { roles: vec![r0, *r], accts: vec![x0, *x], seed: vec![], set_admin: true };
        let (wd, mut m) = sys.init();
        with(|vm| vm.world = wd);
        for op in [AOp::RawGrant(B256::ZERO, x0), AOp::RawGrant(r0, x0), AOp::SetAdmin(r0, *r), AOp::RawGrant(*r, *x), AOp::Grant(*x, r0, who(1)), AOp::Revoke(*x, r0, x0), AOp::SetAdmin(*r, r0), AOp::RawRevoke(*r, *x)] {
            sys.apply(&mut m, &op)?;
            sys.check(&m)?;
        }
        Ok(true)
    });
}

// ---------------------------------------------------------------------- C20
#[storage]
struct Own1 {
    #[borrow]
    own: Ownable,
}
unsafe impl TopLevelStorage for Own1 {}
#[public]
#[inherit(Ownable)]
impl Own1 {
    fn init(&mut self, to: Address) {
        self.own._transfer_ownership(to);
    }
    fn guarded(&self) -> Result<bool, ownable::Error> {
        self.own.only_owner()?;
        Ok(true)
    }
}
#[storage]
struct Own2 {
    #[borrow]
    own: Ownable2Step,
}
unsafe impl TopLevelStorage for Own2 {}
#[public]
#[inherit(Ownable2Step)]
impl Own2 {
    fn init(&mut self, to: Address) {
        self.own.ownable._transfer_ownership(to);
    }
    fn guarded(&self) -> Result<bool, ownable::Error> {
        self.own.only_owner()?;
        Ok(true)
    }
}
#[derive(Clone, Debug)]
enum OOp {
    Transfer(Address, Address),
    Renounce(Address),
    Accept(Address),
    Guarded(Address),
    Internal(Address, Address),
}
struct OSys {
    two: bool,
    accts: Vec<Address>,
    internal: bool,
}
#[derive(Clone, Hash)]
struct OM {
    owner: Address,
    pending: Address,
}
fn e_own(x: Address) -> Vec<u8> {
    cd("OwnableUnauthorizedAccount(address)", &[a(x)])
}
fn moved(m: &mut OM, to: Address) -> Vec<Log> {
    let l = vec![ev(T, "OwnershipTransferred(address,address)", &[a(m.owner), a(to)], &[])];
    m.owner = to;
    l
}
impl System for OSys {
    type Model = OM;
    type Op = OOp;
    fn init(&self) -> (World, OM) {
        let mut wd = World::default();
        wd.acct(T).code = if self.two { native!(Own2) } else { native!(Own1) };
        with(|vm| vm.world = wd);
        host::tx(addr(9), T, U256::ZERO, cd("init(address)", &[a(self.accts[0])]));
        (with(|vm| vm.world.clone()), OM { owner: self.accts[0], pending: ZERO })
    }
    fn ops(&self, _m: &OM) -> Vec<OOp> {
        let mut v = vec![];
        for x in &self.accts {
            v.push(OOp::Renounce(*x));
            v.push(OOp::Guarded(*x));
            if self.two {
                v.push(OOp::Accept(*x));
            }
            for y in self.accts.iter().chain(&[ZERO, T]) {
                v.push(OOp::Transfer(*x, *y));
                if self.internal {
                    v.push(OOp::Internal(*x, *y));
                }
            }
        }
        v
    }
    fn apply(&self, m: &mut OM, op: &OOp) -> Result<bool, String> {
        let (from, call, e) = match op {
            OOp::Transfer(x, y) => {
                let mut e = vec![];
                if *x != m.owner {
                    e.push(e_own(*x));
                }
                if !self.two && y.is_zero() {
                    e.push(cd("OwnableInvalidOwner(address)", &[a(ZERO)]));
                }
                let ex = if !e.is_empty() {
                    Expect::Err(e)
                } else if self.two {
                    m.pending = *y;
                    Expect::Ok(vec![], vec![ev(T, "OwnershipTransferStarted(address,address)", &[a(m.owner), a(*y)], &[])])
                } else {
                    Expect::Ok(vec![], moved(m, *y))
                };
                (*x, cd("transferOwnership(address)", &[a(*y)]), ex)
            }
            OOp::Renounce(x) => {
                let ex = if *x != m.owner {
                    Expect::Err(vec![e_own(*x)])
                } else {
                    m.pending = ZERO;
                    Expect::Ok(vec![], moved(m, ZERO))
                };
                (*x, cd("renounceOwnership()", &[]), ex)
            }
            OOp::Accept(x) => {
                let ex = if *x != m.pending {
                    Expect::Err(vec![e_own(*x)])
                } else {
                    m.pending = ZERO;
                    Expect::Ok(vec![], moved(m, *x))
                };
                (*x, cd("acceptOwnership()", &[]), ex)
            }
            OOp::Guarded(x) => (*x, cd("guarded()", &[]), if *x == m.owner { Expect::Ok(enc(&[b(true)]), vec![]) } else { Expect::Err(vec![e_own(*x)]) }),
            OOp::Internal(x, y) => (*x, cd("init(address)", &[a(*y)]), Expect::Ok(vec![], moved(m, *y))),
        };
        step(&format!("{op:?}"), from, T, call, &e)?;
        Ok(matches!(e, Expect::Ok(..)))
    }
    fn check(&self, m: &OM) -> Result<(), String> {
        let q = addr(9);
        must_view("owner()", q, T, cd("owner()", &[]), &enc(&[a(m.owner)]))?;
        if self.two {
            must_view("pendingOwner()", q, T, cd("pendingOwner()", &[]), &enc(&[a(m.pending)]))?;
        } else {
            must_fail_view("pendingOwner()", q, T, cd("pendingOwner()", &[]), &[])?;
        }
        for x in &self.accts {
            let d = cd("guarded()", &[]);
            if *x == m.owner {
                must_view("guarded()", *x, T, d, &enc(&[b(true)]))?;
            } else {
                must_fail_view("guarded()", *x, T, d, &[e_own(*x)])?;
            }
        }
        Ok(())
    }
}
fn c20(c: &mut Check) {
    let accts: Vec<Address> = (0..4).map(who).collect();
    for two in [false, true] {
        for internal in [false, true] {
            let mut accts = accts.clone();
            accts.push(T);
            let sys = OSys { two, accts, internal };
            c.run(&format!("{}{}", if two { "two-step" } else { "one-step" }, if internal { " with internal transfers" } else { "" }), "4 accounts (one-byte neighbours and all-ones) and the contract itself, zero as target; all histories to a fixed point", &sys, 40);
        }
    }
    let mut cases = vec![];
    for base in [who(0), who(3), Address::new([1; 20])] {
        for i in 0..160 {
            let mut x = base;
            x[i / 8] ^= 1 << (i % 8);
            cases.push((base, x));
            cases.push((x, base));
        }
    }
    c.enumerate("one-bit neighbours", "every account differing in one bit from the owner or the pending owner; full one- and two-step histories of 5 calls", &cases, |(x, y)| {
        for two in [false, true] {
            let sys = OSys { two, accts: vec![*x, *y], internal: false };
            let (wd, mut m) = sys.init();
            with(|vm| vm.world = wd);
            for op in [OOp::Transfer(*y, *y), OOp::Transfer(*x, *x), OOp::Renounce(*y), OOp::Transfer(*x, *y), OOp::Guarded(*y), OOp::Renounce(*x)] {
                sys.apply(&mut m, &op)?;
                sys.check(&m)?;
                if two {
                    for z in [x, y] {
                        let saved = with(|vm| vm.world.clone());
                        let mut k = m.clone();
                        sys.apply(&mut k, &OOp::Accept(*z))?;
                        sys.check(&k)?;
                        with(|vm| vm.world = saved);
                    }
                }
            }
        }
        Ok(true)
    });
}

// ---------------------------------------------------------------------- C21
#[storage]
struct Switch {
    #[borrow]
    p: Pausable,
    hits: stylus_sdk::storage::StorageU256,
}
unsafe impl TopLevelStorage for Switch {}
#[public]
#[inherit(Pausable)]
impl Switch {
    fn pause(&mut self) -> Result<(), pausable::Error> {
        self.p.pause()
    }
    fn unpause(&mut self) -> Result<(), pausable::Error> {
        self.p.unpause()
    }
    fn run(&mut self) -> Result<bool, pausable::Error> {
        self.hits.set(self.hits.get() + U256::from(1));
        self.p.when_not_paused()?;
        Ok(true)
    }
    fn drill(&mut self) -> Result<bool, pausable::Error> {
        self.hits.set(self.hits.get() + U256::from(2));
        self.p.when_paused()?;
        Ok(true)
    }
    fn toggle_twice(&mut self) -> Result<(), pausable::Error> {
        if self.p.when_paused().is_ok() {
            self.p.unpause()?;
            self.p.pause()
        } else {
            self.p.pause()?;
            self.p.unpause()
        }
    }
    fn hits(&self) -> U256 {
        self.hits.get()
    }
}
#[derive(Clone, Debug)]
enum POp {
    Pause(Address),
    Unpause(Address),
    Run(Address),
    Drill(Address),
    Twice(Address),
}
struct PSys {
    max: u64,
    by: Vec<Address>,
}
#[derive(Clone, Hash)]
struct PM {
    paused: bool,
    hits: u64,
}
impl System for PSys {
    type Model = PM;
    type Op = POp;
    fn init(&self) -> (World, PM) {
        let mut wd = World::default();
        wd.acct(T).code = native!(Switch);
        (wd, PM { paused: false, hits: 0 })
    }
    fn ops(&self, m: &PM) -> Vec<POp> {
        let mut v = vec![];
        for x in &self.by {
            v.extend([POp::Pause(*x), POp::Unpause(*x), POp::Twice(*x)]);
            if m.hits < self.max {
                v.extend([POp::Run(*x), POp::Drill(*x)]);
            }
        }
        v
    }
    fn apply(&self, m: &mut PM, op: &POp) -> Result<bool, String> {
        let enforced = || Expect::Err(vec![cd("EnforcedPause()", &[])]);
        let expected = || Expect::Err(vec![cd("ExpectedPause()", &[])]);
        let on = |x: Address| ev(T, "Paused(address)", &[], &[a(x)]);
        let off = |x: Address| ev(T, "Unpaused(address)", &[], &[a(x)]);
        let (from, call, e) = match op {
            POp::Pause(x) => (*x, "pause()", if m.paused { enforced() } else { m.paused = true; Expect::Ok(vec![], vec![on(*x)]) }),
            POp::Unpause(x) => (*x, "unpause()", if !m.paused { expected() } else { m.paused = false; Expect::Ok(vec![], vec![off(*x)]) }),
            POp::Run(x) => (*x, "run()", if m.paused { enforced() } else { m.hits += 1; Expect::Ok(enc(&[b(true)]), vec![]) }),
            POp::Drill(x) => (*x, "drill()", if !m.paused { expected() } else { m.hits += 2; Expect::Ok(enc(&[b(true)]), vec![]) }),
            POp::Twice(x) => (*x, "toggleTwice()", Expect::Ok(vec![], if m.paused { vec![off(*x), on(*x)] } else { vec![on(*x), off(*x)] })),
        };
        step(&format!("{op:?}"), from, T, cd(call, &[]), &e)?;
        Ok(matches!(e, Expect::Ok(..)))
    }
    fn check(&self, m: &PM) -> Result<(), String> {
        for x in &self.by {
            must_view("paused()", *x, T, cd("paused()", &[]), &enc(&[b(m.paused)]))?;
        }
        must_view("hits()", addr(9), T, cd("hits()", &[]), &enc(&[w(m.hits)]))
    }
}
fn c21(c: &mut Check) {
    let max = c.q(300, 3000);
    c.run("pausable", &format!("5 callers incl. the contract itself; pause, unpause, both guards (each after a write, so a refusal must roll back), toggle within one call; all interleavings up to {max} guarded effects, to a fixed point"), &PSys { max, by: (0..4).map(who).chain([T]).collect() }, 100000);
    let mut by: Vec<Address> = vec![];
    for i in 0..160 {
        for base in [ZERO, T, who(0), Address::repeat_byte(0xff)] {
            let mut x = base;
            x[i / 8] ^= 1 << (i % 8);
            if !x.is_zero() && x != T {
                by.push(x);
            }
        }
    }
    by.extend([T, Address::repeat_byte(0xff), Address::repeat_byte(0x80)]);
    c.enumerate("every kind of caller", "each one-bit address, each one-bit neighbour of the contract and of a caller, the contract itself: the whole graph of the switch over three guarded effects, alternating with another caller", &by, |x| {
        let sys = PSys { max: 3, by: vec![*x, who(1)] };
        let (wd, m) = sys.init();
        let mut todo = vec![(wd, m)];
        let mut seen = BTreeSet::new();
        while let Some((wd, m)) = todo.pop() {
            if !seen.insert((m.paused, m.hits)) {
                continue;
            }
            for op in sys.ops(&m) {
                with(|vm| vm.world = wd.clone());
                let mut m2 = m.clone();
                sys.apply(&mut m2, &op)?;
                sys.check(&m2)?;
                todo.push((with(|vm| vm.world.clone()), m2));
            }
        }
        Ok(true)
    });
}

// ---------------------------------------------------------------------- C22
#[storage]
struct Non {
    #[borrow]
    non: Nonces, // slot 0
}
unsafe impl TopLevelStorage for Non {}
#[public]
#[inherit(Nonces)]
impl Non {
    fn take(&mut self, x: Address) -> U256 {
        self.non.use_nonce(x)
    }
    fn take_checked(&mut self, x: Address, v: U256) -> Result<(), nonces::Error> {
        self.non.use_checked_nonce(x, v)
    }
    fn take_pair(&mut self, x: Address, y: Address) -> (U256, U256) {
        (self.non.use_nonce(x), self.non.use_nonce(y))
    }
}
#[derive(Clone, Debug)]
enum NOp {
    Take(Address),
    Checked(Address, U256),
    Pair(Address, Address),
    /// taken or checked by a given caller rather than a stranger
    TakeBy(Address, Address),
    CheckedBy(Address, Address, U256),
}
struct NSys {
    accts: Vec<Address>,
    start: Vec<U256>,
    steps: u64,
}
#[derive(Clone, Hash)]
struct NM(Vec<U256>);
impl NSys {
    fn ix(&self, x: &Address) -> usize {
        self.accts.iter().position(|y| y == x).unwrap()
    }
}
impl System for NSys {
    type Model = NM;
    type Op = NOp;
    fn init(&self) -> (World, NM) {
        let mut wd = World::default();
        wd.acct(T).code = native!(Non);
        for (x, v) in self.accts.iter().zip(&self.start) {
            if !v.is_zero() {
                let k = keccak(&enc(&[a(*x), w(0)]));
                std::sync::Arc::make_mut(&mut wd.acct(T).storage).insert(k, B256::from(*v));
            }
        }
        (wd, NM(self.start.clone()))
    }
    fn ops(&self, m: &NM) -> Vec<NOp> {
        let mut v = vec![];
        for (i, x) in self.accts.iter().enumerate() {
            let cur = m.0[i];
            if cur.wrapping_sub(self.start[i]) >= n(self.steps) {
                continue;
            }
            v.push(NOp::Take(*x));
            for y in &self.accts {
                v.push(NOp::Pair(*x, *y));
            }
            let mut g = vec![cur, cur.wrapping_sub(n(1)), cur.wrapping_add(n(1)), U256::ZERO, U256::MAX, cur ^ (U256::from(1) << 64), cur ^ (U256::from(1) << 255)];
            g.sort();
            g.dedup();
            for by in self.accts.iter().chain(&[T]).filter(|x| !x.is_zero()) {
                v.push(NOp::TakeBy(*by, *x));
                v.extend(g.iter().map(|z| NOp::CheckedBy(*by, *x, *z)));
            }
            v.extend(g.into_iter().map(|z| NOp::Checked(*x, z)));
        }
        v
    }
    fn apply(&self, m: &mut NM, op: &NOp) -> Result<bool, String> {
        let mut take = |m: &mut NM, x: &Address| {
            let i = self.ix(x);
            let c = m.0[i];
            m.0[i] = c.checked_add(n(1))?;
            Some(c)
        };
        let (call, e) = match op {
            NOp::Take(x) | NOp::TakeBy(_, x) => (cd("take(address)", &[a(*x)]), take(m, x).map(|v| Expect::Ok(enc(&[u(v)]), vec![])).unwrap_or(Expect::Fail)),
            NOp::Pair(x, y) => {
                let r = (|| Some((take(m, x)?, take(m, y)?)))();
                (cd("takePair(address,address)", &[a(*x), a(*y)]), r.map(|(v, z)| Expect::Ok(enc(&[u(v), u(z)]), vec![])).unwrap_or(Expect::Fail))
            }
            NOp::Checked(x, v) | NOp::CheckedBy(_, x, v) => {
                let cur = m.0[self.ix(x)];
                let e = if cur == U256::MAX {
                    Expect::Fail
                } else if cur != *v {
                    Expect::Err(vec![cd("InvalidAccountNonce(address,uint256)", &[a(*x), u(cur)])])
                } else {
                    take(m, x);
                    Expect::Ok(vec![], vec![])
                };
                (cd("takeChecked(address,uint256)", &[a(*x), u(*v)]), e)
            }
        };
        let by = match op {
            NOp::TakeBy(by, _) | NOp::CheckedBy(by, ..) => *by,
            _ => addr(9),
        };
        step(&format!("{op:?}"), by, T, call, &e)?;
        Ok(matches!(e, Expect::Ok(..)))
    }
    fn check(&self, m: &NM) -> Result<(), String> {
        for (i, x) in self.accts.iter().enumerate() {
            must_view("nonces()", addr(9), T, cd("nonces(address)", &[a(*x)]), &enc(&[u(m.0[i])]))?;
        }
        Ok(())
    }
}
fn c22(c: &mut Check) {
    let steps = c.q(14, 40);
    let sys = NSys { accts: vec![who(0), T, ZERO], start: vec![U256::ZERO; 3], steps };
    c.run("nonces from zero", &format!("3 accounts incl. zero and the contract itself, taken by a stranger, by each account, by the contract; all histories until each account passed {steps} uses"), &sys, 1000);
    let mut edges = vec![n(254), n(255), n(65535), U256::MAX - n(2), U256::MAX];
    for i in [31, 32, 63, 64, 96, 127, 128, 160, 192, 255] {
        edges.push((U256::from(1) << i) - n(2));
    }
    for (i, e) in edges.iter().enumerate() {
        let o = edges[(i + 3) % edges.len()];
        let sys = NSys { accts: vec![who(0), who(2)], start: vec![*e, o], steps: 4 };
        c.run(&format!("nonces from {e:#x} and {o:#x}"), "crossing every word, half-word and byte boundary and the maximum", &sys, 1000);
    }
    let mut cases = vec![];
    for i in 0..160 {
        let mut x = who(0);
        x[i / 8] ^= 1 << (i % 8);
        cases.push(x);
    }
    c.enumerate("independent accounts", "every account differing in one bit", &cases, |x| {
        let sys = NSys { accts: vec![who(0), *x], start: vec![U256::ZERO; 2], steps: 9 };
        let (wd, mut m) = sys.init();
        with(|vm| vm.world = wd);
        for op in [NOp::Take(*x), NOp::Take(*x), NOp::Checked(who(0), n(0)), NOp::Checked(*x, n(2)), NOp::Checked(*x, n(2)), NOp::Pair(*x, who(0))] {
            sys.apply(&mut m, &op)?;
            sys.check(&m)?;
        }
        Ok(true)
    });
}

fn main() {
    host::install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let mut c = Check::new(&id);
    c.assume("the host model of the Stylus VM (storage cache, calls, reverts, logs) is faithful");
    match id.as_str() {
        "C19" => c19(&mut c),
        "C20" => c20(&mut c),
        "C21" => c21(&mut c),
        "C22" => c22(&mut c),
        _ => panic!("unknown id"),
    }
    c.finish()
}
