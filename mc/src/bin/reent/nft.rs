//! Receiver callbacks of ERC-721, consecutive ERC-721, ERC-1155 and the
//! ERC-721 wrapper.
use crate::*;
use alloy_primitives::{aliases::U96, FixedBytes};
use mc::erc1155ref::*;
use mc::erc721ref::*;
use openzeppelin_stylus::token::{
    erc1155::{
        self,
        extensions::{Erc1155Supply, IErc1155Burnable, IErc1155Supply},
        Erc1155,
    },
    erc721::{
        self,
        extensions::{consecutive, wrapper, Erc721Consecutive, Erc721Wrapper, IErc721Burnable},
        Erc721,
    },
};
use stylus_sdk::{abi::Bytes, prelude::*};

const T: Address = Address::new([0x72; 20]);
const UND: Address = Address::new([0x73; 20]);
const WRAP: Address = Address::new([0x74; 20]);

#[storage]
struct Nft {
    #[borrow]
    erc721: Erc721,
}
unsafe impl TopLevelStorage for Nft {}
#[public]
#[inherit(Erc721)]
impl Nft {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._mint(to, id)
    }
    fn safe_mint(&mut self, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._safe_mint(to, id, &vec![].into())
    }
    fn burn(&mut self, id: U256) -> Result<(), erc721::Error> {
        self.erc721.burn(id)
    }
    fn raw_safe_transfer(&mut self, from: Address, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._safe_transfer(from, to, id, &vec![].into())
    }
}
#[storage]
struct Con {
    #[borrow]
    con: Erc721Consecutive,
}
unsafe impl TopLevelStorage for Con {}
#[public]
#[inherit(Erc721Consecutive)]
impl Con {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), consecutive::Error> {
        self.con._mint(to, id)
    }
    fn safe_mint(&mut self, to: Address, id: U256) -> Result<(), consecutive::Error> {
        self.con._safe_mint(to, id, &vec![].into())
    }
    fn burn(&mut self, id: U256) -> Result<(), consecutive::Error> {
        self.con._update(Address::ZERO, id, stylus_sdk::msg::sender())?;
        Ok(())
    }
    fn raw_safe_transfer(&mut self, from: Address, to: Address, id: U256) -> Result<(), consecutive::Error> {
        self.con._safe_transfer(from, to, id, &vec![].into())
    }
    fn batch(&mut self, to: Address, n: U256) -> Result<U256, consecutive::Error> {
        Ok(U256::from(self.con._mint_consecutive(to, U96::from(n))?))
    }
}
#[storage]
struct Wrapped {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    wrapper: Erc721Wrapper,
}
unsafe impl TopLevelStorage for Wrapped {}
#[public]
#[inherit(Erc721)]
impl Wrapped {
    fn deposit_for(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, wrapper::Error> {
        self.wrapper.deposit_for(account, ids, &mut self.erc721)
    }
    fn withdraw_to(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, wrapper::Error> {
        self.wrapper.withdraw_to(account, ids, &mut self.erc721)
    }
    #[selector(name = "onERC721Received")]
    fn on_erc721_received(&mut self, op: Address, from: Address, id: U256, data: Bytes) -> Result<FixedBytes<4>, wrapper::Error> {
        self.wrapper.on_erc721_received(op, from, id, data, &mut self.erc721)
    }
}
#[storage]
struct Multi {
    #[borrow]
    erc1155: Erc1155,
}
unsafe impl TopLevelStorage for Multi {}
#[public]
#[inherit(Erc1155)]
impl Multi {
    fn mint(&mut self, to: Address, id: U256, v: U256) -> Result<(), erc1155::Error> {
        self.erc1155._mint(to, id, v, &vec![].into())
    }
    fn mint_batch(&mut self, to: Address, ids: Vec<U256>, vs: Vec<U256>) -> Result<(), erc1155::Error> {
        self.erc1155._mint_batch(to, ids, vs, &vec![].into())
    }
    fn burn(&mut self, from: Address, id: U256, v: U256) -> Result<(), erc1155::Error> {
        self.erc1155.burn(from, id, v)
    }
    fn burn_batch(&mut self, from: Address, ids: Vec<U256>, vs: Vec<U256>) -> Result<(), erc1155::Error> {
        self.erc1155.burn_batch(from, ids, vs)
    }
}
#[storage]
struct Tracked {
    #[borrow]
    sup: Erc1155Supply,
}
unsafe impl TopLevelStorage for Tracked {}
#[public]
#[inherit(Erc1155Supply)]
impl Tracked {
    fn mint(&mut self, to: Address, id: U256, v: U256) -> Result<(), erc1155::Error> {
        self.sup._mint(to, id, v, &vec![].into())
    }
    fn mint_batch(&mut self, to: Address, ids: Vec<U256>, vs: Vec<U256>) -> Result<(), erc1155::Error> {
        self.sup._mint_batch(to, ids, vs, &vec![].into())
    }
    fn burn(&mut self, from: Address, id: U256, v: U256) -> Result<(), erc1155::Error> {
        if from != stylus_sdk::msg::sender() {
            return Err(erc1155::Error::MissingApprovalForAll(erc1155::ERC1155MissingApprovalForAll {
                operator: stylus_sdk::msg::sender(),
                owner: from,
            }));
        }
        self.sup._burn(from, id, v)
    }
    fn burn_batch(&mut self, from: Address, ids: Vec<U256>, vs: Vec<U256>) -> Result<(), erc1155::Error> {
        if from != stylus_sdk::msg::sender() {
            return Err(erc1155::Error::MissingApprovalForAll(erc1155::ERC1155MissingApprovalForAll {
                operator: stylus_sdk::msg::sender(),
                owner: from,
            }));
        }
        self.sup._burn_batch(from, ids, vs)
    }
    fn total_supply(&self, id: U256) -> U256 {
        IErc1155Supply::total_supply(&self.sup, id)
    }
    #[selector(name = "totalSupply")]
    fn total_supply_all(&self) -> U256 {
        IErc1155Supply::total_supply_all(&self.sup)
    }
    fn exists(&self, id: U256) -> bool {
        self.sup.exists(id)
    }
}

// ---------------------------------------------------------------- ERC-721
#[derive(Clone, Debug)]
enum NC {
    Mint(Address, u64),
    SafeMint(Address, u64),
    Burn(u64),
    Transfer(Address, Address, u64),
    Safe(Address, Address, u64),
    SafeData(Address, Address, u64),
    RawSafe(Address, Address, u64),
    Approve(Address, u64),
    SetAll(Address, bool),
    OwnerOf(u64),
    BalanceOf(Address),
    Approved(u64),
}
struct NSys {
    con: bool,
    progs: usize,
}
impl NSys {
    fn ids(&self) -> Vec<U256> {
        (0..6).map(n).collect()
    }
}
impl Party for NSys {
    type M = M721;
    type C = NC;
    fn start(&self) -> (World, M721) {
        let mut wd = World::default();
        wd.acct(T).code = if self.con { native!(Con) } else { native!(Nft) };
        for i in 1..=2 {
            wd.acct(ag(i)).code = Code::Native(agent);
        }
        if self.con {
            wd.set_slot(T, 6, n(0) | (n(5000) << 96));
        }
        let mut m = M721::new(T);
        with(|vm| vm.world = wd);
        // 0,1: account, 2: agent 1, 3: agent 2; 4 is still to be minted
        if self.con {
            for (x, k) in [(addr(1), 2u64), (ag(1), 1), (ag(2), 1)] {
                assert!(tx(addr(1), T, U256::ZERO, cd("batch(address,uint256)", &[a(x), u(n(k))])).ok, "batch");
                for _ in 0..k {
                    let id = m.owner.len() as u64;
                    let _ = m.mint(x, n(id));
                }
            }
        } else {
            for (i, x) in [addr(1), addr(1), ag(1), ag(2)].iter().enumerate() {
                assert!(tx(addr(1), T, U256::ZERO, cd("mint(address,uint256)", &[a(*x), w(i as u64)])).ok, "mint");
                let _ = m.mint(*x, n(i as u64));
            }
        }
        (with(|vm| vm.world.clone()), m)
    }
    fn encode(&self, c: &NC) -> (Address, Vec<u8>) {
        let v = |x: &u64| u(n(*x));
        let d = match c {
            NC::Mint(t, i) => cd("mint(address,uint256)", &[a(*t), v(i)]),
            NC::SafeMint(t, i) => cd("safeMint(address,uint256)", &[a(*t), v(i)]),
            NC::Burn(i) => cd("burn(uint256)", &[v(i)]),
            NC::Transfer(f, t, i) => cd("transferFrom(address,address,uint256)", &[a(*f), a(*t), v(i)]),
            NC::Safe(f, t, i) => cd("safeTransferFrom(address,address,uint256)", &[a(*f), a(*t), v(i)]),
            NC::SafeData(f, t, i) => cd("safeTransferFrom(address,address,uint256,bytes)", &[a(*f), a(*t), v(i), bytes(b"abc")]),
            NC::RawSafe(f, t, i) => cd("rawSafeTransfer(address,address,uint256)", &[a(*f), a(*t), v(i)]),
            NC::Approve(t, i) => cd("approve(address,uint256)", &[a(*t), v(i)]),
            NC::SetAll(t, f) => cd("setApprovalForAll(address,bool)", &[a(*t), b(*f)]),
            NC::OwnerOf(i) => cd("ownerOf(uint256)", &[v(i)]),
            NC::BalanceOf(x) => cd("balanceOf(address)", &[a(*x)]),
            NC::Approved(i) => cd("getApproved(uint256)", &[v(i)]),
        };
        (T, d)
    }
    fn body(&self, cx: &mut Cx<NC>, m: &mut M721, by: Address, c: &NC) -> Ret {
        match *c {
            NC::Mint(t, i) => logs(cx, m.mint(t, n(i)))?,
            NC::SafeMint(t, i) => {
                logs(cx, m.mint(t, n(i)))?;
                callback(self, cx, m, t);
            }
            NC::Burn(i) => logs(cx, m.burn_by(by, n(i)))?,
            NC::Transfer(f, t, i) => logs(cx, m.transfer_from(by, f, t, n(i)))?,
            NC::Safe(f, t, i) | NC::SafeData(f, t, i) => {
                logs(cx, m.transfer_from(by, f, t, n(i)))?;
                callback(self, cx, m, t);
            }
            NC::RawSafe(f, t, i) => {
                logs(cx, m.transfer(f, t, n(i)))?;
                callback(self, cx, m, t);
            }
            NC::Approve(t, i) => logs(cx, m.approve(by, t, n(i)))?,
            NC::SetAll(t, f) => logs(cx, m.set_all(by, t, f))?,
            NC::OwnerOf(i) => return m.o(n(i)).map(|o| enc(&[a(o)])).ok_or_else(|| vec![e_missing(n(i))]),
            NC::BalanceOf(x) => return Ok(enc(&[w(m.count(x))])),
            NC::Approved(i) => {
                return match m.o(n(i)) {
                    None => Err(vec![e_missing(n(i))]),
                    Some(_) => Ok(enc(&[a(m.appr.get(&n(i)).copied().unwrap_or(ZERO))])),
                }
            }
        }
        Ok(vec![])
    }
    fn outer(&self) -> Vec<(Address, NC)> {
        let (e, g, h) = (addr(1), ag(1), ag(2));
        let mut v = vec![(e, NC::SafeMint(g, 4)), (g, NC::SafeMint(g, 4)), (e, NC::SafeMint(h, 4))];
        for t in [g, h] {
            for i in [0, 1] {
                v.push((e, NC::Safe(e, t, i)));
                v.push((e, NC::RawSafe(e, t, i)));
            }
        }
        v.push((e, NC::SafeData(e, g, 1)));
        v.push((g, NC::Safe(g, h, 2)));
        v.push((g, NC::Safe(g, g, 2)));
        v.push((h, NC::SafeData(h, g, 3)));
        v.push((g, NC::SetAll(h, true)));
        v
    }
    fn inner(&self) -> Vec<NC> {
        let (e, g, h) = (addr(1), ag(1), ag(2));
        let mut v = vec![];
        for i in [0, 1, 2, 4] {
            v.push(NC::Transfer(g, e, i));
            v.push(NC::Safe(g, h, i));
            v.push(NC::Burn(i));
            v.push(NC::Approve(e, i));
            v.push(NC::OwnerOf(i));
        }
        v.extend([NC::SafeMint(h, 4), NC::SafeMint(g, 5), NC::Mint(e, 4), NC::Transfer(h, e, 1), NC::Safe(h, g, 3), NC::SetAll(h, true), NC::BalanceOf(g), NC::BalanceOf(e), NC::Approved(1)]);
        v
    }
    fn views(&self, m: &M721) -> Result<(), String> {
        m.check_views(&[addr(1), ag(1), ag(2)], &self.ids())
    }
    fn max_prog(&self) -> usize {
        self.progs
    }
}

// --------------------------------------------------------------- ERC-1155
#[derive(Clone, Debug)]
enum MC {
    Mint(Address, Vec<u64>, Vec<u64>),
    Burn(Address, Vec<u64>, Vec<u64>),
    Transfer(Address, Address, Vec<u64>, Vec<u64>),
    SetAll(Address, bool),
    BalanceOf(Address, u64),
    Supply(u64),
    SupplyAll,
}
struct MSys {
    supply: bool,
    progs: usize,
}
fn ns(v: &[u64]) -> Vec<U256> {
    v.iter().map(|x| n(*x)).collect()
}
impl Party for MSys {
    type M = M1155;
    type C = MC;
    fn start(&self) -> (World, M1155) {
        let mut wd = World::default();
        wd.acct(T).code = if self.supply { native!(Tracked) } else { native!(Multi) };
        for i in 1..=2 {
            wd.acct(ag(i)).code = Code::Native(agent);
        }
        with(|vm| vm.world = wd);
        let mut m = M1155::new(T, self.supply);
        for x in [addr(1), ag(1), ag(2)] {
            let (ids, vs) = (ns(&[1, 2]), ns(&[3, 2]));
            assert!(tx(addr(1), T, U256::ZERO, cd("mintBatch(address,uint256[],uint256[])", &[a(x), us(&ids), us(&vs)])).ok);
            let _ = m.mint(addr(1), x, &ids, &vs);
        }
        (with(|vm| vm.world.clone()), m)
    }
    fn encode(&self, c: &MC) -> (Address, Vec<u8>) {
        let d = match c {
            MC::Mint(t, i, v) if i.len() == 1 => cd("mint(address,uint256,uint256)", &[a(*t), w(i[0]), w(v[0])]),
            MC::Mint(t, i, v) => cd("mintBatch(address,uint256[],uint256[])", &[a(*t), us(&ns(i)), us(&ns(v))]),
            MC::Burn(t, i, v) if i.len() == 1 => cd("burn(address,uint256,uint256)", &[a(*t), w(i[0]), w(v[0])]),
            MC::Burn(t, i, v) => cd("burnBatch(address,uint256[],uint256[])", &[a(*t), us(&ns(i)), us(&ns(v))]),
            MC::Transfer(f, t, i, v) if i.len() == 1 => {
                cd("safeTransferFrom(address,address,uint256,uint256,bytes)", &[a(*f), a(*t), w(i[0]), w(v[0]), bytes(b"")])
            }
            MC::Transfer(f, t, i, v) => cd("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)", &[a(*f), a(*t), us(&ns(i)), us(&ns(v)), bytes(b"")]),
            MC::SetAll(t, f) => cd("setApprovalForAll(address,bool)", &[a(*t), b(*f)]),
            MC::BalanceOf(x, i) => cd("balanceOf(address,uint256)", &[a(*x), w(*i)]),
            MC::Supply(i) if self.supply => cd("totalSupply(uint256)", &[w(*i)]),
            MC::SupplyAll if self.supply => cd("totalSupply()", &[]),
            MC::Supply(i) => cd("balanceOf(address,uint256)", &[a(ag(2)), w(*i)]),
            MC::SupplyAll => cd("isApprovedForAll(address,address)", &[a(ag(1)), a(ag(2))]),
        };
        (T, d)
    }
    fn body(&self, cx: &mut Cx<MC>, m: &mut M1155, by: Address, c: &MC) -> Ret {
        match c {
            MC::Mint(t, i, v) => {
                logs(cx, m.mint(by, *t, &ns(i), &ns(v)))?;
                callback(self, cx, m, *t);
            }
            MC::Burn(f, i, v) if self.supply && *f != by => {
                let _ = (i, v);
                return Err(vec![e_missing_all(by, *f)]);
            }
            MC::Burn(f, i, v) => logs(cx, m.burn(by, *f, &ns(i), &ns(v), true))?,
            MC::Transfer(f, t, i, v) => {
                logs(cx, m.transfer(by, *f, *t, &ns(i), &ns(v)))?;
                callback(self, cx, m, *t);
            }
            MC::SetAll(t, f) => logs(cx, m.set_all(by, *t, *f))?,
            MC::BalanceOf(x, i) => return Ok(enc(&[u(m.b(n(*i), *x))])),
            MC::Supply(i) if self.supply => return Ok(enc(&[u(m.total(n(*i)).unwrap())])),
            MC::SupplyAll if self.supply => return Ok(enc(&[u(m.total_all().unwrap())])),
            MC::Supply(i) => return Ok(enc(&[u(m.b(n(*i), ag(2)))])),
            MC::SupplyAll => return Ok(enc(&[b(m.ops.contains(&(ag(1), ag(2))))])),
        }
        Ok(vec![])
    }
    fn outer(&self) -> Vec<(Address, MC)> {
        let (e, g, h) = (addr(1), ag(1), ag(2));
        let mut v = vec![];
        for t in [g, h] {
            v.push((e, MC::Mint(t, vec![1], vec![2])));
            v.push((e, MC::Mint(t, vec![2, 1], vec![1, 2])));
            v.push((e, MC::Transfer(e, t, vec![1], vec![1])));
            v.push((e, MC::Transfer(e, t, vec![1, 2], vec![1, 1])));
        }
        v.push((g, MC::Transfer(g, g, vec![1], vec![1])));
        v.push((g, MC::Transfer(g, h, vec![1, 1], vec![1, 1])));
        v.push((g, MC::Mint(g, vec![1], vec![0])));
        v
    }
    fn inner(&self) -> Vec<MC> {
        let (e, g, h) = (addr(1), ag(1), ag(2));
        vec![
            MC::Mint(g, vec![1], vec![1]),
            MC::Mint(h, vec![1, 2], vec![1, 1]),
            MC::Burn(g, vec![1], vec![1]),
            MC::Burn(g, vec![1], vec![4]),
            MC::Burn(g, vec![1, 2], vec![1, 2]),
            MC::Burn(e, vec![1], vec![1]),
            MC::Transfer(g, e, vec![1], vec![2]),
            MC::Transfer(g, h, vec![2, 1], vec![1, 1]),
            MC::Transfer(h, g, vec![1], vec![1]),
            MC::SetAll(h, true),
            MC::BalanceOf(g, 1),
            MC::BalanceOf(e, 1),
            MC::Supply(1),
            MC::SupplyAll,
        ]
    }
    fn views(&self, m: &M1155) -> Result<(), String> {
        m.check_views(&[addr(1), ag(1), ag(2)], &[n(1), n(2)])
    }
    fn max_prog(&self) -> usize {
        self.progs
    }
}

// --------------------------------------------------------- ERC-721 wrapper
#[derive(Clone, Hash)]
pub struct WM {
    u: M721,
    w: M721,
}
#[derive(Clone, Debug)]
enum WC {
    Deposit(Address, Vec<u64>),
    Withdraw(Address, Vec<u64>),
    /// safe transfer of an underlying token
    SafeU(Address, Address, u64),
    MoveU(Address, Address, u64),
    MoveW(Address, Address, u64),
    SafeW(Address, Address, u64),
    ApproveW(Address, u64),
    OwnerW(u64),
    OwnerU(u64),
    BalanceW(Address),
}
struct WSys {
    progs: usize,
}
impl WSys {
    fn safe_u(&self, cx: &mut Cx<WC>, m: &mut WM, by: Address, f: Address, t: Address, i: U256) -> Result<(), Errs> {
        logs(cx, m.u.transfer_from(by, f, t, i))?;
        if t == WRAP {
            logs(cx, m.w.mint(f, i))?;
            callback(self, cx, m, f);
        } else {
            callback(self, cx, m, t);
        }
        Ok(())
    }
}
impl Party for WSys {
    type M = WM;
    type C = WC;
    fn start(&self) -> (World, WM) {
        let mut wd = World::default();
        wd.acct(UND).code = native!(Nft);
        wd.acct(WRAP).code = native!(Wrapped);
        wd.set_slot(WRAP, 4, U256::from_be_bytes(UND.into_word().0));
        for i in 1..=2 {
            wd.acct(ag(i)).code = Code::Native(agent);
        }
        with(|vm| vm.world = wd);
        let mut m = WM { u: M721::new(UND), w: M721::new(WRAP) };
        // 0..=2 of the account, 3..=5 of the agent; 2 and 5 are already wrapped
        for i in 0..6u64 {
            let x = if i < 3 { addr(1) } else { ag(1) };
            assert!(tx(x, UND, U256::ZERO, cd("mint(address,uint256)", &[a(x), w(i)])).ok);
            let _ = m.u.mint(x, n(i));
        }
        for x in [addr(1), ag(1), ag(2)] {
            assert!(tx(x, UND, U256::ZERO, cd("setApprovalForAll(address,bool)", &[a(WRAP), b(true)])).ok);
            let _ = m.u.set_all(x, WRAP, true);
        }
        for (x, i) in [(addr(1), 2u64), (ag(1), 5)] {
            let mut cx = Cx { prog: Default::default(), logs: vec![], obs: vec![] };
            let c = WC::Deposit(x, vec![i]);
            exec(self, &mut cx, &mut m, x, &c).expect("set-up");
            let (t, d) = self.encode(&c);
            assert!(tx(x, t, U256::ZERO, d).ok, "set-up");
        }
        (with(|vm| vm.world.clone()), m)
    }
    fn encode(&self, c: &WC) -> (Address, Vec<u8>) {
        match c {
            WC::Deposit(t, i) => (WRAP, cd("depositFor(address,uint256[])", &[a(*t), us(&ns(i))])),
            WC::Withdraw(t, i) => (WRAP, cd("withdrawTo(address,uint256[])", &[a(*t), us(&ns(i))])),
            WC::SafeU(f, t, i) => (UND, cd("safeTransferFrom(address,address,uint256)", &[a(*f), a(*t), w(*i)])),
            WC::MoveU(f, t, i) => (UND, cd("transferFrom(address,address,uint256)", &[a(*f), a(*t), w(*i)])),
            WC::MoveW(f, t, i) => (WRAP, cd("transferFrom(address,address,uint256)", &[a(*f), a(*t), w(*i)])),
            WC::SafeW(f, t, i) => (WRAP, cd("safeTransferFrom(address,address,uint256)", &[a(*f), a(*t), w(*i)])),
            WC::ApproveW(t, i) => (WRAP, cd("approve(address,uint256)", &[a(*t), w(*i)])),
            WC::OwnerW(i) => (WRAP, cd("ownerOf(uint256)", &[w(*i)])),
            WC::OwnerU(i) => (UND, cd("ownerOf(uint256)", &[w(*i)])),
            WC::BalanceW(x) => (WRAP, cd("balanceOf(address)", &[a(*x)])),
        }
    }
    fn body(&self, cx: &mut Cx<WC>, m: &mut WM, by: Address, c: &WC) -> Ret {
        match c {
            WC::Deposit(t, ids) => {
                for i in ns(ids) {
                    logs(cx, m.u.transfer_from(WRAP, by, WRAP, i))?;
                    logs(cx, m.w.mint(*t, i))?;
                    callback(self, cx, m, *t);
                }
                Ok(enc(&[b(true)]))
            }
            WC::Withdraw(t, ids) => {
                for i in ns(ids) {
                    logs(cx, m.w.burn_by(by, i))?;
                    self.safe_u(cx, m, WRAP, WRAP, *t, i)?;
                }
                Ok(enc(&[b(true)]))
            }
            WC::SafeU(f, t, i) => self.safe_u(cx, m, by, *f, *t, n(*i)).map(|_| vec![]),
            WC::MoveU(f, t, i) => logs(cx, m.u.transfer_from(by, *f, *t, n(*i))).map(|_| vec![]),
            WC::MoveW(f, t, i) => logs(cx, m.w.transfer_from(by, *f, *t, n(*i))).map(|_| vec![]),
            WC::SafeW(f, t, i) => {
                logs(cx, m.w.transfer_from(by, *f, *t, n(*i)))?;
                callback(self, cx, m, *t);
                Ok(vec![])
            }
            WC::ApproveW(t, i) => logs(cx, m.w.approve(by, *t, n(*i))).map(|_| vec![]),
            WC::OwnerW(i) => m.w.o(n(*i)).map(|o| enc(&[a(o)])).ok_or_else(|| vec![e_missing(n(*i))]),
            WC::OwnerU(i) => m.u.o(n(*i)).map(|o| enc(&[a(o)])).ok_or_else(|| vec![e_missing(n(*i))]),
            WC::BalanceW(x) => Ok(enc(&[w(m.w.count(*x))])),
        }
    }
    fn outer(&self) -> Vec<(Address, WC)> {
        let (e, g, h) = (addr(1), ag(1), ag(2));
        vec![
            (e, WC::Deposit(g, vec![0])),
            (e, WC::Deposit(g, vec![0, 1])),
            (e, WC::Deposit(g, vec![1, 0])),
            (e, WC::Deposit(h, vec![0, 1])),
            (g, WC::Deposit(g, vec![3, 4])),
            (e, WC::Withdraw(g, vec![2])),
            (e, WC::Withdraw(g, vec![2, 0])),
            (g, WC::Withdraw(g, vec![5])),
            (g, WC::Withdraw(g, vec![5, 3])),
            (g, WC::Withdraw(h, vec![5])),
            (g, WC::SafeU(g, WRAP, 3)),
            (e, WC::SafeU(e, g, 0)),
            (e, WC::SafeW(e, g, 2)),
        ]
    }
    fn inner(&self) -> Vec<WC> {
        let (e, g, h) = (addr(1), ag(1), ag(2));
        let mut v = vec![];
        for i in [0, 1, 2] {
            v.push(WC::Withdraw(g, vec![i]));
            v.push(WC::Withdraw(e, vec![i]));
            v.push(WC::MoveW(g, e, i));
            v.push(WC::SafeU(g, WRAP, i));
            v.push(WC::OwnerW(i));
            v.push(WC::OwnerU(i));
        }
        v.extend([
            WC::Deposit(g, vec![3]),
            WC::Deposit(e, vec![3]),
            WC::Deposit(h, vec![4]),
            WC::Withdraw(g, vec![5]),
            WC::Withdraw(h, vec![3]),
            WC::SafeU(g, WRAP, 4),
            WC::MoveU(g, e, 3),
            WC::MoveW(g, h, 5),
            WC::SafeW(g, h, 0),
            WC::ApproveW(h, 0),
            WC::BalanceW(g),
        ]);
        v
    }
    fn views(&self, m: &WM) -> Result<(), String> {
        let ids: Vec<_> = (0..6).map(n).collect();
        let who = [addr(1), ag(1), ag(2), WRAP];
        m.u.check_views(&who, &ids)?;
        m.w.check_views(&who, &ids)?;
        for id in m.w.owner.keys() {
            if m.u.o(*id) != Some(WRAP) {
                return Err(format!("wrapped {id} is not backed"));
            }
        }
        Ok(())
    }
    fn max_prog(&self) -> usize {
        self.progs
    }
}

pub fn run(ck: &mut Check) {
    let t = ck.thorough();
    let b = "1 account, 2 agents; every operation with every program of one or two inner operations run in the receiver's callbacks";
    for con in [false, true] {
        let name = if con { "consecutive ERC-721" } else { "ERC-721" };
        ck.run(&format!("{name} receiver, one inner operation"), b, &Re(NSys { con, progs: 1 }), if t { 4 } else { 3 });
        ck.run(&format!("{name} receiver, two inner operations"), b, &Re(NSys { con, progs: 2 }), if t { 2 } else { 1 });
    }
    for supply in [false, true] {
        let name = if supply { "ERC-1155 with supply" } else { "ERC-1155" };
        ck.run(&format!("{name} receiver, one inner operation"), b, &Re(MSys { supply, progs: 1 }), if t { 4 } else { 3 });
        ck.run(&format!("{name} receiver, two inner operations"), b, &Re(MSys { supply, progs: 2 }), if t { 2 } else { 1 });
    }
    ck.run("ERC-721 wrapper, one inner operation", b, &Re(WSys { progs: 1 }), if t { 4 } else { 3 });
    ck.run("ERC-721 wrapper, two inner operations", b, &Re(WSys { progs: 2 }), if t { 2 } else { 1 });
}
