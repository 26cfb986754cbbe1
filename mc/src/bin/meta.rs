//! C14 (metadata), C18 (royalties), C29 (interface detection and dispatch).
extern crate alloc;
use alloy_primitives::{aliases::U96, Address, FixedBytes, U256, U512};
use mc::abi::*;
use mc::erc20ref::{expect, Step};
use mc::erc721ref::{e_missing, M721};
use mc::host;
use mc::report::Check;
use mc::*;
use openzeppelin_stylus::{
    access::{control::AccessControl, ownable::Ownable, ownable_two_step::Ownable2Step},
    finance::vesting_wallet::VestingWallet,
    token::{
        common::erc2981::{self, Erc2981},
        erc1155::{
            extensions::{Erc1155MetadataUri, Erc1155Supply, Erc1155UriStorage},
            Erc1155,
        },
        erc20::{
            extensions::{Capped, Erc20FlashMint, Erc20Metadata, Erc20Wrapper, Erc4626},
            utils::SafeErc20,
            Erc20,
        },
        erc721::{
            self,
            extensions::{Erc721Consecutive, Erc721Enumerable, Erc721Metadata, Erc721UriStorage},
            Erc721,
        },
    },
    utils::{
        introspection::erc165::{Erc165, IErc165},
        nonces::Nonces,
        Metadata, Pausable,
    },
};
use std::collections::BTreeMap;
use stylus_sdk::prelude::*;

const T: Address = Address::new([0x76; 20]);
const ZERO: Address = Address::ZERO;
fn n(v: u64) -> U256 {
    U256::from(v)
}

// ---------------------------------------------------------------- contracts
#[storage]
struct Nft {
    #[borrow]
    erc721: Erc721,           // slots 0-3
    #[borrow]
    metadata: Erc721Metadata, // slots 4-6: name, symbol, base
    uris: Erc721UriStorage,   // slot 7
}
unsafe impl TopLevelStorage for Nft {}
#[public]
#[inherit(Erc721, Erc721Metadata)]
impl Nft {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._mint(to, id)
    }
    fn burn(&mut self, id: U256) -> Result<(), erc721::Error> {
        self.erc721._burn(id)
    }
    #[selector(name = "tokenURI")]
    fn token_uri(&self, id: U256) -> Result<String, erc721::Error> {
        self.uris.token_uri(id, &self.erc721, &self.metadata)
    }
    fn plain_uri(&self, id: U256) -> Result<String, erc721::Error> {
        self.metadata.token_uri(id, &self.erc721)
    }
    fn base_uri(&self) -> String {
        self.metadata.base_uri()
    }
    fn set_uri(&mut self, id: U256, v: String) {
        self.uris._set_token_uri(id, v);
    }
}
#[storage]
struct Multi {
    #[borrow]
    meta: Erc1155MetadataUri, // slot 0
    uris: Erc1155UriStorage,  // slots 1-2
}
unsafe impl TopLevelStorage for Multi {}
#[public]
impl Multi {
    fn uri(&self, id: U256) -> String {
        self.uris.uri(id, &self.meta)
    }
    fn set_uri(&mut self, id: U256, v: String) {
        self.uris.set_token_uri(id, v, &self.meta);
    }
    fn set_base(&mut self, v: String) {
        self.uris.set_base_uri(v);
    }
}
#[storage]
struct Multi0 {
    #[borrow]
    meta: Erc1155MetadataUri,
}
unsafe impl TopLevelStorage for Multi0 {}
#[public]
#[inherit(Erc1155MetadataUri)]
impl Multi0 {}
#[storage]
struct Fungible {
    #[borrow]
    meta: Erc20Metadata,
}
unsafe impl TopLevelStorage for Fungible {}
#[public]
#[inherit(Erc20Metadata)]
impl Fungible {}
#[storage]
struct Plain {
    #[borrow]
    meta: Metadata,
}
unsafe impl TopLevelStorage for Plain {}
#[public]
#[inherit(Metadata)]
impl Plain {}
#[storage]
struct Cap {
    #[borrow]
    cap: Capped,
}
unsafe impl TopLevelStorage for Cap {}
#[public]
#[inherit(Capped)]
impl Cap {}

fn texts() -> Vec<String> {
    vec![
        "".into(),
        "x".into(),
        "https://e/".into(),
        "y".repeat(31),
        "z".repeat(32),
        "w".repeat(33),
        "ü€𝄞".into(),
        format!("https://{}/", "long".repeat(20)),
    ]
}

// ---------------------------------------------------------------------- C14
#[derive(Clone, Debug)]
enum MOp {
    Mint(U256),
    Burn(U256),
    SetUri(U256, usize),
}
struct NftMeta {
    base: usize,
    ids: Vec<U256>,
    uris: Vec<usize>,
    txt: Vec<String>,
}
#[derive(Clone, Hash)]
struct MM {
    m: M721,
    uri: BTreeMap<U256, usize>,
}
impl System for NftMeta {
    type Model = MM;
    type Op = MOp;
    fn init(&self) -> (World, MM) {
        let mut wd = World::default();
        wd.acct(T).code = native!(Nft);
        wd.set_string(T, 4, &self.txt[(self.base + 3) % self.txt.len()]);
        wd.set_string(T, 5, &self.txt[(self.base + 5) % self.txt.len()]);
        wd.set_string(T, 6, &self.txt[self.base]);
        (wd, MM { m: M721::new(T), uri: BTreeMap::new() })
    }
    fn ops(&self, _m: &MM) -> Vec<MOp> {
        let mut v = vec![];
        for id in &self.ids {
            v.push(MOp::Mint(*id));
            v.push(MOp::Burn(*id));
            for x in &self.uris {
                v.push(MOp::SetUri(*id, *x));
            }
        }
        v
    }
    fn apply(&self, m: &mut MM, op: &MOp) -> Result<bool, String> {
        let (r, call): (Step, _) = match op {
            MOp::Mint(id) => (m.m.mint(addr(1), *id), cd("mint(address,uint256)", &[a(addr(1)), u(*id)])),
            MOp::Burn(id) => (m.m.burn(*id), cd("burn(uint256)", &[u(*id)])),
            MOp::SetUri(id, x) => {
                m.uri.insert(*id, *x);
                if self.txt[*x].is_empty() {
                    m.uri.remove(id);
                }
                (Ok(vec![ev(T, "MetadataUpdate(uint256)", &[], &[u(*id)])]), cd("setUri(uint256,string)", &[u(*id), s(&self.txt[*x])]))
            }
        };
        step(&format!("{op:?}"), addr(1), T, call, &expect(&r, vec![]))?;
        Ok(r.is_ok())
    }
    fn check(&self, m: &MM) -> Result<(), String> {
        let q = addr(1);
        let base = &self.txt[self.base];
        must_view("name()", q, T, cd("name()", &[]), &enc(&[s(&self.txt[(self.base + 3) % self.txt.len()])]))?;
        must_view("symbol()", q, T, cd("symbol()", &[]), &enc(&[s(&self.txt[(self.base + 5) % self.txt.len()])]))?;
        must_view("baseUri()", q, T, cd("baseUri()", &[]), &enc(&[s(base)]))?;
        for id in &self.ids {
            let d = cd("tokenURI(uint256)", &[u(*id)]);
            let p = cd("plainUri(uint256)", &[u(*id)]);
            if m.m.o(*id).is_none() {
                must_fail_view("tokenURI", q, T, d, &[e_missing(*id)])?;
                must_fail_view("plainURI", q, T, p, &[e_missing(*id)])?;
                continue;
            }
            let plain = if base.is_empty() { String::new() } else { format!("{base}{id}") };
            let own = m.uri.get(id).map(|x| self.txt[*x].clone()).unwrap_or_default();
            let full = if own.is_empty() { plain.clone() } else { format!("{base}{own}") };
            must_view(&format!("tokenURI({id})"), q, T, d, &enc(&[s(&full)]))?;
            must_view(&format!("plainURI({id})"), q, T, p, &enc(&[s(&plain)]))?;
        }
        Ok(())
    }
}
#[derive(Clone, Debug)]
enum UOp {
    SetUri(U256, usize),
    SetBase(usize),
}
struct MultiMeta {
    shared: usize,
    ids: Vec<U256>,
    uris: Vec<usize>,
    txt: Vec<String>,
}
#[derive(Clone, Hash)]
struct UM {
    base: usize,
    uri: BTreeMap<U256, usize>,
}
impl MultiMeta {
    fn uri(&self, m: &UM, id: U256) -> String {
        let own = m.uri.get(&id).map(|x| self.txt[*x].clone()).unwrap_or_default();
        if own.is_empty() {
            self.txt[self.shared].clone()
        } else {
            format!("{}{}", self.txt[m.base], own)
        }
    }
}
impl System for MultiMeta {
    type Model = UM;
    type Op = UOp;
    fn init(&self) -> (World, UM) {
        let mut wd = World::default();
        wd.acct(T).code = native!(Multi);
        wd.set_string(T, 0, &self.txt[self.shared]);
        (wd, UM { base: 0, uri: BTreeMap::new() })
    }
    fn ops(&self, _m: &UM) -> Vec<UOp> {
        let mut v = vec![];
        for x in &self.uris {
            v.push(UOp::SetBase(*x));
            for id in &self.ids {
                v.push(UOp::SetUri(*id, *x));
            }
        }
        v
    }
    fn apply(&self, m: &mut UM, op: &UOp) -> Result<bool, String> {
        let (l, call) = match op {
            UOp::SetBase(x) => {
                m.base = *x;
                (vec![], cd("setBase(string)", &[s(&self.txt[*x])]))
            }
            UOp::SetUri(id, x) => {
                m.uri.insert(*id, *x);
                (vec![ev(T, "URI(string,uint256)", &[u(*id)], &[s(&self.uri(m, *id))])], cd("setUri(uint256,string)", &[u(*id), s(&self.txt[*x])]))
            }
        };
        step(&format!("{op:?}"), addr(1), T, call, &Expect::Ok(vec![], l))?;
        Ok(true)
    }
    fn check(&self, m: &UM) -> Result<(), String> {
        for id in self.ids.iter().chain(&[n(77)]) {
            must_view(&format!("uri({id})"), addr(1), T, cd("uri(uint256)", &[u(*id)]), &enc(&[s(&self.uri(m, *id))]))?;
        }
        Ok(())
    }
}
fn c14(c: &mut Check) {
    let txt = texts();
    for base in 0..txt.len() {
        let sys = NftMeta { base, ids: vec![n(0), n(1234567890), U256::MAX], uris: vec![0, 1, 4, 7], txt: txt.clone() };
        c.run(&format!("erc721 uri, base #{base} ({} bytes)", txt[base].len()), "ids {0, 1234567890, max}; mint, burn, set per-token URI of 0, 1, 32 and 90 bytes; to a fixed point", &sys, 20);
    }
    for shared in 0..txt.len() {
        let sys = MultiMeta { shared, ids: vec![n(0), n(5), U256::MAX], uris: vec![0, 1, 3, 5, 6], txt: txt.clone() };
        c.run(&format!("erc1155 uri, shared #{shared}"), "ids {0,5,max}, base and per-token URI of 0, 1, 31, 33 bytes and multi-byte text; to a fixed point", &sys, 20);
    }
    // token ids in decimal: every length
    let mut ids: Vec<U256> = (0..=1100).map(n).collect();
    let mut p = n(1);
    for _ in 0..77 {
        p *= n(10);
        ids.extend([p - n(1), p, p + n(1), p + p]);
    }
    for i in 0..256 {
        ids.push((U256::from(1) << i) - n(1));
        ids.push(U256::from(1) << i);
    }
    c.enumerate("decimal identifiers", "0..1100, powers of ten and two and their neighbours", &ids, |id| {
        let mut wd = World::default();
        wd.acct(T).code = native!(Nft);
        wd.set_string(T, 6, "b/");
        with(|vm| vm.world = wd);
        let out = host::tx(addr(1), T, U256::ZERO, cd("mint(address,uint256)", &[a(addr(1)), u(*id)]));
        if !out.ok {
            return Err("mint".into());
        }
        must_view("tokenURI", addr(1), T, cd("tokenURI(uint256)", &[u(*id)]), &enc(&[s(&format!("b/{id}"))]))?;
        Ok(true)
    });
    // texts of every length and with characters that could be taken for structure
    let mut many: Vec<String> = (0..c.q(70, 140)).map(|l| "abcdefghij".chars().cycle().take(l).collect()).collect();
    for t in ["/", "a/", "/a", "//", " ", " a ", "ipfs://Qm", "ipfs://", "https://e/", "http://e", "data:,", "{id}", "{id}.json", "0", "1", ".json", "\0", "a\0", "%7Bid%7D", "\n", "?", "#", "Ä", "..", "null"] {
        many.push(t.into());
    }
    many.push("q".repeat(255));
    many.push("q".repeat(256));
    many.push("q".repeat(1000));
    let ix: Vec<(usize, usize)> = (0..many.len()).flat_map(|x| (0..many.len()).map(move |y| (x, y))).collect();
    c.enumerate("texts", "every pair of base and own text (each length up to 69 (thorough 139), 255, 256, 1000; separators, schemes, placeholders, zero bytes, white space), ids {0, 7, max}", &ix, |(x, y)| {
        let d = Address::new([0x79; 20]);
        let q = addr(1);
        for id in [n(0), n(7), U256::MAX] {
            let mut wd = World::default();
            wd.acct(T).code = native!(Nft);
            wd.set_string(T, 6, &many[*x]);
            wd.acct(d).code = native!(Multi);
            wd.set_string(d, 0, "shared/{id}");
            with(|vm| vm.world = wd);
            let (base, own) = (&many[*x], &many[*y]);
            let set = cd("setUri(uint256,string)", &[u(id), s(own)]);
            step("mint", q, T, cd("mint(address,uint256)", &[a(q), u(id)]), &expect(&M721::new(T).mint(q, id), vec![]))?;
            step("set", q, T, set.clone(), &Expect::Ok(vec![], vec![ev(T, "MetadataUpdate(uint256)", &[], &[u(id)])]))?;
            let full = if !own.is_empty() { format!("{base}{own}") } else if base.is_empty() { String::new() } else { format!("{base}{id}") };
            must_view("tokenURI", q, T, cd("tokenURI(uint256)", &[u(id)]), &enc(&[s(&full)]))?;
            step("base", q, d, cd("setBase(string)", &[s(base)]), &Expect::Ok(vec![], vec![]))?;
            let full = if own.is_empty() { "shared/{id}".to_string() } else { format!("{base}{own}") };
            step("set", q, d, set, &Expect::Ok(vec![], vec![ev(d, "URI(string,uint256)", &[u(id)], &[s(&full)])]))?;
            must_view("uri", q, d, cd("uri(uint256)", &[u(id)]), &enc(&[s(&full)]))?;
        }
        Ok(true)
    });
    let mut wide: Vec<U256> = vec![];
    for i in 0..256 {
        wide.extend([(U256::from(1) << i) - n(1), U256::from(1) << i, U256::MAX - (U256::from(1) << i)]);
    }
    c.enumerate("own URIs of wide identifiers", "ids at every bit boundary: setting an own URI changes that id and none that differs in one bit; burning and minting again keeps it", &wide, |id| {
        let d = Address::new([0x79; 20]);
        let q = addr(1);
        let mut wd = World::default();
        wd.acct(T).code = native!(Nft);
        wd.set_string(T, 6, "b/");
        wd.acct(d).code = native!(Multi);
        wd.set_string(d, 0, "shared");
        with(|vm| vm.world = wd);
        let near: Vec<U256> = (0..256).map(|k| *id ^ (U256::from(1) << k)).collect();
        let mint = |i: U256| step("mint", q, T, cd("mint(address,uint256)", &[a(q), u(i)]), &expect(&M721::new(T).mint(q, i), vec![]));
        mint(*id)?;
        for i in near.iter().step_by(17) {
            mint(*i)?;
        }
        let set = cd("setUri(uint256,string)", &[u(*id), s("own")]);
        step("set", q, T, set.clone(), &Expect::Ok(vec![], vec![ev(T, "MetadataUpdate(uint256)", &[], &[u(*id)])]))?;
        step("set", q, d, set, &Expect::Ok(vec![], vec![ev(d, "URI(string,uint256)", &[u(*id)], &[s("own")])]))?;
        must_view("uri", q, d, cd("uri(uint256)", &[u(*id)]), &enc(&[s("own")]))?;
        must_view("tokenURI", q, T, cd("tokenURI(uint256)", &[u(*id)]), &enc(&[s("b/own")]))?;
        for (k, i) in near.iter().enumerate() {
            must_view("uri of another", q, d, cd("uri(uint256)", &[u(*i)]), &enc(&[s("shared")]))?;
            if k % 17 == 0 {
                must_view("tokenURI of another", q, T, cd("tokenURI(uint256)", &[u(*i)]), &enc(&[s(&format!("b/{i}"))]))?;
            } else {
                must_fail_view("tokenURI of none", q, T, cd("tokenURI(uint256)", &[u(*i)]), &[e_missing(*i)])?;
            }
        }
        Ok(true)
    });
    let mut caps = wide.clone();
    caps.extend([n(0), n(1), U256::MAX]);
    c.enumerate("supply cap", "the cap reads back as configured, at every bit boundary", &caps, |v| {
        let mut wd = World::default();
        wd.acct(T).code = native!(Cap);
        wd.set_slot(T, 0, *v);
        with(|vm| vm.world = wd);
        must_view("cap()", addr(1), T, cd("cap()", &[]), &enc(&[u(*v)]))?;
        Ok(true)
    });
    let pairs: Vec<(usize, usize)> = (0..txt.len()).flat_map(|x| (0..txt.len()).map(move |y| (x, y))).collect();
    c.enumerate("names and symbols", "every pair of configured texts in the ERC-20, ERC-1155 and plain metadata", &pairs, |(x, y)| {
        let (q, z) = (addr(1), Address::new([0x77; 20]));
        let mut wd = World::default();
        wd.acct(T).code = native!(Fungible);
        wd.acct(z).code = native!(Plain);
        let m0 = Address::new([0x78; 20]);
        wd.acct(m0).code = native!(Multi0);
        wd.set_string(m0, 0, &txt[*y]);
        for t in [T, z] {
            wd.set_string(t, 0, &txt[*x]);
            wd.set_string(t, 1, &txt[*y]);
        }
        with(|vm| vm.world = wd);
        for t in [T, z] {
            must_view("name()", q, t, cd("name()", &[]), &enc(&[s(&txt[*x])]))?;
            must_view("symbol()", q, t, cd("symbol()", &[]), &enc(&[s(&txt[*y])]))?;
        }
        must_view("decimals()", q, T, cd("decimals()", &[]), &enc(&[w(18)]))?;
        for i in [n(0), n(8), U256::MAX] {
            must_view("uri()", q, m0, cd("uri(uint256)", &[u(i)]), &enc(&[s(&txt[*y])]))?;
        }
        Ok(true)
    });
}

// ---------------------------------------------------------------------- C18
#[storage]
struct Roy {
    #[borrow]
    r: Erc2981, // slot 0 default, 1 map, 2 denominator
}
unsafe impl TopLevelStorage for Roy {}
#[public]
#[inherit(Erc2981)]
impl Roy {
    fn set_default(&mut self, to: Address, f: U256) -> Result<(), erc2981::Error> {
        self.r._set_default_royalty(to, U96::from(f))
    }
    fn delete_default(&mut self) {
        self.r._delete_default_royalty();
    }
    fn set_token(&mut self, id: U256, to: Address, f: U256) -> Result<(), erc2981::Error> {
        self.r._set_token_royalty(id, to, U96::from(f))
    }
    fn reset_token(&mut self, id: U256) {
        self.r._reset_token_royalty(id);
    }
    fn denominator(&self) -> U256 {
        U256::from(self.r._fee_denominator())
    }
}
#[derive(Clone, Debug)]
enum ROp {
    SetDefault(Address, U256),
    DeleteDefault,
    SetToken(U256, Address, U256),
    ResetToken(U256),
}
struct RSys {
    den: U256,
    ids: Vec<U256>,
    fees: Vec<U256>,
    prices: Vec<U256>,
}
#[derive(Clone, Hash)]
struct RM {
    def: Option<(Address, U256)>,
    tok: BTreeMap<U256, (Address, U256)>,
}
impl System for RSys {
    type Model = RM;
    type Op = ROp;
    fn init(&self) -> (World, RM) {
        let mut wd = World::default();
        wd.acct(T).code = native!(Roy);
        wd.set_slot(T, 2, self.den);
        (wd, RM { def: None, tok: BTreeMap::new() })
    }
    fn ops(&self, _m: &RM) -> Vec<ROp> {
        let mut v = vec![ROp::DeleteDefault];
        for id in &self.ids {
            v.push(ROp::ResetToken(*id));
        }
        for f in &self.fees {
            for to in [addr(1), Address::new([0xff; 20]), ZERO] {
                v.push(ROp::SetDefault(to, *f));
                for id in &self.ids {
                    v.push(ROp::SetToken(*id, to, *f));
                }
            }
        }
        v
    }
    fn apply(&self, m: &mut RM, op: &ROp) -> Result<bool, String> {
        let (e, call) = match op {
            ROp::DeleteDefault => {
                m.def = None;
                (vec![], cd("deleteDefault()", &[]))
            }
            ROp::ResetToken(id) => {
                m.tok.remove(id);
                (vec![], cd("resetToken(uint256)", &[u(*id)]))
            }
            ROp::SetDefault(to, f) => {
                let mut e = vec![];
                if *f > self.den {
                    e.push(cd("ERC2981InvalidDefaultRoyalty(uint256,uint256)", &[u(*f), u(self.den)]));
                }
                if to.is_zero() {
                    e.push(cd("ERC2981InvalidDefaultRoyaltyReceiver(address)", &[a(*to)]));
                }
                if e.is_empty() {
                    m.def = Some((*to, *f));
                }
                (e, cd("setDefault(address,uint256)", &[a(*to), u(*f)]))
            }
            ROp::SetToken(id, to, f) => {
                let mut e = vec![];
                if *f > self.den {
                    e.push(cd("ERC2981InvalidTokenRoyalty(uint256,uint256,uint256)", &[u(*id), u(*f), u(self.den)]));
                }
                if to.is_zero() {
                    e.push(cd("ERC2981InvalidTokenRoyaltyReceiver(uint256,address)", &[u(*id), a(*to)]));
                }
                if e.is_empty() {
                    m.tok.insert(*id, (*to, *f));
                }
                (e, cd("setToken(uint256,address,uint256)", &[u(*id), a(*to), u(*f)]))
            }
        };
        let ok = e.is_empty();
        step(&format!("{op:?}"), addr(1), T, call, &if ok { Expect::Ok(vec![], vec![]) } else { Expect::Err(e) })?;
        Ok(ok)
    }
    fn check(&self, m: &RM) -> Result<(), String> {
        let q = addr(1);
        must_view("denominator", q, T, cd("denominator()", &[]), &enc(&[u(self.den)]))?;
        for id in self.ids.iter().chain(&[n(999)]) {
            let (to, f) = m.tok.get(id).copied().or(m.def).unwrap_or((ZERO, U256::ZERO));
            for p in &self.prices {
                let d = cd("royaltyInfo(uint256,uint256)", &[u(*id), u(*p)]);
                if p.checked_mul(f).is_none() {
                    must_fail_view("royaltyInfo (overflow)", q, T, d, &[])?;
                    continue;
                }
                let amt = U512::from(*p) * U512::from(f) / U512::from(self.den);
                let amt: U256 = amt.to();
                if amt > *p {
                    return Err("model: royalty above the price".into());
                }
                must_view(&format!("royaltyInfo({id},{p})"), q, T, d, &enc(&[a(to), u(amt)]))?;
            }
        }
        Ok(())
    }
}
fn c18(c: &mut Check) {
    let prices = vec![n(0), n(1), n(2), n(99), n(9999), n(10000), n(10001), n(123456789), U256::from(1) << 128, U256::MAX / n(10000), U256::MAX / n(10000) + n(1), U256::MAX];
    let m96 = U256::from(U96::MAX);
    let s1 = RSys { den: n(10000), ids: vec![n(0), U256::MAX], fees: vec![n(0), n(1), n(250), n(9999), n(10000), n(10001), m96], prices: prices.clone() };
    c.run("royalties, denominator 10000", "2 tokens (plus one never configured), fees {0,1,250,9999,10000,10001,2^96-1}, receivers incl. zero; 12 prices per state; all histories to a fixed point", &s1, 20);
    let s2 = RSys { den: n(3), ids: vec![n(7), n(8)], fees: vec![n(0), n(1), n(2), n(3), n(4)], prices: prices.clone() };
    c.run("royalties, denominator 3", "the same with another denominator", &s2, 20);
    let s3 = RSys { den: m96, ids: vec![n(7)], fees: vec![n(0), n(1), m96 - n(1), m96], prices };
    c.run("royalties, denominator 2^96-1", "the same with the largest denominator", &s3, 20);
    // the whole fee range
    let fees: Vec<u64> = (0..=10002).collect();
    c.enumerate("every fee", "every fee 0..10002 as default and token royalty, prices {1,3,9999,10000,10^18+7}", &fees, |f| {
        let sys = RSys { den: n(10000), ids: vec![n(1), n(2)], fees: vec![], prices: vec![n(1), n(3), n(9999), n(10000), n(1_000_000_000_000_000_007)] };
        let (wd, mut m) = sys.init();
        with(|vm| vm.world = wd);
        let x = sys.apply(&mut m, &ROp::SetDefault(addr(1), n(*f)))?;
        let y = sys.apply(&mut m, &ROp::SetToken(n(2), addr(2), n(*f / 2)))?;
        sys.check(&m)?;
        Ok(x && y)
    });
    // wide identifiers, receivers and prices
    let one = U256::from(1);
    let mut wide: Vec<U256> = vec![];
    for i in 0..256 {
        wide.extend([(one << i) - one, one << i, (one << i) + one, U256::MAX - (one << i)]);
    }
    c.enumerate("wide identifiers and prices", "a token royalty of an id at every bit boundary leaves every id differing in one bit at the default, and vice versa; prices at every bit boundary", &wide, |v| {
        let near: Vec<U256> = (0..256).map(|k| *v ^ (one << k)).collect();
        let mut ids = vec![*v];
        ids.extend(&near);
        let sys = RSys { den: n(10000), ids, fees: vec![], prices: vec![n(20001)] };
        let (wd, mut m) = sys.init();
        with(|vm| vm.world = wd);
        sys.apply(&mut m, &ROp::SetDefault(addr(1), n(500)))?;
        sys.apply(&mut m, &ROp::SetToken(*v, addr(2), n(700)))?;
        sys.check(&m)?;
        sys.apply(&mut m, &ROp::SetToken(near[3], addr(3), n(0)))?;
        sys.apply(&mut m, &ROp::DeleteDefault)?;
        sys.check(&m)?;
        sys.apply(&mut m, &ROp::ResetToken(*v))?;
        sys.check(&m)?;
        for den in [n(1), n(10000), n(65536), m96] {
            for f in [n(0), n(1), n(2), n(333), n(9999), n(10000), n(65536), m96 - one, m96] {
                if f > den {
                    continue;
                }
                let sys = RSys { den, ids: vec![n(5)], fees: vec![], prices: vec![*v, *v / n(10000), (*v / n(10000)).wrapping_add(one)] };
                let (wd, mut m) = sys.init();
                with(|vm| vm.world = wd);
                sys.apply(&mut m, &ROp::SetDefault(addr(1), f))?;
                sys.check(&m)?;
                sys.apply(&mut m, &ROp::SetToken(n(5), addr(2), f))?;
                sys.check(&m)?;
            }
        }
        Ok(true)
    });
    let mut who: Vec<Address> = vec![T, Address::new([0xff; 20])];
    for k in 0..160 {
        who.push(Address::from_word(((one << k) as U256).into()));
        who.push(Address::from_word(((((one << 160) - one) ^ (one << k)) as U256).into()));
    }
    c.enumerate("receivers", "every receiver with one bit set or one bit clear, as default and as token receiver, with fees {0,1,10000}", &who, |to| {
        for f in [n(0), n(1), n(10000)] {
            let sys = RSys { den: n(10000), ids: vec![n(1), n(2)], fees: vec![], prices: vec![n(10001)] };
            let (wd, mut m) = sys.init();
            with(|vm| vm.world = wd);
            sys.apply(&mut m, &ROp::SetDefault(*to, f))?;
            sys.check(&m)?;
            sys.apply(&mut m, &ROp::SetToken(n(2), *to, f))?;
            sys.check(&m)?;
            sys.apply(&mut m, &ROp::SetDefault(addr(7), n(3)))?;
            sys.check(&m)?;
            sys.apply(&mut m, &ROp::ResetToken(n(2)))?;
            sys.check(&m)?;
        }
        Ok(true)
    });
}

// ---------------------------------------------------------------------- C29
fn x(sigs: &[&str]) -> u32 {
    sigs.iter().fold(0, |s, f| s ^ u32::from_be_bytes(selector(f)))
}
const F165: &[&str] = &["supportsInterface(bytes4)"];
const F20: &[&str] = &["totalSupply()", "balanceOf(address)", "transfer(address,uint256)", "allowance(address,address)", "approve(address,uint256)", "transferFrom(address,address,uint256)"];
const F20M: &[&str] = &["name()", "symbol()", "decimals()"];
const F721: &[&str] = &[
    "balanceOf(address)",
    "ownerOf(uint256)",
    "safeTransferFrom(address,address,uint256)",
    "safeTransferFrom(address,address,uint256,bytes)",
    "transferFrom(address,address,uint256)",
    "approve(address,uint256)",
    "setApprovalForAll(address,bool)",
    "getApproved(uint256)",
    "isApprovedForAll(address,address)",
];
const F721M: &[&str] = &["name()", "symbol()", "tokenURI(uint256)"];
const F721E: &[&str] = &["totalSupply()", "tokenByIndex(uint256)", "tokenOfOwnerByIndex(address,uint256)"];
const F1155: &[&str] = &[
    "balanceOf(address,uint256)",
    "balanceOfBatch(address[],uint256[])",
    "setApprovalForAll(address,bool)",
    "isApprovedForAll(address,address)",
    "safeTransferFrom(address,address,uint256,uint256,bytes)",
    "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
];
const F1155M: &[&str] = &["uri(uint256)"];
const F1155S: &[&str] = &["totalSupply(uint256)", "totalSupply()", "exists(uint256)"];
const F2981: &[&str] = &["royaltyInfo(uint256,uint256)"];
const FOWN: &[&str] = &["owner()", "transferOwnership(address)", "renounceOwnership()"];
const FOWN2: &[&str] = &["owner()", "pendingOwner()", "transferOwnership(address)", "acceptOwnership()", "renounceOwnership()"];
const FAC: &[&str] = &[
    "hasRole(bytes32,address)",
    "onlyRole(bytes32)",
    "getRoleAdmin(bytes32)",
    "grantRole(bytes32,address)",
    "revokeRole(bytes32,address)",
    "renounceRole(bytes32,address)",
];
const FVEST: &[&str] = &[
    "owner()",
    "transferOwnership(address)",
    "renounceOwnership()",
    "start()",
    "duration()",
    "end()",
    "released()",
    "released(address)",
    "releasable()",
    "releasable(address)",
    "release()",
    "release(address)",
    "vestedAmount(uint64)",
    "vestedAmount(address,uint64)",
];
const FFLASH: &[&str] = &["maxFlashLoan(address)", "flashFee(address,uint256)", "flashLoan(address,address,uint256,bytes)"];
const FWRAP: &[&str] = &["decimals()", "underlying()", "depositFor(address,uint256)", "withdrawTo(address,uint256)"];
const F4626: &[&str] = &[
    "asset()",
    "totalAssets()",
    "convertToShares(uint256)",
    "convertToAssets(uint256)",
    "maxDeposit(address)",
    "previewDeposit(uint256)",
    "deposit(uint256,address)",
    "maxMint(address)",
    "previewMint(uint256)",
    "mint(uint256,address)",
    "maxWithdraw(address)",
    "previewWithdraw(uint256)",
    "withdraw(uint256,address,address)",
    "maxRedeem(address)",
    "previewRedeem(uint256)",
    "redeem(uint256,address,address)",
];
const FSAFE: &[&str] = &[
    "safeTransfer(address,address,uint256)",
    "safeTransferFrom(address,address,address,uint256)",
    "safeIncreaseAllowance(address,address,uint256)",
    "safeDecreaseAllowance(address,address,uint256)",
    "forceApprove(address,address,uint256)",
];

// one contract per component (written out: #[storage] does not compose with macro_rules)
#[storage]
struct S20 {
    #[borrow]
    inner: Erc20,
}
unsafe impl TopLevelStorage for S20 {}
#[public]
#[inherit(Erc20)]
impl S20 {}
#[storage]
struct S20M {
    #[borrow]
    inner: Erc20Metadata,
}
unsafe impl TopLevelStorage for S20M {}
#[public]
#[inherit(Erc20Metadata)]
impl S20M {}
#[storage]
struct S721 {
    #[borrow]
    inner: Erc721,
}
unsafe impl TopLevelStorage for S721 {}
#[public]
#[inherit(Erc721)]
impl S721 {}
#[storage]
struct S721C {
    #[borrow]
    inner: Erc721Consecutive,
}
unsafe impl TopLevelStorage for S721C {}
#[public]
#[inherit(Erc721Consecutive)]
impl S721C {}
#[storage]
struct S721E {
    #[borrow]
    inner: Erc721Enumerable,
}
unsafe impl TopLevelStorage for S721E {}
#[public]
#[inherit(Erc721Enumerable)]
impl S721E {}
#[storage]
struct S1155 {
    #[borrow]
    inner: Erc1155,
}
unsafe impl TopLevelStorage for S1155 {}
#[public]
#[inherit(Erc1155)]
impl S1155 {}
#[storage]
struct S1155S {
    #[borrow]
    inner: Erc1155Supply,
}
unsafe impl TopLevelStorage for S1155S {}
#[public]
#[inherit(Erc1155Supply)]
impl S1155S {}
#[storage]
struct S1155M {
    #[borrow]
    inner: Erc1155MetadataUri,
}
unsafe impl TopLevelStorage for S1155M {}
#[public]
#[inherit(Erc1155MetadataUri)]
impl S1155M {}
#[storage]
struct S2981 {
    #[borrow]
    inner: Erc2981,
}
unsafe impl TopLevelStorage for S2981 {}
#[public]
#[inherit(Erc2981)]
impl S2981 {}
#[storage]
struct SOwn {
    #[borrow]
    inner: Ownable,
}
unsafe impl TopLevelStorage for SOwn {}
#[public]
#[inherit(Ownable)]
impl SOwn {}
#[storage]
struct SOwn2 {
    #[borrow]
    inner: Ownable2Step,
}
unsafe impl TopLevelStorage for SOwn2 {}
#[public]
#[inherit(Ownable2Step)]
impl SOwn2 {}
#[storage]
struct SAc {
    #[borrow]
    inner: AccessControl,
}
unsafe impl TopLevelStorage for SAc {}
#[public]
#[inherit(AccessControl)]
impl SAc {}
#[storage]
struct SVest {
    #[borrow]
    inner: VestingWallet,
}
unsafe impl TopLevelStorage for SVest {}
#[public]
#[inherit(VestingWallet)]
impl SVest {}
#[storage]
struct SSafe {
    #[borrow]
    inner: SafeErc20,
}
unsafe impl TopLevelStorage for SSafe {}
#[public]
#[inherit(SafeErc20)]
impl SSafe {}
#[storage]
struct SNon {
    #[borrow]
    inner: Nonces,
}
unsafe impl TopLevelStorage for SNon {}
#[public]
#[inherit(Nonces)]
impl SNon {}
#[storage]
struct SPau {
    #[borrow]
    inner: Pausable,
}
unsafe impl TopLevelStorage for SPau {}
#[public]
#[inherit(Pausable)]
impl SPau {}
#[storage]
struct S721M {
    #[borrow]
    inner: Erc721Metadata,
}
unsafe impl TopLevelStorage for S721M {}
#[public]
#[inherit(Erc721Metadata)]
impl S721M {}

type Sup = fn(FixedBytes<4>) -> bool;
fn c29(c: &mut Check) {
    let e165 = x(F165);
    let published: Vec<(&str, u32, u32)> = vec![
        ("ERC-165", e165, 0x01ffc9a7),
        ("ERC-20", x(F20), 0x36372b07),
        ("ERC-20 metadata", x(F20M), 0xa219a025),
        ("ERC-721", x(F721), 0x80ac58cd),
        ("ERC-721 metadata", x(F721M), 0x5b5e139f),
        ("ERC-721 enumerable", x(F721E), 0x780e9d63),
        ("ERC-1155", x(F1155), 0xd9b67a26),
        ("ERC-1155 metadata", x(F1155M), 0x0e89341c),
        ("ERC-2981", x(F2981), 0x2a55205a),
        ("ERC-4626", x(F4626), 0x87dfe5a0),
        ("ERC-3156 lender", x(FFLASH), 0xe4143091),
    ];
    c.enumerate("oracle", "published identifiers equal the exclusive-or of the published functions", &published, |(_, got, want)| if got == want { Ok(true) } else { Err("oracle".into()) });
    let comps: Vec<(&str, Sup, Vec<u32>)> = vec![
        ("Erc165", <Erc165 as IErc165>::supports_interface, vec![]),
        ("Erc20", <Erc20 as IErc165>::supports_interface, vec![x(F20)]),
        ("Erc20Metadata", <Erc20Metadata as IErc165>::supports_interface, vec![x(F20M)]),
        ("Erc20FlashMint", <Erc20FlashMint as IErc165>::supports_interface, vec![x(FFLASH)]),
        ("Erc20Wrapper", <Erc20Wrapper as IErc165>::supports_interface, vec![x(FWRAP)]),
        ("Erc4626", <Erc4626 as IErc165>::supports_interface, vec![x(F4626)]),
        ("SafeErc20", <SafeErc20 as IErc165>::supports_interface, vec![x(FSAFE)]),
        ("Erc721", <Erc721 as IErc165>::supports_interface, vec![x(F721)]),
        ("Erc721Metadata", <Erc721Metadata as IErc165>::supports_interface, vec![x(F721M)]),
        ("Erc721Enumerable", <Erc721Enumerable as IErc165>::supports_interface, vec![x(F721E)]),
        ("Erc721Consecutive", <Erc721Consecutive as IErc165>::supports_interface, vec![x(F721)]),
        ("Erc1155", <Erc1155 as IErc165>::supports_interface, vec![x(F1155)]),
        ("Erc1155Supply", <Erc1155Supply as IErc165>::supports_interface, vec![x(F1155), x(F1155S)]),
        ("Erc1155MetadataUri", <Erc1155MetadataUri as IErc165>::supports_interface, vec![x(F1155M)]),
        ("Erc2981", <Erc2981 as IErc165>::supports_interface, vec![x(F2981)]),
        ("Ownable", <Ownable as IErc165>::supports_interface, vec![x(FOWN)]),
        ("Ownable2Step", <Ownable2Step as IErc165>::supports_interface, vec![x(FOWN2), x(FOWN)]),
        ("AccessControl", <AccessControl as IErc165>::supports_interface, vec![x(FAC)]),
        ("VestingWallet", <VestingWallet as IErc165>::supports_interface, vec![x(FVEST)]),
    ];
    // thorough: all 2^32 identifiers; quick: every identifier within Hamming distance 4 of any
    // selector or interface identifier of any component, of 0 and of 0xffffffff
    let mut centres: Vec<u32> = vec![0, u32::MAX, e165];
    for (_, _, ids) in &comps {
        centres.extend(ids);
    }
    for l in [F165, F20, F20M, F721, F721M, F721E, F1155, F1155M, F1155S, F2981, FOWN, FOWN2, FAC, FVEST, FFLASH, FWRAP, F4626, FSAFE] {
        centres.extend(l.iter().map(|f| x(&[f])));
        // the identifier with one function left out
        centres.extend(l.iter().map(|f| x(l) ^ x(&[f])));
    }
    centres.sort();
    centres.dedup();
    let mut masks: Vec<u32> = vec![0];
    for i in 0..32u32 {
        masks.push(1 << i);
        for j in 0..i {
            masks.push(1 << i | 1 << j);
            for k in 0..j {
                masks.push(1 << i | 1 << j | 1 << k);
                for l in 0..k {
                    masks.push(1 << i | 1 << j | 1 << k | 1 << l);
                }
            }
        }
    }
    let his: Vec<u32> = (0..65536).collect();
    for (name, f, ids) in &comps {
        let mut want = ids.clone();
        want.push(e165);
        let one = |v: u32| {
            let got = f(FixedBytes::from(v.to_be_bytes()));
            if got != want.contains(&v) {
                return Err(format!("{name}: supports_interface({v:#010x}) is {got}"));
            }
            Ok(got)
        };
        if !c.thorough() {
            c.enumerate(&format!("identifiers of {name}"), "every identifier within Hamming distance 4 of any selector or identifier in the library, of 0 and of 0xffffffff", &centres, |m| {
                let mut any = false;
                for k in &masks {
                    any |= one(m ^ k)?;
                }
                Ok(any)
            });
            c.scale_last(masks.len() as u64);
        } else {
            c.enumerate(&format!("identifiers of {name}"), "every one of the 2^32 identifiers", &his, |hi| {
                let mut any = false;
                for lo in 0..65536u32 {
                    any |= one((hi << 16) | lo)?;
                }
                Ok(any)
            });
            c.scale_last(65536);
        }
    }
    // dispatch
    let contracts: Vec<(&str, Code, Vec<&[&str]>)> = vec![
        ("Erc20", native!(S20), vec![F20]),
        ("Erc20Metadata", native!(S20M), vec![F20M]),
        ("Erc721", native!(S721), vec![F721]),
        ("Erc721Consecutive", native!(S721C), vec![F721]),
        ("Erc721Enumerable", native!(S721E), vec![F721E]),
        ("Erc721Metadata", native!(S721M), vec![&["name()", "symbol()"]]),
        ("Erc1155", native!(S1155), vec![F1155]),
        ("Erc1155Supply", native!(S1155S), vec![F1155]),
        ("Erc1155MetadataUri", native!(S1155M), vec![F1155M]),
        ("Erc2981", native!(S2981), vec![F2981]),
        ("Ownable", native!(SOwn), vec![FOWN]),
        ("Ownable2Step", native!(SOwn2), vec![FOWN2]),
        ("AccessControl", native!(SAc), vec![FAC]),
        ("VestingWallet", native!(SVest), vec![FVEST]),
        ("SafeErc20", native!(SSafe), vec![FSAFE]),
        ("Nonces", native!(SNon), vec![&["nonces(address)"]]),
        ("Pausable", native!(SPau), vec![&["paused()"]]),
    ];
    for (name, code, fs) in &contracts {
        let sigs: Vec<&str> = fs.iter().flat_map(|x| x.iter().copied()).collect();
        let known: Vec<[u8; 4]> = sigs.iter().map(|s| selector(s)).collect();
        let code = *code;
        c.enumerate(&format!("dispatch of {name}"), "every standard function reached by its selector", &sigs, |sig| {
            let mut wd = World::default();
            wd.acct(T).code = code;
            wd.set_slot(T, 2, n(10000));
            with(|vm| vm.world = wd);
            // zero arguments; dynamic ones as empty arrays behind the head
            let args: Vec<&str> = sig[sig.find('(').unwrap() + 1..sig.len() - 1].split(',').filter(|x| !x.is_empty()).collect();
            let tv: Vec<mc::abi::T> = args.iter().map(|x| match *x {
                "bytes" => bytes(&[]),
                "uint256[]" => us(&[]),
                "address[]" => addrs(&[]),
                _ => w(0),
            }).collect();
            let out = host::tx(addr(1), T, U256::ZERO, cd(sig, &tv));
            if !out.ok && out.data.is_empty() && !out.panicked {
                return Err(format!("{name}: {sig} is not reachable"));
            }
            Ok(out.ok)
        });
        // neighbours of every known selector, and special ones
        let mut unknown: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff; 3], vec![0; 4], vec![0xff; 4], vec![0xff; 68]];
        for k in &known {
            unknown.push(k[..3].to_vec());
            for bit in 0..32 {
                let mut z = *k;
                z[bit / 8] ^= 1 << (bit % 8);
                if !known.contains(&z) {
                    let mut d = z.to_vec();
                    d.extend([0u8; 128]);
                    unknown.push(d);
                }
            }
        }
        c.enumerate(&format!("unknown selectors of {name}"), "all single-bit neighbours of its selectors, short call data and reserved selectors are refused", &unknown, |d| {
            let mut wd = World::default();
            wd.acct(T).code = code;
            with(|vm| vm.world = wd);
            if *name == "VestingWallet" && d.is_empty() {
                return Ok(true); // may accept plain Ether
            }
            let out = host::tx(addr(1), T, U256::ZERO, d.clone());
            if out.ok {
                return Err(format!("{name}: unknown call data {} accepted", show(d)));
            }
            Ok(false)
        });
    }
}

fn main() {
    host::install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let mut c = Check::new(&id);
    c.assume("the host model of the Stylus VM (storage cache, calls, reverts, logs) is faithful");
    match id.as_str() {
        "C14" => c14(&mut c),
        "C18" => c18(&mut c),
        "C29" => c29(&mut c),
        _ => panic!("unknown id"),
    }
    c.finish()
}
