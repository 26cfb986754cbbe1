//! A scriptable ERC-20-like token: the environment's answers are chosen by
//! the mode in slot 0.
use crate::abi::*;
use crate::host::*;
use crate::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u64)]
pub enum Mode {
    Normal,
    NoReturn,
    FalseNoEffect,
    Revert,
    Garbage,
    EffectFalse,
    TrueLong,
    FalseLong,
    ResetRequired,
    ResetFalse,
    AllowanceRevert,
    AllowanceEmpty,
    AllowanceShort,
    BalanceRevert,
    BalanceEmpty,
    Panic,
    ShortZero,
    AllOnes,
    HighBit,
    RevertTrue,
    TrueThenJunkLong,
    ZeroRefused,
}
pub const MODES: [Mode; 22] = [
    Mode::Normal, Mode::NoReturn, Mode::FalseNoEffect, Mode::Revert, Mode::Garbage, Mode::EffectFalse, Mode::TrueLong, Mode::FalseLong,
    Mode::ResetRequired, Mode::ResetFalse, Mode::AllowanceRevert, Mode::AllowanceEmpty, Mode::AllowanceShort, Mode::BalanceRevert,
    Mode::BalanceEmpty, Mode::Panic, Mode::ShortZero, Mode::AllOnes, Mode::HighBit, Mode::RevertTrue, Mode::TrueThenJunkLong,
    Mode::ZeroRefused,
];
impl Mode {
    /// Does a well-formed state-changing call report success under this mode?
    pub fn reports_success(self) -> bool {
        use Mode::*;
        matches!(
            self,
            Normal | NoReturn | TrueLong | ResetRequired | ResetFalse | AllowanceRevert | AllowanceEmpty | AllowanceShort | BalanceRevert
                | BalanceEmpty | TrueThenJunkLong | ZeroRefused
        )
    }
}
pub const T_BAL: u8 = 1;
pub const T_ALLOW: u8 = 2;

fn reply(mode: Mode, effect: impl FnOnce() -> bool) -> Result<Vec<u8>, Vec<u8>> {
    let t = enc(&[b(true)]);
    let f = enc(&[b(false)]);
    use Mode::*;
    match mode {
        FalseNoEffect => return Ok(f),
        Revert => return Err(vec![]),
        RevertTrue => return Err(t),
        Panic => panic!("mock"),
        ShortZero => return Ok(vec![0; 31]),
        _ => {}
    }
    if !effect() {
        return Err(vec![0xde, 0xad]);
    }
    Ok(match mode {
        NoReturn | ResetRequired => vec![],
        Garbage => enc(&[w(2)]),
        EffectFalse => f,
        TrueLong => [t, f].concat(),
        TrueThenJunkLong => [t, vec![0xff; 40]].concat(),
        FalseLong => [f, t].concat(),
        AllOnes => vec![0xff; 32],
        HighBit => {
            let mut x = t;
            x[0] = 0x80;
            x
        }
        _ => t,
    })
}

pub fn mode_of(t: Address) -> Mode {
    MODES[with(|vm| vm.world.get_slot(t, 0)).to::<usize>()]
}
pub fn set_mode(w: &mut World, t: Address, m: Mode) {
    w.set_slot(t, 0, U256::from(m as u64));
}

pub fn mock_token(input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    if input.len() < 4 {
        return Err(vec![]);
    }
    let mode = MODES[my_slot(0).to::<usize>()];
    let s: [u8; 4] = input[..4].try_into().unwrap();
    let d = &input[4..];
    let ad = |i: usize| Address::from_word(B256::from(word_at(d, i).unwrap_or_default()));
    let nm = |i: usize| word_at(d, i).unwrap_or_default();
    let z = Address::ZERO;
    let mv = |f: Address, t: Address, v: U256| -> bool {
        let bf = my_get(T_BAL, f, z);
        if bf < v || t.is_zero() {
            return false;
        }
        my_set(T_BAL, f, z, bf - v);
        let bt = my_get(T_BAL, t, z);
        my_set(T_BAL, t, z, bt + v);
        true
    };
    if s == selector("balanceOf(address)") {
        return match mode {
            Mode::BalanceRevert => Err(vec![]),
            Mode::BalanceEmpty => Ok(vec![]),
            _ => Ok(enc(&[u(my_get(T_BAL, ad(0), z))])),
        };
    }
    if s == selector("allowance(address,address)") {
        return match mode {
            Mode::AllowanceRevert => Err(vec![]),
            Mode::AllowanceEmpty => Ok(vec![]),
            Mode::AllowanceShort => Ok(vec![0; 31]),
            _ => Ok(enc(&[u(my_get(T_ALLOW, ad(0), ad(1)))])),
        };
    }
    if s == selector("transfer(address,uint256)") {
        let me = caller();
        return reply(mode, || mv(me, ad(0), nm(1)));
    }
    if s == selector("transferFrom(address,address,uint256)") {
        let me = caller();
        return reply(mode, || {
            let al = my_get(T_ALLOW, ad(0), me);
            if al < nm(2) {
                return false;
            }
            my_set(T_ALLOW, ad(0), me, al - nm(2));
            mv(ad(0), ad(1), nm(2))
        });
    }
    if s == selector("approve(address,uint256)") {
        let me = caller();
        let cur = my_get(T_ALLOW, me, ad(0));
        if !cur.is_zero() && !nm(1).is_zero() {
            if mode == Mode::ResetRequired {
                return Err(vec![]);
            }
            if mode == Mode::ResetFalse {
                return Ok(enc(&[b(false)]));
            }
        }
        if mode == Mode::ZeroRefused && nm(1).is_zero() {
            return Err(vec![]);
        }
        return reply(mode, || {
            my_set(T_ALLOW, me, ad(0), nm(1));
            true
        });
    }
    // fallback of a token that is not a token
    Err(vec![])
}
