//! The external interface: which functions the generated routers expose, how they decode their
//! arguments and encode results and errors, and what ERC-165 reports
use crate::w::{self, *};
use alloc::{string::String, vec, vec::Vec};
use alloy_primitives::{keccak256, Address, FixedBytes, B256, U256};
use core::borrow::{Borrow, BorrowMut};
use openzeppelin_stylus::{
    access::{
        control::{self, AccessControl, IAccessControl},
        ownable::{self, IOwnable, Ownable},
        ownable_two_step::{IOwnable2Step, Ownable2Step},
    },
    finance::vesting_wallet::{self, IVestingWallet, VestingWallet},
    token::{
        common::erc2981::{self, Erc2981, IErc2981},
        erc1155::{
            self,
            extensions::{Erc1155MetadataUri, Erc1155Supply, IErc1155Supply},
            Erc1155, IErc1155,
        },
        erc20::{
            self,
            extensions::{capped, erc4626, flash_mint, permit, wrapper as wrapper20},
            extensions::{Capped, Erc20FlashMint, Erc20Metadata, Erc20Permit, Erc20Wrapper, Erc4626},
            utils::safe_erc20::{self, ISafeErc20, SafeErc20},
            Erc20, IErc20,
        },
        erc721::{
            self,
            extensions::{consecutive, enumerable, wrapper as wrapper721},
            extensions::{Erc721Consecutive, Erc721Enumerable, Erc721Metadata, IErc721Enumerable},
            Erc721, IErc721,
        },
    },
    utils::{
        cryptography::{ecdsa, eip712::IEip712},
        introspection::erc165::{Erc165, IErc165},
        metadata::Metadata,
        nonces::{self, Nonces},
        pausable::{self, Pausable},
        structs::checkpoints,
    },
};
use stylus_sdk::{
    abi::{Bytes, Router},
    prelude::*,
    storage::StorageType,
    stylus_core::ValueDenier,
    ArbResult,
};

// ---------------------------------------------------------------- routing
/// the deployed contract: a top-level storage consisting of the component alone
pub struct Top<C>(C);
unsafe impl<C> TopLevelStorage for Top<C> {}
impl<C> Borrow<C> for Top<C> {
    fn borrow(&self) -> &C {
        &self.0
    }
}
impl<C> BorrowMut<C> for Top<C> {
    fn borrow_mut(&mut self) -> &mut C {
        &mut self.0
    }
}
impl<C: HostAccess> ValueDenier for Top<C> {
    fn deny_value(&self, _: &str) -> Result<(), Vec<u8>> {
        if self.0.vm().msg_value() == U256::ZERO {
            return Ok(());
        }
        Err(vec![])
    }
}
pub trait Comp: Sized + StorageType + HostAccess + Router<Top<Self>, Storage = Self> {}
impl<C: Sized + StorageType + HostAccess + Router<Top<C>, Storage = C>> Comp for C {}
fn new<C: StorageType>() -> C {
    unsafe { C::new(U256::ZERO, 0, vm()) }
}
fn selector(sig: &[u8]) -> u32 {
    let h = keccak256(sig).0;
    u32::from_be_bytes([h[0], h[1], h[2], h[3]])
}
fn route<C: Comp>(s: u32, input: &[u8]) -> Option<ArbResult> {
    C::route(&mut Top(new::<C>()), s, input)
}
fn send<C: Comp>(sig: &[u8], args: &[[u8; 32]]) -> ArbResult {
    let mut v = Vec::new();
    for a in args {
        v.extend_from_slice(a);
    }
    send_raw::<C>(sig, &v)
}
fn send_raw<C: Comp>(sig: &[u8], args: &[u8]) -> ArbResult {
    set_value(U256::ZERO);
    match route::<C>(selector(sig), args) {
        Some(r) => r,
        None => {
            check(false, "the function is reachable under its standard signature");
            stop();
            Err(vec![])
        }
    }
}
/// exactly the listed functions are exposed, none accepts value, none is a fallback
fn exposes<C: Comp>(sigs: &[&[u8]]) {
    set_sender(addr("sender"));
    let s = u32_("selector");
    let mut known = false;
    for x in sigs {
        known |= s == selector(x);
    }
    match w::choose(2) {
        0 => {
            assume(!known);
            set_value(u256("value"));
            let hit = route::<C>(s, &[]).is_some();
            cover("unknown selector");
            check(!hit, "no other function is exposed");
            let mut t = Top(new::<C>());
            check(C::receive(&mut t).is_none() & C::fallback(&mut t, &vec_be(5, "input")).is_none(), "no receive or fallback function");
        }
        _ => {
            let v = u256("value");
            assume(!v.is_zero());
            set_value(v);
            for x in sigs {
                match route::<C>(selector(x), &[]) {
                    Some(Err(e)) => check(e.is_empty(), "a call with value is refused"),
                    Some(Ok(_)) => check(false, "no function accepts value"),
                    None => check(false, "the function is reachable under its standard signature"),
                }
            }
            cover("with value");
        }
    }
    check((n_writes() == 0) & (n_logs() == 0) & (n_calls() == 0), "no effect");
}
fn ret(r: &ArbResult, want: &[u8], m: &str) {
    match r {
        Ok(v) => check(bytes_eq(v, want), m),
        Err(_) => check(false, m),
    }
}
fn is_one(e: &[u8], of: &[Vec<u8>]) -> bool {
    let mut ok = false;
    for x in of {
        ok |= bytes_eq(e, x);
    }
    ok
}
fn flag_word(b: bool) -> [u8; 32] {
    word_u(U256::from(b as u8))
}
fn n(v: u32) -> [u8; 32] {
    word_u(U256::from(v))
}
const STD: &str = "the standard ABI encoding of the result";
const ERR: &str = "the standard ABI encoding of the error";

// ---------------------------------------------------------------- ERC-20
#[storage]
pub struct Dom {}
impl IEip712 for Dom {
    const NAME: &'static str = "T";
    const VERSION: &'static str = "1";
}
h!(abi_erc20_surface, {
    match w::choose(6) {
        0 => exposes::<Erc20>(&[b"totalSupply()", b"balanceOf(address)", b"transfer(address,uint256)", b"allowance(address,address)", b"approve(address,uint256)", b"transferFrom(address,address,uint256)"]),
        1 => exposes::<Erc20Metadata>(&[b"name()", b"symbol()", b"decimals()"]),
        2 => exposes::<Capped>(&[b"cap()"]),
        3 => exposes::<Nonces>(&[b"nonces(address)"]),
        4 => exposes::<Pausable>(&[b"paused()"]),
        _ => exposes::<Metadata>(&[b"name()", b"symbol()"]),
    }
});
h!(abi_permit_surface, { exposes::<Erc20Permit<Dom>>(&[b"DOMAIN_SEPARATOR()"]) });
fn insufficient(a: Address, p: U256, q: U256) -> Vec<u8> {
    calldata(b"ERC20InsufficientBalance(address,uint256,uint256)", &[word(a), word_u(p), word_u(q)])
}
h!(abi_erc20_calls, {
    let (s, a, b, v) = (addr("sender"), addr("a"), addr("b"), u256("v"));
    set_sender(s);
    let t = new::<Erc20>();
    let bad_to = calldata(b"ERC20InvalidReceiver(address)", &[n(0)]);
    match w::choose(6) {
        0 => ret(&send::<Erc20>(b"totalSupply()", &[]), &word_u(t.total_supply()), STD),
        1 => ret(&send::<Erc20>(b"balanceOf(address)", &[word(a)]), &word_u(t.balance_of(a)), STD),
        2 => ret(&send::<Erc20>(b"allowance(address,address)", &[word(a), word(b)]), &word_u(t.allowance(a, b)), STD),
        3 => {
            let had = t.balance_of(s);
            match send::<Erc20>(b"transfer(address,uint256)", &[word(a), word_u(v)]) {
                Ok(r) => {
                    cover("transferred");
                    check(bytes_eq(&r, &n(1)), STD);
                    check_log(0, &[keccak256(b"Transfer(address,address,uint256)").0, word(s), word(a)], &word_u(v), "transfers value from the caller to the first argument");
                }
                Err(e) => check(is_one(&e, &[insufficient(s, had, v), bad_to, calldata(b"ERC20InvalidSender(address)", &[n(0)])]), ERR),
            }
        }
        4 => match send::<Erc20>(b"approve(address,uint256)", &[word(a), word_u(v)]) {
            Ok(r) => {
                cover("approved");
                check(bytes_eq(&r, &n(1)), STD);
                check_log(0, &[keccak256(b"Approval(address,address,uint256)").0, word(s), word(a)], &word_u(v), "approves the first argument");
            }
            Err(e) => check(is_one(&e, &[calldata(b"ERC20InvalidSpender(address)", &[n(0)]), calldata(b"ERC20InvalidApprover(address)", &[n(0)])]), ERR),
        },
        _ => {
            let (had, all) = (t.balance_of(a), t.allowance(a, s));
            match send::<Erc20>(b"transferFrom(address,address,uint256)", &[word(a), word(b), word_u(v)]) {
                Ok(r) => {
                    cover("transferred from");
                    check(bytes_eq(&r, &n(1)), STD);
                    check_log(n_logs() - 1, &[keccak256(b"Transfer(address,address,uint256)").0, word(a), word(b)], &word_u(v), "transfers value from the first to the second argument");
                }
                Err(e) => {
                    let low = calldata(b"ERC20InsufficientAllowance(address,uint256,uint256)", &[word(s), word_u(all), word_u(v)]);
                    let z = |x: &[u8]| calldata(x, &[n(0)]);
                    check(is_one(&e, &[insufficient(a, had, v), bad_to, low, z(b"ERC20InvalidSender(address)"), z(b"ERC20InvalidApprover(address)"), z(b"ERC20InvalidSpender(address)")]), ERR)
                }
            }
        }
    }
});
h!(abi_erc20_parts, {
    let a = addr("a");
    match w::choose(4) {
        0 => ret(&send::<Capped>(b"cap()", &[]), &word_u(new::<Capped>().cap()), STD),
        1 => ret(&send::<Nonces>(b"nonces(address)", &[word(a)]), &word_u(new::<Nonces>().nonces(a)), STD),
        2 => ret(&send::<Erc20Metadata>(b"decimals()", &[]), &n(18), STD),
        _ => {
            let r = send::<Pausable>(b"paused()", &[]);
            let p = new::<Pausable>();
            ret(&r, &flag_word(p.when_not_paused().is_err()), STD)
        }
    }
    cover("read");
});
h!(abi_permit_domain, {
    set_self(addr("me"));
    let r = send::<Erc20Permit<Dom>>(b"DOMAIN_SEPARATOR()", &[]);
    ret(&r, &new::<Erc20Permit<Dom>>().domain_separator().0, STD);
    cover("read");
});

// ---------------------------------------------------------------- tokens with identity
const E721: &[&[u8]] = &[
    b"balanceOf(address)",
    b"ownerOf(uint256)",
    b"safeTransferFrom(address,address,uint256)",
    b"safeTransferFrom(address,address,uint256,bytes)",
    b"transferFrom(address,address,uint256)",
    b"approve(address,uint256)",
    b"setApprovalForAll(address,bool)",
    b"getApproved(uint256)",
    b"isApprovedForAll(address,address)",
];
const E1155: &[&[u8]] = &[
    b"balanceOf(address,uint256)",
    b"balanceOfBatch(address[],uint256[])",
    b"setApprovalForAll(address,bool)",
    b"isApprovedForAll(address,address)",
    b"safeTransferFrom(address,address,uint256,uint256,bytes)",
    b"safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
];
h!(abi_nft_surface, {
    match w::choose(5) {
        0 => exposes::<Erc721>(E721),
        1 => exposes::<Erc721Consecutive>(E721),
        2 => exposes::<Erc721Enumerable>(&[b"tokenOfOwnerByIndex(address,uint256)", b"totalSupply()", b"tokenByIndex(uint256)"]),
        3 => exposes::<Erc721Metadata>(&[b"name()", b"symbol()"]),
        _ => exposes::<Erc2981>(&[b"royaltyInfo(uint256,uint256)"]),
    }
});
h!(abi_multi_surface, {
    match w::choose(3) {
        0 => exposes::<Erc1155>(E1155),
        1 => exposes::<Erc1155Supply>(E1155),
        _ => exposes::<Erc1155MetadataUri>(&[b"uri(uint256)"]),
    }
});
extern "C" fn accept721(_i: u32) {
    let mut o = [0u8; 32];
    o[..4].copy_from_slice(&keccak256(b"onERC721Received(address,address,uint256,bytes)").0[..4]);
    set_return(true, &o);
}
fn nft_err(e: &[u8], s: Address, a: Address, b: Address, id: U256, owner: Address) {
    let x = |sig: &[u8], w: &[[u8; 32]]| calldata(sig, w);
    check(
        is_one(e, &[
            x(b"ERC721NonexistentToken(uint256)", &[word_u(id)]),
            x(b"ERC721IncorrectOwner(address,uint256,address)", &[word(a), word_u(id), word(owner)]),
            x(b"ERC721InvalidReceiver(address)", &[word(b)]),
            x(b"ERC721InsufficientApproval(address,uint256)", &[word(s), word_u(id)]),
            x(b"ERC721InvalidApprover(address)", &[word(s)]),
            x(b"ERC721InvalidOperator(address)", &[word(a)]),
            x(b"ERC721InvalidOwner(address)", &[word(a)]),
        ]),
        ERR,
    );
}
/// the functions ERC-721 tokens share; `own` is the component's raw owner lookup
fn nft_calls<C: Comp + IErc721>(own: fn(&C, U256) -> Address) {
    let (s, a, b, id) = (addr("sender"), addr("a"), addr("b"), u256("id"));
    set_sender(s);
    let t = new::<C>();
    let owner = own(&t, id);
    on_call(accept721);
    let moved = |r: ArbResult, data: Option<&[u8]>| match r {
        Ok(r) => {
            cover("moved");
            check(r.is_empty(), STD);
            check_log(0, &[keccak256(b"Transfer(address,address,uint256)").0, word(a), word(b), word_u(id)], &[], "transfers the token from the first to the second argument");
            check(data.is_some() | (n_calls() == 0), "an unsafe transfer calls nobody");
            if n_calls() > 0 {
                let mut d = calldata(b"onERC721Received(address,address,uint256,bytes)", &[word(s), word(a), word_u(id), n(128)]);
                d.extend_from_slice(&tail(data.unwrap_or(&[])));
                check(is_call(0, b, &d), "the data is passed on");
            }
        }
        Err(e) => nft_err(&e, s, a, b, id, owner),
    };
    match w::choose(9) {
        0 => {
            let r = send::<C>(b"balanceOf(address)", &[word(a)]);
            match t.balance_of(a) {
                Ok(v) => ret(&r, &word_u(v), STD),
                Err(_) => nft_err(&r.err().unwrap_or_default(), s, a, b, id, owner),
            }
        }
        1 => {
            let r = send::<C>(b"ownerOf(uint256)", &[word_u(id)]);
            match owner.is_zero() {
                false => ret(&r, &word(owner), STD),
                true => nft_err(&r.err().unwrap_or_default(), s, a, b, id, owner),
            }
        }
        2 => moved(send::<C>(b"safeTransferFrom(address,address,uint256)", &[word(a), word(b), word_u(id)]), Some(&[])),
        3 => {
            let d = vec_be(5, "data");
            let mut v = vec![];
            for x in [word(a), word(b), word_u(id), n(128)] {
                v.extend_from_slice(&x);
            }
            v.extend_from_slice(&tail(&d));
            moved(send_raw::<C>(b"safeTransferFrom(address,address,uint256,bytes)", &v), Some(&d))
        }
        4 => moved(send::<C>(b"transferFrom(address,address,uint256)", &[word(a), word(b), word_u(id)]), None),
        5 => match send::<C>(b"approve(address,uint256)", &[word(a), word_u(id)]) {
            Ok(r) => {
                cover("approved");
                check(r.is_empty(), STD);
                check_log(0, &[keccak256(b"Approval(address,address,uint256)").0, word(owner), word(a), word_u(id)], &[], "approves the first argument for the token");
            }
            Err(e) => nft_err(&e, s, a, b, id, owner),
        },
        6 => {
            let f = flag("approved");
            match send::<C>(b"setApprovalForAll(address,bool)", &[word(a), flag_word(f)]) {
                Ok(r) => {
                    check(r.is_empty(), STD);
                    check_log(0, &[keccak256(b"ApprovalForAll(address,address,bool)").0, word(s), word(a)], &flag_word(f), "sets the operator");
                }
                Err(e) => nft_err(&e, s, a, b, id, owner),
            }
        }
        7 => {
            let r = send::<C>(b"getApproved(uint256)", &[word_u(id)]);
            match t.get_approved(id) {
                Ok(v) => ret(&r, &word(v), STD),
                Err(_) => nft_err(&r.err().unwrap_or_default(), s, a, b, id, owner),
            }
        }
        _ => ret(&send::<C>(b"isApprovedForAll(address,address)", &[word(a), word(b)]), &flag_word(t.is_approved_for_all(a, b)), STD),
    }
}
h!(abi_erc721_calls, { nft_calls::<Erc721>(|t, id| t._owner_of(id)) });
h!(abi_nft_parts, {
    let (a, i, j) = (addr("a"), u256("i"), u256("j"));
    let e = new::<Erc721Enumerable>();
    // lists longer than the 32-bit address space and overflowing royalties abort
    allow_trap(true);
    match w::choose(4) {
        0 => ret(&send::<Erc721Enumerable>(b"totalSupply()", &[]), &word_u(e.total_supply()), STD),
        1 => {
            let r = send::<Erc721Enumerable>(b"tokenByIndex(uint256)", &[word_u(i)]);
            match e.token_by_index(i) {
                Ok(v) => ret(&r, &word_u(v), STD),
                Err(_) => check(is_one(&r.err().unwrap_or_default(), &[calldata(b"ERC721OutOfBoundsIndex(address,uint256)", &[n(0), word_u(i)])]), ERR),
            }
        }
        2 => {
            let r = send::<Erc721Enumerable>(b"tokenOfOwnerByIndex(address,uint256)", &[word(a), word_u(i)]);
            match e.token_of_owner_by_index(a, i) {
                Ok(v) => ret(&r, &word_u(v), STD),
                Err(_) => check(is_one(&r.err().unwrap_or_default(), &[calldata(b"ERC721OutOfBoundsIndex(address,uint256)", &[word(a), word_u(i)])]), ERR),
            }
        }
        _ => {
            // a small price, so that the product cannot overflow
            let p = U256::from(u32_("price"));
            let (to, v) = new::<Erc2981>().royalty_info(i, p);
            let mut x = word(to).to_vec();
            x.extend_from_slice(&word_u(v));
            ret(&send::<Erc2981>(b"royaltyInfo(uint256,uint256)", &[word_u(i), word_u(p)]), &x, STD)
        }
    }
    cover("read");
});
extern "C" fn accept1155(i: u32) {
    let mut o = [0u8; 32];
    let c = call(i);
    // both acceptance functions answer with their own selector
    o[..4].copy_from_slice(&c.data[..4]);
    set_return(true, &o);
}
fn multi_calls<C: Comp + IErc1155>() {
    let (s, a, b, id, v) = (addr("sender"), addr("a"), addr("b"), u256("id"), u256("v"));
    set_sender(s);
    let t = new::<C>();
    on_call(accept1155);
    let bad = |e: &[u8], had: U256| {
        let x = |sig: &[u8], w: &[[u8; 32]]| calldata(sig, w);
        check(
            is_one(e, &[
                x(b"ERC1155InsufficientBalance(address,uint256,uint256,uint256)", &[word(a), word_u(had), word_u(v), word_u(id)]),
                x(b"ERC1155InvalidSender(address)", &[n(0)]),
                x(b"ERC1155InvalidReceiver(address)", &[word(b)]),
                x(b"ERC1155MissingApprovalForAll(address,address)", &[word(s), word(a)]),
                x(b"ERC1155InvalidOperator(address)", &[word(a)]),
                x(b"ERC1155InvalidApprover(address)", &[n(0)]),
            ]),
            ERR,
        )
    };
    match w::choose(6) {
        0 => ret(&send::<C>(b"balanceOf(address,uint256)", &[word(a), word_u(id)]), &word_u(t.balance_of(a, id)), STD),
        1 => {
            let r = send::<C>(b"balanceOfBatch(address[],uint256[])", &[n(64), n(128), n(1), word(a), n(1), word_u(id)]);
            let mut x = n(32).to_vec();
            x.extend_from_slice(&n(1));
            x.extend_from_slice(&word_u(t.balance_of(a, id)));
            ret(&r, &x, STD)
        }
        2 => {
            let f = flag("approved");
            match send::<C>(b"setApprovalForAll(address,bool)", &[word(a), flag_word(f)]) {
                Ok(r) => {
                    cover("operator");
                    check(r.is_empty(), STD);
                    check_log(0, &[keccak256(b"ApprovalForAll(address,address,bool)").0, word(s), word(a)], &flag_word(f), "sets the operator");
                }
                Err(e) => bad(&e, U256::ZERO),
            }
        }
        3 => ret(&send::<C>(b"isApprovedForAll(address,address)", &[word(a), word(b)]), &flag_word(t.is_approved_for_all(a, b)), STD),
        k => {
            let had = t.balance_of(a, id);
            // the receiver's balance may overflow, which aborts
            allow_trap(add_ov(t.balance_of(b, id), v));
            let d = vec_be(5, "data");
            let (sig, head): (&[u8], Vec<[u8; 32]>) = if k == 4 {
                (b"safeTransferFrom(address,address,uint256,uint256,bytes)", vec![word(a), word(b), word_u(id), word_u(v), n(160)])
            } else {
                (
                    b"safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
                    vec![word(a), word(b), n(160), n(224), n(288), n(1), word_u(id), n(1), word_u(v)],
                )
            };
            let mut x = vec![];
            for h in head {
                x.extend_from_slice(&h);
            }
            x.extend_from_slice(&tail(&d));
            let r = send_raw::<C>(sig, &x);
            end_expect();
            match r {
                Ok(r) => {
                    cover("moved");
                    check(r.is_empty(), STD);
                    let mut l = word_u(id).to_vec();
                    l.extend_from_slice(&word_u(v));
                    check_log(0, &[keccak256(b"TransferSingle(address,address,address,uint256,uint256)").0, word(s), word(a), word(b)], &l, "moves the value of the id from the first to the second argument");
                    if n_calls() > 0 {
                        let c = call(0);
                        let m = c.data.len();
                        check((c.target == b) & (m > 64) && bytes_eq(&c.data[m - 64..], &tail(&d)), "the data is passed on");
                    }
                }
                Err(e) => bad(&e, had),
            }
        }
    }
}
h!(abi_erc1155_calls, { multi_calls::<Erc1155>() });
h!(abi_supply_calls, { multi_calls::<Erc1155Supply>() });

// ---------------------------------------------------------------- access control and finance
const OWN: &[&[u8]] = &[b"owner()", b"transferOwnership(address)", b"renounceOwnership()"];
h!(abi_access_surface, {
    match w::choose(3) {
        0 => exposes::<Ownable>(OWN),
        1 => exposes::<Ownable2Step>(&[b"owner()", b"pendingOwner()", b"transferOwnership(address)", b"acceptOwnership()", b"renounceOwnership()"]),
        _ => exposes::<AccessControl>(&[
            b"hasRole(bytes32,address)",
            b"onlyRole(bytes32)",
            b"getRoleAdmin(bytes32)",
            b"grantRole(bytes32,address)",
            b"revokeRole(bytes32,address)",
            b"renounceRole(bytes32,address)",
        ]),
    }
});
h!(abi_finance_surface, {
    match w::choose(2) {
        0 => exposes::<VestingWallet>(&[
            b"owner()",
            b"transferOwnership(address)",
            b"renounceOwnership()",
            b"start()",
            b"duration()",
            b"end()",
            b"released()",
            b"released(address)",
            b"releasable()",
            b"releasable(address)",
            b"release()",
            b"release(address)",
            b"vestedAmount(uint64)",
            b"vestedAmount(address,uint64)",
        ]),
        _ => exposes::<SafeErc20>(&[
            b"safeTransfer(address,address,uint256)",
            b"safeTransferFrom(address,address,address,uint256)",
            b"safeIncreaseAllowance(address,address,uint256)",
            b"safeDecreaseAllowance(address,address,uint256)",
            b"forceApprove(address,address,uint256)",
        ]),
    }
});
fn owner_err(e: &[u8], s: Address, a: Address) {
    check(is_one(e, &[calldata(b"OwnableUnauthorizedAccount(address)", &[word(s)]), calldata(b"OwnableInvalidOwner(address)", &[word(a)])]), ERR)
}
fn own_calls<C: Comp>(two: bool, owner: fn(&C) -> Address, pending: fn(&C) -> Address) {
    let (s, a) = (addr("sender"), addr("a"));
    set_sender(s);
    let t = new::<C>();
    let cur = owner(&t);
    let ev = |sig: &[u8], r: ArbResult, x: Address, y: Address, inv: Address| match r {
        Ok(r) => {
            cover("done");
            check(r.is_empty(), STD);
            check_log(n_logs() - 1, &[keccak256(sig).0, word(x), word(y)], &[], "the change asked for");
        }
        Err(e) => owner_err(&e, s, inv),
    };
    let tr: &[u8] = b"OwnershipTransferred(address,address)";
    match w::choose(if two { 5 } else { 3 }) {
        0 => ret(&send::<C>(b"owner()", &[]), &word(cur), STD),
        1 => {
            let sig: &[u8] = if two { b"OwnershipTransferStarted(address,address)" } else { tr };
            ev(sig, send::<C>(b"transferOwnership(address)", &[word(a)]), cur, a, a)
        }
        2 => ev(tr, send::<C>(b"renounceOwnership()", &[]), cur, Address::ZERO, a),
        3 => ret(&send::<C>(b"pendingOwner()", &[]), &word(pending(&t)), STD),
        _ => ev(tr, send::<C>(b"acceptOwnership()", &[]), cur, s, a),
    }
}
h!(abi_ownable_calls, { own_calls::<Ownable>(false, |t| t.owner(), |_| Address::ZERO) });
h!(abi_ownable2_calls, { own_calls::<Ownable2Step>(true, |t| t.owner(), |t| t.pending_owner()) });
h!(abi_control_calls, {
    let (s, a, r) = (addr("sender"), addr("a"), b256("role"));
    set_sender(s);
    let t = new::<AccessControl>();
    let admin = t.get_role_admin(r);
    let bad = |e: &[u8], role: B256| {
        check(
            is_one(e, &[
                calldata(b"AccessControlUnauthorizedAccount(address,bytes32)", &[word(s), role.0]),
                calldata(b"AccessControlBadConfirmation()", &[]),
            ]),
            ERR,
        )
    };
    let had = t.has_role(r, a);
    match w::choose(6) {
        0 => ret(&send::<AccessControl>(b"hasRole(bytes32,address)", &[r.0, word(a)]), &flag_word(had), STD),
        1 => ret(&send::<AccessControl>(b"getRoleAdmin(bytes32)", &[r.0]), &admin.0, STD),
        2 => match send::<AccessControl>(b"onlyRole(bytes32)", &[r.0]) {
            Ok(v) => check(v.is_empty(), STD),
            Err(e) => bad(&e, r),
        },
        3 => match send::<AccessControl>(b"grantRole(bytes32,address)", &[r.0, word(a)]) {
            Ok(v) => {
                cover("granted");
                check(v.is_empty() & t.has_role(r, a), "grants the role");
            }
            Err(e) => bad(&e, admin),
        },
        4 => match send::<AccessControl>(b"revokeRole(bytes32,address)", &[r.0, word(a)]) {
            Ok(v) => {
                cover("revoked");
                check(v.is_empty() & !t.has_role(r, a), "revokes the role");
            }
            Err(e) => bad(&e, admin),
        },
        _ => match send::<AccessControl>(b"renounceRole(bytes32,address)", &[r.0, word(a)]) {
            Ok(v) => {
                cover("renounced");
                check(v.is_empty() & !t.has_role(r, s) & (s == a), "renounces the caller's role");
            }
            Err(e) => bad(&e, r),
        },
    }
});
h!(abi_vesting_calls, {
    let (s, a) = (addr("sender"), addr("a"));
    set_sender(s);
    let t = new::<VestingWallet>();
    match w::choose(6) {
        0 => ret(&send::<VestingWallet>(b"owner()", &[]), &word(t.owner()), STD),
        1 => ret(&send::<VestingWallet>(b"start()", &[]), &word_u(t.start()), STD),
        2 => ret(&send::<VestingWallet>(b"duration()", &[]), &word_u(t.duration()), STD),
        3 => ret(&send::<VestingWallet>(b"released()", &[]), &word_u(t.released_eth()), STD),
        4 => ret(&send::<VestingWallet>(b"released(address)", &[word(a)]), &word_u(t.released_erc20(a)), STD),
        _ => ret(&send::<VestingWallet>(b"end()", &[]), &word_u(t.end()), STD),
    }
    cover("read");
});
extern "C" fn token_ok(_i: u32) {
    set_return(true, &n(1));
}
h!(abi_safe_erc20_calls, {
    let (tk, a, b, v) = (addr("token"), addr("a"), addr("b"), u256("v"));
    assume(tk.has_code());
    on_call(token_ok);
    let (r, d) = match w::choose(3) {
        0 => (send::<SafeErc20>(b"safeTransfer(address,address,uint256)", &[word(tk), word(a), word_u(v)]), calldata(b"transfer(address,uint256)", &[word(a), word_u(v)])),
        1 => (
            send::<SafeErc20>(b"safeTransferFrom(address,address,address,uint256)", &[word(tk), word(a), word(b), word_u(v)]),
            calldata(b"transferFrom(address,address,uint256)", &[word(a), word(b), word_u(v)]),
        ),
        _ => (send::<SafeErc20>(b"forceApprove(address,address,uint256)", &[word(tk), word(a), word_u(v)]), calldata(b"approve(address,uint256)", &[word(a), word_u(v)])),
    };
    cover("called");
    ret(&r, &[], STD);
    check(n_calls() == 1 && is_call(0, tk, &d), "the token is called as asked");
});

// ---------------------------------------------------------------- revert data
fn enc(got: Vec<u8>, sig: &[u8], words: &[[u8; 32]]) {
    cover("encoded");
    check(bytes_eq(&got, &calldata(sig, words)), "the revert data is the ABI encoding of the error");
}
h!(abi_errors_erc20, {
    let (a, b, p, q) = (addr("a"), addr("b"), u256("p"), u256("q"));
    let ba = erc20::ERC20InsufficientBalance { sender: a, balance: p, needed: q };
    let (bal, bw): (&[u8], _) = (b"ERC20InsufficientBalance(address,uint256,uint256)", [word(a), word_u(p), word_u(q)]);
    match w::choose(24) {
        0 => enc(flash_mint::Error::UnsupportedToken(flash_mint::ERC3156UnsupportedToken { token: a }).into(), b"ERC3156UnsupportedToken(address)", &[word(a)]),
        1 => enc(flash_mint::Error::ExceededMaxLoan(flash_mint::ERC3156ExceededMaxLoan { max_loan: p }).into(), b"ERC3156ExceededMaxLoan(uint256)", &[word_u(p)]),
        2 => enc(flash_mint::Error::InvalidReceiver(flash_mint::ERC3156InvalidReceiver { receiver: a }).into(), b"ERC3156InvalidReceiver(address)", &[word(a)]),
        3 => enc(flash_mint::Error::Erc20(erc20::Error::InsufficientBalance(ba)).into(), bal, &bw),
        4 => enc(wrapper20::Error::InvalidUnderlying(wrapper20::ERC20InvalidUnderlying { token: a }).into(), b"ERC20InvalidUnderlying(address)", &[word(a)]),
        5 => enc(wrapper20::Error::InvalidSender(wrapper20::ERC20InvalidSender { sender: a }).into(), b"ERC20InvalidSender(address)", &[word(a)]),
        6 => enc(wrapper20::Error::InvalidReceiver(wrapper20::ERC20InvalidReceiver { receiver: a }).into(), b"ERC20InvalidReceiver(address)", &[word(a)]),
        7 => enc(wrapper20::Error::Erc20(erc20::Error::InsufficientBalance(ba)).into(), bal, &bw),
        8 => enc(wrapper20::Error::SafeErc20(safe_erc20::Error::SafeErc20FailedOperation(safe_erc20::SafeErc20FailedOperation { token: a })).into(), b"SafeErc20FailedOperation(address)", &[word(a)]),
        9 => enc(capped::Error::ExceededCap(capped::ERC20ExceededCap { increased_supply: p, cap: q }).into(), b"ERC20ExceededCap(uint256,uint256)", &[word_u(p), word_u(q)]),
        10 => enc(capped::Error::InvalidCap(capped::ERC20InvalidCap { cap: p }).into(), b"ERC20InvalidCap(uint256)", &[word_u(p)]),
        11 => enc(permit::Error::ExpiredSignature(permit::ERC2612ExpiredSignature { deadline: p }).into(), b"ERC2612ExpiredSignature(uint256)", &[word_u(p)]),
        12 => enc(permit::Error::InvalidSigner(permit::ERC2612InvalidSigner { signer: a, owner: b }).into(), b"ERC2612InvalidSigner(address,address)", &[word(a), word(b)]),
        13 => enc(permit::Error::Erc20(erc20::Error::InsufficientBalance(ba)).into(), bal, &bw),
        14 => enc(permit::Error::ECDSA(ecdsa::Error::InvalidSignature(ecdsa::ECDSAInvalidSignature {})).into(), b"ECDSAInvalidSignature()", &[]),
        15 => enc(erc4626::Error::ExceededMaxDeposit(erc4626::ERC4626ExceededMaxDeposit { receiver: a, assets: p, max: q }).into(), b"ERC4626ExceededMaxDeposit(address,uint256,uint256)", &bw),
        16 => enc(erc4626::Error::ExceededMaxMint(erc4626::ERC4626ExceededMaxMint { receiver: a, shares: p, max: q }).into(), b"ERC4626ExceededMaxMint(address,uint256,uint256)", &bw),
        17 => enc(erc4626::Error::ExceededMaxWithdraw(erc4626::ERC4626ExceededMaxWithdraw { owner: a, assets: p, max: q }).into(), b"ERC4626ExceededMaxWithdraw(address,uint256,uint256)", &bw),
        18 => enc(erc4626::Error::ExceededMaxRedeem(erc4626::ERC4626ExceededMaxRedeem { owner: a, shares: p, max: q }).into(), b"ERC4626ExceededMaxRedeem(address,uint256,uint256)", &bw),
        19 => enc(erc4626::Error::InvalidAsset(erc4626::InvalidAsset { asset: a }).into(), b"InvalidAsset(address)", &[word(a)]),
        20 => enc(erc4626::Error::Erc20(erc20::Error::InsufficientBalance(ba)).into(), bal, &bw),
        21 => enc(
            safe_erc20::Error::SafeErc20FailedDecreaseAllowance(safe_erc20::SafeErc20FailedDecreaseAllowance { spender: a, current_allowance: p, requested_decrease: q }).into(),
            b"SafeErc20FailedDecreaseAllowance(address,uint256,uint256)",
            &bw,
        ),
        22 => enc(safe_erc20::Error::Erc20(erc20::Error::InsufficientBalance(ba)).into(), bal, &bw),
        _ => enc(erc4626::Error::SafeErc20(safe_erc20::Error::SafeErc20FailedOperation(safe_erc20::SafeErc20FailedOperation { token: a })).into(), b"SafeErc20FailedOperation(address)", &[word(a)]),
    }
});
h!(abi_errors_nft, {
    let (a, b, p, q, r) = (addr("a"), addr("b"), u256("p"), u256("q"), u256("r"));
    use erc721::*;
    let own = erc721::ERC721InvalidOwner { owner: a };
    match w::choose(29) {
        0 => enc(erc721::Error::InvalidOwner(own).into(), b"ERC721InvalidOwner(address)", &[word(a)]),
        1 => enc(erc721::Error::NonexistentToken(ERC721NonexistentToken { token_id: p }).into(), b"ERC721NonexistentToken(uint256)", &[word_u(p)]),
        2 => enc(erc721::Error::IncorrectOwner(ERC721IncorrectOwner { sender: a, token_id: p, owner: b }).into(), b"ERC721IncorrectOwner(address,uint256,address)", &[word(a), word_u(p), word(b)]),
        3 => enc(erc721::Error::InvalidSender(ERC721InvalidSender { sender: a }).into(), b"ERC721InvalidSender(address)", &[word(a)]),
        4 => enc(erc721::Error::InvalidReceiver(ERC721InvalidReceiver { receiver: a }).into(), b"ERC721InvalidReceiver(address)", &[word(a)]),
        5 => enc(erc721::Error::InsufficientApproval(ERC721InsufficientApproval { operator: a, token_id: p }).into(), b"ERC721InsufficientApproval(address,uint256)", &[word(a), word_u(p)]),
        6 => enc(erc721::Error::InvalidApprover(ERC721InvalidApprover { approver: a }).into(), b"ERC721InvalidApprover(address)", &[word(a)]),
        7 => enc(erc721::Error::InvalidOperator(ERC721InvalidOperator { operator: a }).into(), b"ERC721InvalidOperator(address)", &[word(a)]),
        8 => enc(erc1155::Error::InsufficientBalance(erc1155::ERC1155InsufficientBalance { sender: a, balance: p, needed: q, token_id: r }).into(), b"ERC1155InsufficientBalance(address,uint256,uint256,uint256)", &[word(a), word_u(p), word_u(q), word_u(r)]),
        9 => enc(erc1155::Error::InvalidSender(erc1155::ERC1155InvalidSender { sender: a }).into(), b"ERC1155InvalidSender(address)", &[word(a)]),
        10 => enc(erc1155::Error::InvalidReceiver(erc1155::ERC1155InvalidReceiver { receiver: a }).into(), b"ERC1155InvalidReceiver(address)", &[word(a)]),
        11 => enc(erc1155::Error::MissingApprovalForAll(erc1155::ERC1155MissingApprovalForAll { operator: a, owner: b }).into(), b"ERC1155MissingApprovalForAll(address,address)", &[word(a), word(b)]),
        12 => enc(erc1155::Error::InvalidApprover(erc1155::ERC1155InvalidApprover { approver: a }).into(), b"ERC1155InvalidApprover(address)", &[word(a)]),
        13 => enc(erc1155::Error::InvalidOperator(erc1155::ERC1155InvalidOperator { operator: a }).into(), b"ERC1155InvalidOperator(address)", &[word(a)]),
        14 => enc(erc1155::Error::InvalidArrayLength(erc1155::ERC1155InvalidArrayLength { ids_length: p, values_length: q }).into(), b"ERC1155InvalidArrayLength(uint256,uint256)", &[word_u(p), word_u(q)]),
        15 => enc(enumerable::Error::OutOfBoundsIndex(enumerable::ERC721OutOfBoundsIndex { owner: a, index: p }).into(), b"ERC721OutOfBoundsIndex(address,uint256)", &[word(a), word_u(p)]),
        16 => enc(enumerable::Error::EnumerableForbiddenBatchMint(enumerable::ERC721EnumerableForbiddenBatchMint {}).into(), b"ERC721EnumerableForbiddenBatchMint()", &[]),
        17 => enc(consecutive::Error::ForbiddenBatchMint(consecutive::ERC721ForbiddenBatchMint {}).into(), b"ERC721ForbiddenBatchMint()", &[]),
        18 => enc(consecutive::Error::ExceededMaxBatchMint(consecutive::ERC721ExceededMaxBatchMint { batch_size: p, max_batch: q }).into(), b"ERC721ExceededMaxBatchMint(uint256,uint256)", &[word_u(p), word_u(q)]),
        19 => enc(consecutive::Error::ForbiddenMint(consecutive::ERC721ForbiddenMint {}).into(), b"ERC721ForbiddenMint()", &[]),
        20 => enc(consecutive::Error::ForbiddenBatchBurn(consecutive::ERC721ForbiddenBatchBurn {}).into(), b"ERC721ForbiddenBatchBurn()", &[]),
        21 => enc(consecutive::Error::Erc721(erc721::Error::InvalidOwner(own)).into(), b"ERC721InvalidOwner(address)", &[word(a)]),
        22 => enc(wrapper721::Error::UnsupportedToken(wrapper721::ERC721UnsupportedToken { token: a }).into(), b"ERC721UnsupportedToken(address)", &[word(a)]),
        23 => enc(wrapper721::Error::Erc721FailedOperation(wrapper721::Erc721FailedOperation { token: a }).into(), b"Erc721FailedOperation(address)", &[word(a)]),
        24 => enc(wrapper721::Error::Erc721(erc721::Error::InvalidOwner(own)).into(), b"ERC721InvalidOwner(address)", &[word(a)]),
        25 => enc(erc2981::Error::InvalidDefaultRoyalty(erc2981::ERC2981InvalidDefaultRoyalty { numerator: p, denominator: q }).into(), b"ERC2981InvalidDefaultRoyalty(uint256,uint256)", &[word_u(p), word_u(q)]),
        26 => enc(erc2981::Error::InvalidDefaultRoyaltyReceiver(erc2981::ERC2981InvalidDefaultRoyaltyReceiver { receiver: a }).into(), b"ERC2981InvalidDefaultRoyaltyReceiver(address)", &[word(a)]),
        27 => enc(erc2981::Error::InvalidTokenRoyalty(erc2981::ERC2981InvalidTokenRoyalty { token_id: p, numerator: q, denominator: r }).into(), b"ERC2981InvalidTokenRoyalty(uint256,uint256,uint256)", &[word_u(p), word_u(q), word_u(r)]),
        _ => enc(erc2981::Error::InvalidTokenRoyaltyReceiver(erc2981::ERC2981InvalidTokenRoyaltyReceiver { token_id: p, receiver: a }).into(), b"ERC2981InvalidTokenRoyaltyReceiver(uint256,address)", &[word_u(p), word(a)]),
    }
});
h!(abi_errors_other, {
    let (a, p, r) = (addr("a"), u256("p"), b256("r"));
    let un = ownable::OwnableUnauthorizedAccount { account: a };
    match w::choose(13) {
        0 => enc(ownable::Error::UnauthorizedAccount(un).into(), b"OwnableUnauthorizedAccount(address)", &[word(a)]),
        1 => enc(ownable::Error::InvalidOwner(ownable::OwnableInvalidOwner { owner: a }).into(), b"OwnableInvalidOwner(address)", &[word(a)]),
        2 => enc(control::Error::UnauthorizedAccount(control::AccessControlUnauthorizedAccount { account: a, needed_role: r }).into(), b"AccessControlUnauthorizedAccount(address,bytes32)", &[word(a), r.0]),
        3 => enc(control::Error::BadConfirmation(control::AccessControlBadConfirmation {}).into(), b"AccessControlBadConfirmation()", &[]),
        4 => enc(vesting_wallet::Error::Ownable(ownable::Error::UnauthorizedAccount(un)).into(), b"OwnableUnauthorizedAccount(address)", &[word(a)]),
        5 => enc(vesting_wallet::Error::InvalidToken(vesting_wallet::InvalidToken { token: a }).into(), b"InvalidToken(address)", &[word(a)]),
        6 => enc(vesting_wallet::Error::SafeErc20(safe_erc20::Error::SafeErc20FailedOperation(safe_erc20::SafeErc20FailedOperation { token: a })).into(), b"SafeErc20FailedOperation(address)", &[word(a)]),
        7 => enc(pausable::Error::EnforcedPause(pausable::EnforcedPause {}).into(), b"EnforcedPause()", &[]),
        8 => enc(pausable::Error::ExpectedPause(pausable::ExpectedPause {}).into(), b"ExpectedPause()", &[]),
        9 => enc(ecdsa::Error::InvalidSignature(ecdsa::ECDSAInvalidSignature {}).into(), b"ECDSAInvalidSignature()", &[]),
        10 => enc(ecdsa::Error::InvalidSignatureS(ecdsa::ECDSAInvalidSignatureS { s: r }).into(), b"ECDSAInvalidSignatureS(bytes32)", &[r.0]),
        11 => enc(nonces::Error::InvalidAccountNonce(nonces::InvalidAccountNonce { account: a, current_nonce: p }).into(), b"InvalidAccountNonce(address,uint256)", &[word(a), word_u(p)]),
        _ => enc(checkpoints::Error::CheckpointUnorderedInsertion(checkpoints::CheckpointUnorderedInsertion {}).into(), b"CheckpointUnorderedInsertion()", &[]),
    }
});

// ---------------------------------------------------------------- ERC-165
fn reports<C: IErc165>(ids: &[u32], groups: &[&[&[u8]]]) {
    let id = u32_("id");
    let mut want = id == 0x01ffc9a7;
    for i in ids {
        want |= id == *i;
    }
    for g in groups {
        let mut x = 0;
        for s in *g {
            x ^= selector(s);
        }
        want |= id == x;
    }
    let got = C::supports_interface(FixedBytes(id.to_be_bytes()));
    check(got == want, "reports exactly the interfaces it implements");
    check(!(got & (id == 0xffffffff)), "never the invalid interface");
    if got {
        cover("supported");
    } else {
        cover("unsupported");
    }
    check((n_writes() == 0) & (n_calls() == 0) & (n_logs() == 0), "no effect");
}
h!(abi_erc165_erc20, {
    match w::choose(7) {
        0 => reports::<Erc165>(&[], &[]),
        1 => reports::<Erc20>(&[0x36372b07], &[]),
        2 => reports::<Erc20Metadata>(&[0xa219a025], &[]),
        3 => reports::<Erc20FlashMint>(&[0xe4143091], &[]),
        4 => reports::<Erc20Wrapper>(&[], &[&[b"underlying()", b"depositFor(address,uint256)", b"withdrawTo(address,uint256)", b"decimals()"]]),
        5 => reports::<Erc4626>(&[0x87dfe5a0], &[]),
        _ => reports::<SafeErc20>(
            &[],
            &[&[
                b"safeTransfer(address,address,uint256)",
                b"safeTransferFrom(address,address,address,uint256)",
                b"safeIncreaseAllowance(address,address,uint256)",
                b"safeDecreaseAllowance(address,address,uint256)",
                b"forceApprove(address,address,uint256)",
            ]],
        ),
    }
});
h!(abi_erc165_nft, {
    match w::choose(8) {
        0 => reports::<Erc721>(&[0x80ac58cd], &[]),
        1 => reports::<Erc721Consecutive>(&[0x80ac58cd], &[]),
        2 => reports::<Erc721Metadata>(&[0x5b5e139f], &[]),
        3 => reports::<Erc721Enumerable>(&[0x780e9d63], &[]),
        4 => reports::<Erc1155>(&[0xd9b67a26], &[]),
        5 => reports::<Erc1155MetadataUri>(&[0x0e89341c], &[]),
        6 => reports::<Erc1155Supply>(&[0xd9b67a26, 0xeac6339d], &[]),
        _ => reports::<Erc2981>(&[0x2a55205a], &[]),
    }
});
h!(abi_erc165_access, {
    match w::choose(4) {
        0 => reports::<Ownable>(&[0x0e083076], &[]),
        1 => reports::<Ownable2Step>(&[0x0e083076, 0x94be5999], &[]),
        2 => reports::<AccessControl>(
            &[],
            &[&[
                b"hasRole(bytes32,address)",
                b"onlyRole(bytes32)",
                b"getRoleAdmin(bytes32)",
                b"grantRole(bytes32,address)",
                b"revokeRole(bytes32,address)",
                b"renounceRole(bytes32,address)",
            ]],
        ),
        _ => reports::<VestingWallet>(
            &[],
            &[&[
                b"owner()",
                b"transferOwnership(address)",
                b"renounceOwnership()",
                b"start()",
                b"duration()",
                b"end()",
                b"released()",
                b"released(address)",
                b"releasable()",
                b"releasable(address)",
                b"release()",
                b"release(address)",
                b"vestedAmount(uint64)",
                b"vestedAmount(address,uint64)",
            ]],
        ),
    }
});
