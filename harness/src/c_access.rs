//! Ownable, Ownable2Step, AccessControl
use crate::w::{self, *};
use alloy_primitives::{keccak256, Address, B256, U256};
use openzeppelin_stylus::access::{
    control::{self, AccessControl, IAccessControl},
    ownable::{self, IOwnable, Ownable},
    ownable_two_step::{IOwnable2Step, Ownable2Step},
};
use stylus_sdk::{prelude::*, storage::*};

fn topic(s: &[u8]) -> [u8; 32] {
    keccak256(s).0
}
fn check_transferred(i: u32, a: Address, b: Address) {
    check_log(i, &[topic(b"OwnershipTransferred(address,address)"), word(a), word(b)], &[], "OwnershipTransferred event");
}
/// an arbitrary storage slot of the surrounding contract
struct Frame(U256, U256);
fn slot(k: U256) -> U256 {
    unsafe { StorageU256::new(k, 0, vm()) }.get()
}
fn frame(used: u32) -> Frame {
    let k = u256("other slot");
    assume(!lt(k, U256::from(used)));
    Frame(k, slot(k))
}
impl Frame {
    fn same(&self) {
        check(eq(slot(self.0), self.1), "no other storage changes");
    }
}

// ---------------------------------------------------------------- Ownable
fn ow() -> Ownable {
    unsafe { Ownable::new(U256::ZERO, 0, vm()) }
}
fn own_op(op: u32) {
    let (sender, new) = (addr("sender"), addr("new"));
    set_sender(sender);
    let f = frame(1);
    let cur = ow().owner();
    let to = if op == 1 { Address::ZERO } else { new };
    let r = match op {
        0 => IOwnable::transfer_ownership(&mut ow(), new),
        1 => IOwnable::renounce_ownership(&mut ow()),
        2 => ow().only_owner(),
        _ => {
            ow()._transfer_ownership(new);
            Ok(())
        }
    };
    match r {
        Ok(()) => {
            cover("done");
            check((op == 3) | (sender == cur), "only the owner");
            check((op != 0) | !new.is_zero(), "never by mistake to address zero");
            check(ow().owner() == if op == 2 { cur } else { to }, "the new owner");
            check(n_logs() == (op != 2) as u32, "one event per change");
            if op != 2 {
                check_transferred(0, cur, to);
            }
        }
        Err(ownable::Error::UnauthorizedAccount(e)) => {
            cover("not the owner");
            check((sender != cur) & (e.account == sender) & (op != 3), "UnauthorizedAccount truthful");
        }
        Err(ownable::Error::InvalidOwner(e)) => {
            check((op == 0) & new.is_zero() & e.owner.is_zero(), "InvalidOwner truthful");
        }
    }
    f.same();
    check(n_calls() == 0, "calls nobody");
}
h!(own_transfer, { own_op(0) });
h!(own_renounce, { own_op(1) });
h!(own_guard, { own_op(2) });
h!(own_internal, { own_op(3) });

// ---------------------------------------------------------------- Ownable2Step
fn o2() -> Ownable2Step {
    unsafe { Ownable2Step::new(U256::ZERO, 0, vm()) }
}
fn own2_op(op: u32) {
    let (sender, new) = (addr("sender"), addr("new"));
    set_sender(sender);
    let f = frame(2);
    let (cur, pend) = (IOwnable2Step::owner(&o2()), o2().pending_owner());
    let r = match op {
        0 => IOwnable2Step::transfer_ownership(&mut o2(), new),
        1 => o2().accept_ownership(),
        _ => IOwnable2Step::renounce_ownership(&mut o2()),
    };
    let (a, p) = (IOwnable2Step::owner(&o2()), o2().pending_owner());
    match r {
        Ok(()) => {
            cover("done");
            check(n_logs() == 1, "one event");
            match op {
                0 => {
                    check(sender == cur, "only the owner proposes");
                    check((a == cur) & (p == new), "the owner stays until the proposal is accepted");
                    check_log(0, &[topic(b"OwnershipTransferStarted(address,address)"), word(cur), word(new)], &[], "event");
                }
                1 => {
                    check(sender == pend, "only the proposed owner accepts");
                    check((a == sender) & p.is_zero(), "ownership moves and the proposal is used up");
                    check_transferred(0, cur, sender);
                }
                _ => {
                    check(sender == cur, "only the owner renounces");
                    check(a.is_zero() & p.is_zero(), "no owner and no proposal remain");
                    check_transferred(0, cur, Address::ZERO);
                }
            }
        }
        Err(ownable::Error::UnauthorizedAccount(e)) => {
            cover("refused");
            check(e.account == sender, "UnauthorizedAccount names the caller");
            check(if op == 1 { sender != pend } else { sender != cur }, "refused only without authority");
        }
        Err(_) => check(false, "no other error"),
    }
    f.same();
    check(n_calls() == 0, "calls nobody");
}
h!(own2_transfer, { own2_op(0) });
h!(own2_accept, { own2_op(1) });
h!(own2_renounce, { own2_op(2) });
/// the owner changes only through a proposal by the owner and its acceptance, or by renouncing
h!(own2_history, {
    let steps = bound("operations in sequence", 3, 4);
    let mut may = o2().pending_owner();
    for _ in 0..steps {
        let (sender, new) = (addr("sender"), addr("new"));
        set_sender(sender);
        let cur = IOwnable2Step::owner(&o2());
        let op = w::choose(3);
        let r = match op {
            0 => IOwnable2Step::transfer_ownership(&mut o2(), new),
            1 => o2().accept_ownership(),
            _ => IOwnable2Step::renounce_ownership(&mut o2()),
        };
        if r.is_err() {
            stop();
        }
        let a = IOwnable2Step::owner(&o2());
        match op {
            0 => {
                check((sender == cur) & (a == cur), "a proposal by the owner changes no owner");
                may = new;
            }
            1 => {
                check((a == sender) & (a == may), "only the account last proposed becomes owner");
                may = Address::ZERO;
            }
            _ => {
                check((sender == cur) & a.is_zero(), "renounced by the owner");
                may = Address::ZERO;
            }
        }
    }
    cover("all steps succeeded");
});

// ---------------------------------------------------------------- AccessControl
fn ac() -> AccessControl {
    unsafe { AccessControl::new(U256::ZERO, 0, vm()) }
}
struct Roles {
    r: B256,
    x: Address,
    has: bool,
    admin: B256,
}
impl Roles {
    fn take() -> Roles {
        let (r, x) = (b256("any role"), addr("any account"));
        Roles { r, x, has: ac().has_role(r, x), admin: ac().get_role_admin(r) }
    }
    /// membership of (role, account) became `on` and nothing else changed
    fn set(&self, role: B256, account: Address, on: bool) {
        let hit = (self.r == role) & (self.x == account);
        check(ac().has_role(self.r, self.x) == ((hit & on) | (!hit & self.has)), "every membership is as specified");
        check(ac().get_role_admin(self.r) == self.admin, "every role admin is as specified");
    }
    fn same(&self) {
        check(ac().has_role(self.r, self.x) == self.has, "no membership changes");
    }
}
/// 0 grant, 1 revoke, 2 renounce, 3 internal grant, 4 internal revoke
fn role_op(op: u32) {
    let (sender, account, role) = (addr("sender"), addr("account"), b256("role"));
    set_sender(sender);
    let s = Roles::take();
    let had = ac().has_role(role, account);
    let admin = ac().get_role_admin(role);
    let may = ac().has_role(admin, sender);
    let on = (op == 0) | (op == 3);
    let (r, changed) = match op {
        0 => (ac().grant_role(role, account), None),
        1 => (ac().revoke_role(role, account), None),
        2 => (ac().renounce_role(role, account), None),
        3 => (Ok(()), Some(ac()._grant_role(role, account))),
        _ => (Ok(()), Some(ac()._revoke_role(role, account))),
    };
    match r {
        Ok(()) => {
            cover("done");
            check((op >= 2) | may, "only an admin of the role");
            check((op != 2) | (sender == account), "an account gives up only its own role");
            s.set(role, account, on);
            check(n_logs() == (had != on) as u32, "one event when something changed");
            if let Some(c) = changed {
                check(c == (had != on), "says whether something changed");
            }
            if had != on {
                let t = if on { topic(b"RoleGranted(bytes32,address,address)") } else { topic(b"RoleRevoked(bytes32,address,address)") };
                check_log(0, &[t, role.0, word(account), word(sender)], &[], "event names role, account and caller");
            }
        }
        Err(control::Error::UnauthorizedAccount(e)) => {
            cover("refused");
            check((op < 2) & !may & (e.account == sender) & (e.needed_role == admin), "UnauthorizedAccount truthful");
        }
        Err(control::Error::BadConfirmation(_)) => {
            cover("bad confirmation");
            check((op == 2) & (sender != account), "BadConfirmation truthful");
        }
    }
    check(n_calls() == 0, "calls nobody");
}
h!(role_grant, { role_op(0) });
h!(role_revoke, { role_op(1) });
h!(role_renounce, { role_op(2) });
h!(role_grant_internal, { role_op(3) });
h!(role_revoke_internal, { role_op(4) });
h!(role_set_admin, {
    let (sender, role, admin) = (addr("sender"), b256("role"), b256("admin"));
    set_sender(sender);
    let s = Roles::take();
    let prev = ac().get_role_admin(role);
    ac()._set_role_admin(role, admin);
    cover("set");
    s.same();
    let now = ac().get_role_admin(s.r);
    check(now == if s.r == role { admin } else { s.admin }, "exactly this role's admin is set");
    check(n_logs() == 1, "one event");
    check_log(0, &[topic(b"RoleAdminChanged(bytes32,bytes32,bytes32)"), role.0, prev.0, admin.0], &[], "event");
});
h!(role_guard, {
    let (sender, role, account) = (addr("sender"), b256("role"), addr("account"));
    set_sender(sender);
    let w0 = n_writes();
    let own = w::choose(2) == 0;
    let who = if own { sender } else { account };
    let has = ac().has_role(role, who);
    let r = if own { ac().only_role(role) } else { ac()._check_role(role, who) };
    match r {
        Ok(()) => {
            cover("passed");
            check(has, "passes only for members");
        }
        Err(control::Error::UnauthorizedAccount(e)) => {
            check(!has & (e.account == who) & (e.needed_role == role), "UnauthorizedAccount truthful")
        }
        Err(_) => check(false, "no other error"),
    }
    check((n_writes() == w0) & (n_logs() == 0), "guards have no effect");
});
