AC = "contracts/src/access/"
P("A01", "AccessControl: only a role's admin changes it, and only that role",
  "grant_role and revoke_role succeed only for a caller holding the role's admin role, renounce_role only for the caller itself; a success changes membership of exactly that account in exactly that role and logs it only if it changed. Every other caller is refused with an error naming it and the role needed, and only_role accepts exactly the members.",
  "inputs histories", "all roles, accounts, callers and storage states",
  "Tests use two roles and two accounts; the guarantee is about every other one too.",
  AC + "control.rs", [("grant_role, revoke_role, renounce_role", AC + "control.rs"), ("only_role, _check_role", AC + "control.rs:only_role"), ("_set_role_admin", AC + "control.rs:_set_role_admin")],
  "access", "role_grant role_revoke role_renounce role_grant_internal role_revoke_internal role_set_admin role_guard")
P("A02", "Ownable: only the owner passes or gives up ownership",
  "transfer_ownership and renounce_ownership succeed only for the current owner, transfer never to the zero address, and the new owner is exactly the one asked for, with the event. only_owner accepts exactly the current owner and nothing else changes the owner.",
  "inputs histories", "all callers, owners and targets",
  "Tests use fixed accounts.",
  AC + "ownable.rs", [("transfer_ownership, renounce_ownership, only_owner", AC + "ownable.rs")],
  "access", "own_transfer own_renounce own_guard own_internal")
P("A03", "Ownable2Step: ownership moves only when the nominated account accepts",
  "Only the owner nominates, and nominating leaves the owner in place; only the currently pending owner accepts, which makes it owner and clears the nomination, so a nomination replaced, used, or followed by a renounce can no longer be accepted.",
  "inputs histories", "all callers, owners and nominees; all sequences of operations up to the bounded length",
  "Stale nominations need particular sequences of calls by particular callers.",
  AC + "ownable_two_step.rs", [("transfer_ownership, accept_ownership, renounce_ownership", AC + "ownable_two_step.rs")],
  "access", "own2_transfer own2_accept own2_renounce own2_history",
  bounds="sequences of 3 (quick) or 4 (thorough) operations; single steps unbounded")
