C20 = "contracts/src/token/erc20/mod.rs"
P("E01", "ERC-20 transfers move exactly the amount and touch nothing else",
  "Transferring v tokens (directly or by an approved spender) takes exactly v from the sender's balance and adds exactly v to the receiver's, leaves every other balance, every unrelated allowance and the total supply unchanged, and emits exactly one Transfer event. It succeeds exactly when neither party is the zero address, the balance covers v and, for a spender, the allowance covers v; otherwise it fails with an error that truthfully names the violated condition.",
  "inputs histories", "all callers, owners, receivers and amounts, from every storage state in which no two balances exceed the supply",
  "Unit tests try a handful of concrete accounts and amounts; self-transfers, boundary amounts and untouched third accounts are unbounded.",
  C20, [("balance and supply update", C20 + ":_update"), ("zero-address checks", C20 + ":_transfer"), ("public entry points", C20 + ":transfer, transfer_from")],
  "erc20", "e20_transfer e20_transfer_from e20_two_steps e20_update")
P("E02", "ERC-20 allowances: set only by the owner, consumed only by spending",
  "An allowance changes only when its owner approves (to exactly the approved amount, with an Approval event) or when its spender spends from it (reduced by exactly the amount spent, untouched when it is the maximum value, never below zero). No other operation changes any allowance, and spending more than the allowance always fails with the true allowance and need in the error.",
  "inputs histories", "all owners, spenders, amounts and storage states",
  "Tests check a few pairs; they cannot show that no other entry of the two-level mapping moves nor cover every amount around the unlimited value.",
  C20, [("approve", C20 + ":_approve"), ("spend", C20 + ":_spend_allowance")],
  "erc20", "e20_approve e20_spend_allowance e20_transfer_from e20_burn_from e20_error_encoding")
P("E03", "ERC-20 minting and burning keep supply equal to the sum of balances",
  "Minting adds the same amount to one balance and to the supply, and aborts or fails when the supply would overflow or the receiver is the zero address; burning removes the same amount from both and fails when the balance is short. No sequence of operations changes the difference between the supply and the sum of balances.",
  "inputs histories", "all accounts and amounts, every state in which balances do not exceed the supply; one arbitrary step plus all two-step sequences over two parties",
  "The invariant ranges over every history; tests replay a few.",
  C20, [("mint, burn, update", C20 + ":_mint, _burn, _update")],
  "erc20", "e20_mint e20_burn_internal e20_update e20_two_steps", bounds="the sum-of-balances invariant is checked for one step from an arbitrary state and for sequences of two operations")
P("E04", "ERC-20 self-burn and allowance-burn respect ownership and allowance",
  "Burning destroys only the caller's own tokens, or tokens of an owner who gave the caller a sufficient allowance, which is consumed by exactly the burned amount. Balance, allowance and supply change exactly as specified, no other account is affected, and the standard decimals value is 18.",
  "inputs", "all callers, owners, amounts and storage states",
  "Tests use fixed accounts and amounts and never look at unrelated accounts.",
  "contracts/src/token/erc20/extensions/burnable.rs contracts/src/token/erc20/extensions/metadata.rs", [("burn, burn_from", "contracts/src/token/erc20/extensions/burnable.rs")],
  "erc20", "e20_burn e20_burn_from e20_cap_metadata")
