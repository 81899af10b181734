E721, X721 = "contracts/src/token/erc721/mod.rs", "contracts/src/token/erc721/extensions/"
INV721 = ["every reachable state is assumed to satisfy: an owner's balance is positive, a token without an owner has no approval, address zero has no operators; the caller is not address zero"]
P("N01", "ERC-721: every token has one owner and balances count exactly the tokens moved",
  "A successful transfer, mint or burn moves exactly one named token between exactly the named accounts, shifts their balances by exactly one, clears that token's approval and emits one true Transfer event; no other token, balance or approval changes. Minting an existing token, moving or burning a missing one, moving from a wrong owner or to address zero fails with an error naming the true cause. The views report this state and reject missing tokens and address zero.",
  "inputs histories", "all accounts, token ids, callers and storage states",
  "Tests move a few tokens between two or three accounts; that nothing else moves has to hold for every token, account and prior state.",
  E721 + " " + X721 + "burnable.rs", [("update", E721 + ":_update, _mint, _burn, _transfer, transfer_from"), ("burn", X721 + "burnable.rs"), ("views", E721 + ":owner_of, balance_of")],
  "nft", "nft_transfer_from nft_internal_transfer nft_mint nft_burn_internal nft_update nft_burn nft_views", assumptions=INV721)
P("N02", "ERC-721: only the owner, an approved account or an operator moves or approves",
  "A public transfer or burn succeeds only for a caller who is the owner, the account approved for that token or an operator of the owner. An approval is set only by the owner or an operator, for exactly that token; an operator grant is set only by the grantor for itself, never for address zero. Each sets exactly one entry, emits one true event and changes nothing else.",
  "inputs histories", "all accounts, token ids, callers and storage states",
  "Tests sample a handful of caller roles; every combination of owner, approval, operator and caller matters.",
  E721, [("authorization", E721 + ":_is_authorized, _check_authorized"), ("approvals", E721 + ":_approve, _set_approval_for_all")],
  "nft", "nft_transfer_from nft_burn nft_update nft_approve nft_approve_internal nft_approve_all nft_views", assumptions=INV721)
P("N03", "ERC-721: safe transfers and mints require the receiving contract's consent",
  "A safe transfer or mint to an account with code succeeds only after that account, already owning the token, was told the true operator, sender, token and data and answered with the prescribed value; without code nobody is asked. A refusal, an empty or wrong answer fails, and a stated reason is passed on. Otherwise the effect and the permissions are those of the plain operation.",
  "inputs faults", "all accounts, ids, callers and storage states; every answer of the receiver: empty revert, revert with a reason, nothing, or any 32-byte word",
  "Tests use a few fixed receiver contracts.",
  E721, [("receiver check", E721 + ":_check_on_erc721_received"), ("safe operations", E721 + ":_safe_mint, _safe_transfer, safe_transfer_from_with_data")],
  "nft", "nft_safe_transfer_from nft_safe_transfer_from_data nft_safe_transfer_internal nft_safe_mint",
  bounds="transfer data of 5 bytes (quick) or 0, 5 and 33 bytes (thorough), arbitrary content; reasons of 5 bytes", assumptions=INV721)
P("N05", "ERC-721 consecutive: batch minting and the ERC-721 guarantees together",
  "Batch minting gives exactly the next run of ids to the receiver, raises its balance by the batch size, emits one true event and fails only for address zero or an oversized batch. Tokens minted in batches and singly then obey the same rules for ownership, balances, approvals, authorization and receiver consent as plain ERC-721 tokens, and a burned token stays without an owner.",
  "inputs histories", "all accounts, ids, batch sizes, first ids and storage states with a bounded number of earlier batches",
  "Tests mint one or two small batches; ids at batch borders, burned ids and mixed histories cannot be enumerated.",
  X721 + "consecutive.rs contracts/src/utils/structs/checkpoints/mod.rs contracts/src/utils/structs/bitmap.rs",
  [("ownership", X721 + "consecutive.rs:_owner_of, _mint_consecutive, _update"), ("checkpoints", "contracts/src/utils/structs/checkpoints"), ("burn bitmap", "contracts/src/utils/structs/bitmap.rs")],
  "nft", "cons_owner cons_mint_batch cons_mint cons_burn cons_update cons_transfer_from cons_internal_transfer cons_approve cons_approve_internal cons_approve_all cons_views cons_safe_transfer_from cons_safe_transfer_from_data cons_safe_transfer_internal cons_safe_mint",
  bounds="up to 1 earlier batch (2 for batch minting and ownership; 3 and 4 in the thorough tier); token ids arbitrary above their lowest byte, which is 255 or 0 (or 9, thorough); ids stay below 2^96",
  assumptions=INV721 + ["batches are non-empty and in order; ids not yet minted have no record"])
