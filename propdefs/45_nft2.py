NX = "contracts/src/token/erc721/extensions/"
P("N04", "ERC-721 Enumerable lists exactly the existing tokens, once each, by owner",
  "After every history of mints, transfers between different owners and burns, with the extension updated as documented, total_supply and token_by_index list each existing token exactly once, and token_of_owner_by_index lists each owner's tokens exactly once. Every index beyond the end is refused with an error naming owner and index, and batch minting is refused.",
  "histories inputs", "all distinct token ids and owners over all histories up to the bounded length",
  "Swap-and-pop bookkeeping goes wrong only after particular sequences of removals.",
  NX + "enumerable.rs", [("add to / remove from owner enumeration", NX + "enumerable.rs:_add_token_to_owner_enumeration, _remove_token_from_owner_enumeration"), ("all tokens", NX + "enumerable.rs:_add_token_to_all_tokens_enumeration, _remove_token_from_all_tokens_enumeration")],
  "nft", "enum_history enum_zero_id enum_batch",
  bounds="histories of 4 (quick) or 5 (thorough) operations on an empty contract, two owners")
P("N06", "ERC-721 token URIs are the base URI and the id or the token's own URI",
  "For an existing token the URI is the base URI followed by the token's own URI, or by its id in decimal when it has none (empty without a base URI); a token without owner is refused. Setting a token's URI replaces only that token's URI, whatever was stored before, and logs it.",
  "inputs histories", "all texts of the bounded lengths (ASCII), all token ids for stored URIs, the listed ids for decimal ones",
  "Tests use a few short strings; storage of strings changes format at 32 bytes.",
  NX + "metadata.rs " + NX + "uri_storage.rs", [("token_uri", NX + "metadata.rs:token_uri"), ("_set_token_uri, token_uri", NX + "uri_storage.rs")],
  "nft", "nft_metadata nft_uri_storage nft_uri_default",
  bounds="texts of 0, 3, 31, 32 bytes (quick), also 40, 64, 65 (thorough); decimal ids 0-99 and 2^256-1 (quick), also 100-999 and 2^64-1 (thorough)")
P("N07", "ERC-721 Wrapper: a wrapped token exists only against the underlying one",
  "deposit_for mints each listed token to the account only after the underlying contract accepted transferring that token from the caller; withdraw_to burns each listed token, only with the caller's authority over it, before handing out the underlying. A token pushed in is wrapped only when the caller is the underlying contract; any refusal by the underlying or a receiver undoes the operation with its reason.",
  "inputs faults", "all callers, accounts, token ids, ownership states and answers of the underlying and the receivers, for lists up to the bounded length",
  "Backing must survive every answer of another contract and repeated ids.",
  NX + "wrapper.rs", [("deposit_for, withdraw_to, on_erc721_received", NX + "wrapper.rs")],
  "nft", "nwrap_deposit nwrap_withdraw nwrap_receive",
  bounds="lists of 0 to 2 token ids")
MT = "contracts/src/token/erc1155/"
P("M01", "ERC-1155 transfers move exactly the listed amounts, only by holder or operator",
  "safe_transfer_from and safe_batch_transfer_from succeed only for the holder or its operator, with arrays of equal length and sufficient balances at each step; then exactly the listed amounts move and no other balance, with the TransferSingle or TransferBatch event. A receiving contract is asked once, after the balances moved, with the true operator, holder, ids, amounts and data, and anything but its acceptance undoes the transfer.",
  "inputs faults", "all callers, accounts, ids (repeated ones too), amounts, balances and receiver answers, for arrays up to the bounded length",
  "Tests use distinct ids and small amounts; repeated ids, self-transfers and extreme amounts are where batches go wrong.",
  MT + "mod.rs", [("safe_transfer_from, safe_batch_transfer_from", MT + "mod.rs"), ("_update, do_update", MT + "mod.rs:_update"), ("acceptance check", MT + "mod.rs:_check_on_erc1155_received")],
  "multi", "multi_transfer multi_transfer_batch",
  bounds="arrays of 0 to 2 ids and amounts, unequal lengths 2/1 and 1/2 (thorough: also 3/3); receiver data of 5 (also 0 and 33) bytes")
P("M02", "ERC-1155 minting and burning change exactly the listed amounts",
  "Minting adds exactly the listed amounts to the receiver, never wrapping a balance, and burning removes exactly them, never more than is held; no other balance changes and the event says so. The public burns work only for the holder or its operator, and a receiving contract must accept what is minted.",
  "inputs faults", "all callers, accounts, ids, amounts, balances and receiver answers, for arrays up to the bounded length",
  "Tests use distinct ids and small amounts.",
  MT + "mod.rs " + MT + "extensions/burnable.rs", [("_mint, _mint_batch, _burn, _burn_batch", MT + "mod.rs"), ("burn, burn_batch", MT + "extensions/burnable.rs")],
  "multi", "multi_mint multi_mint_batch multi_burn multi_burn_batch multi_burn_public multi_burn_batch_public",
  bounds="arrays of 0 to 2 ids and amounts, unequal lengths 2/1 and 1/2 (thorough: also 3/3); receiver data of 5 (also 0 and 33) bytes")
P("M03", "ERC-1155 operator grants and balance queries are exact",
  "set_approval_for_all changes exactly the caller's grant for that operator, never for address zero, and no balance. balance_of_batch answers each pair in its place, refuses arrays of different lengths, and queries change nothing.",
  "inputs", "all callers, operators, accounts and ids, for arrays up to the bounded length",
  "Tests use fixed accounts.",
  MT + "mod.rs", [("set_approval_for_all, balance_of_batch", MT + "mod.rs")],
  "multi", "multi_approve multi_views supply_approve supply_views",
  bounds="balance_of_batch: arrays of 0 to 3 entries, unequal lengths 2/1 and 1/2")
P("M04", "ERC-1155 Supply: recorded supplies follow every mint and burn exactly",
  "Each mint raises and each burn lowers the recorded supply of every id and the overall total by exactly the listed amounts, transfers leave them, and no mint succeeds if a supply or the total would exceed its range. Balances, events, authorization and acceptance are those of the plain token.",
  "inputs faults histories", "all callers, accounts, ids, amounts, supplies and receiver answers, for arrays up to the bounded length",
  "Sums wrap only at extreme amounts spread over several ids.",
  MT + "extensions/supply.rs", [("_update", MT + "extensions/supply.rs:_update"), ("total_supply, total_supply_all, exists", MT + "extensions/supply.rs")],
  "multi", "supply_transfer supply_transfer_batch supply_mint supply_mint_batch supply_burn supply_burn_batch",
  bounds="arrays of 0 to 2 ids and amounts, unequal lengths 2/1 and 1/2 (thorough: also 3/3)")
P("M05", "ERC-1155 URIs: a token's own URI after the base, otherwise the common one",
  "uri is the base URI followed by the token's own URI, or the common URI when it has none; setting one replaces only that token's URI, whatever was stored before, and logs the resulting URI.",
  "inputs histories", "all texts of the bounded lengths (ASCII) and all ids",
  "Storage of strings changes format at 32 bytes; tests use short ones.",
  MT + "extensions/uri_storage.rs " + MT + "extensions/metadata_uri.rs", [("uri, set_token_uri, set_base_uri", MT + "extensions/uri_storage.rs"), ("uri", MT + "extensions/metadata_uri.rs")],
  "multi", "multi_uri",
  bounds="texts of 0, 3, 31 and 32 bytes (thorough: also 40 and 64)")
P("R01", "ERC-2981 royalties are exactly the fraction set, own royalty before the default",
  "royalty_info pays the token's own receiver and fraction when set, otherwise the default, as the price times the fraction rounded down, aborting on overflow; a fraction above the whole or a zero receiver is refused, so a royalty never exceeds the price. Setting or resetting one token's royalty or the default leaves every other one.",
  "inputs histories", "all tokens, receivers, fractions, denominators and prices",
  "Tests use round prices and one token.",
  "contracts/src/token/common/erc2981.rs", [("royalty_info, _set_default_royalty, _set_token_royalty, _reset_token_royalty", "contracts/src/token/common/erc2981.rs")],
  "fin", "royalty_default royalty_token royalty_reset royalty_bounded",
  bounds="prices below 2^128 where histories of settings are compared; all prices for a token's own royalty")
VW = "contracts/src/finance/vesting_wallet.rs"
P("F01", "VestingWallet releases ether exactly as vested, only to the owner",
  "The vested amount follows the linear schedule over everything ever held; release pays the owner exactly what vested and was not yet released, records it before paying, and pays no one else. A refused payment undoes the release, and only the owner passes ownership on.",
  "inputs histories faults", "all schedules, times, balances, released amounts and answers of the owner",
  "Tests sample a few times on one schedule.",
  VW, [("release_eth, releasable_eth, vested_amount_eth", VW), ("vesting_schedule", VW + ":vesting_schedule")],
  "fin", "vest_eth vest_owner",
  assumptions=["what was released had vested (only releases take ether out)"])
P("F02", "VestingWallet releases each ERC-20 exactly as vested, only to the owner",
  "For each token the vested amount follows the linear schedule over everything ever held; release sends the owner exactly what vested and was not yet released, records it for that token only before sending, and undoes it when the token refuses. Releasable is never more than vested minus released, even when the token's balance shrinks by itself.",
  "inputs histories faults", "all schedules, times, balances, released amounts and token answers",
  "Tests sample a few times on one schedule with one well-behaved token.",
  VW, [("release_erc20, releasable_erc20, vested_amount_erc20", VW), ("vesting_schedule", VW + ":vesting_schedule")],
  "fin", "vest_erc20_views vest_erc20")
