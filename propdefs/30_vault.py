FM, WR, V46, SAFE = X20 + "flash_mint.rs", X20 + "wrapper.rs", X20 + "erc4626.rs", "contracts/src/token/erc20/utils/safe_erc20.rs"
P("E06", "Flash loans are repaid in full with the fee or do not happen",
  "A flash loan succeeds only for this token, up to the amount that keeps the supply in range, when the borrower contract confirms with the exact magic value, has approved principal plus fee and can pay; afterwards the borrower has lost exactly the fee (burned, or paid to the fee receiver), its allowance shrank by principal plus fee, and nothing else changed. During the callback the borrower holds the loan, and it is called with the true terms. Every other case fails with an error that names the true cause.",
  "inputs histories", "all borrowers, callers, amounts, fees, fee receivers, callback answers and storage states",
  "Tests have no live borrower at all in the unit environment; boundary amounts and supply overflow cannot be sampled.",
  FM, [("loan", FM + ":flash_loan"), ("limits and fee", FM + ":max_flash_loan, flash_fee")],
  "vault", "flash_views flash_loan", bounds="call data of lengths 5 (quick) and 0, 5, 33 (thorough); the borrower's callback does not itself change token state (Stylus rejects re-entry by default)")
P("E07", "The ERC-20 wrapper keeps wrapped supply backed by underlying tokens",
  "Depositing pulls exactly the amount of underlying from the caller before minting exactly that amount of wrapped tokens; withdrawing burns exactly the amount from the caller and pays exactly that amount of underlying out. Neither the wrapper itself as sender or receiver nor a refused underlying transfer is accepted, and recovery mints exactly the excess of underlying held over wrapped supply.",
  "inputs histories", "all callers, accounts, amounts, underlying answers and storage states",
  "The unit tests mock one underlying token with fixed answers.",
  WR, [("deposit, withdraw, recover", WR)],
  "vault", "wrapper_deposit wrapper_withdraw wrapper_recover",
  bounds="answers of the underlying token: revert, empty, or one or two words")
P("E08", "ERC-4626 conversions are exact quotients rounded in the vault's favour",
  "Shares for assets is assets*(supply+10^offset)/(totalAssets+1) and assets for shares its mirror, computed without intermediate overflow and rounded down for deposit, redeem and plain conversion and up for mint and withdraw. Results that do not fit abort instead of wrapping, an unreadable asset is reported as such, the limits are unlimited deposits and the owner's holdings, decimals are the asset's plus the offset, and no view changes state.",
  "inputs configurations", "all amounts, supplies, asset balances and owners; decimal offsets {0, 6, 78} (quick) plus {18, 77, 255} (thorough)",
  "Rounding errors hide at specific quotients of 512-bit products which sampled tests do not hit.",
  V46 + " contracts/src/utils/math/alloy.rs", [("conversion", V46 + ":_convert_to_shares, _convert_to_assets"), ("mul_div", "contracts/src/utils/math/alloy.rs:mul_div")],
  "vault", "vault_shares_down vault_shares_up vault_assets_down vault_assets_up vault_max_withdraw vault_views vault_decimals",
  bounds="the listed decimal offsets")
P("E09", "ERC-4626 deposits and withdrawals exchange exactly what the previews say",
  "Deposit and mint pull exactly the previewed assets from the caller and mint exactly the previewed shares to the receiver; withdraw and redeem burn exactly the previewed shares from the owner, consume the caller's allowance when it is not the owner, stay within the owner's limit and pay exactly the previewed assets to the receiver. Each moves the asset once, emits its events, and leaves every other balance and allowance untouched. A refused asset transfer, a short allowance or an exceeded limit fails with an error naming the true cause.",
  "inputs histories", "all callers, receivers, owners, amounts, asset answers and storage states",
  "The unit tests mock a single asset and a few amounts.",
  V46, [("flows", V46 + ":deposit, mint, withdraw, redeem, _deposit, _withdraw")],
  "vault", "vault_deposit vault_mint vault_withdraw vault_redeem",
  bounds="decimal offsets: {6,0} for deposit and mint, {6} for withdraw and redeem in the quick tier, {6,0,78,77,18,255} in the thorough one; where the preview aborts the flow is not constrained")
P("E10", "Safe ERC-20 calls succeed only when the token really accepted",
  "A safe transfer, transfer-from, approval, increase or decrease performs exactly the stated token call with the stated parties and amount and succeeds only when the target has code, did not revert and answered nothing or true. Forced approval resets to zero first when the direct approval is refused, and relative changes are computed from the true current allowance without wrapping. Every refusal surfaces as an error.",
  "inputs fault_sequences", "all tokens, parties, amounts and allowances; every combination of accepted, reverted, false, empty and arbitrary one- or two-word answers",
  "Unit tests mock a handful of token behaviours.",
  SAFE, [("calls", SAFE)],
  "vault", "safe_transfer safe_transfer_from safe_force_approve safe_increase safe_decrease",
  bounds="answers of 0, 32 or 64 bytes")
