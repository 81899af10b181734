X20 = "contracts/src/token/erc20/extensions/"
PERM, NON, ECD, EIP = X20 + "permit.rs", "contracts/src/utils/nonces.rs", "contracts/src/utils/cryptography/ecdsa.rs", "contracts/src/utils/cryptography/eip712.rs"
P("E05", "Permit sets an allowance only for a live, unreplayed owner signature",
  "A permit changes an allowance only when its deadline has not passed and the signature recovers to the owner over the domain-bound hash of exactly (owner, spender, value, current nonce, deadline). It then sets exactly that allowance to exactly that value, emits one Approval event, raises the owner's nonce by one and changes nothing else. Every other case fails with an error that names the true cause.",
  "inputs histories", "all owners, spenders, values, deadlines, timestamps, signatures, nonces, domains and storage states",
  "Tests use one key pair and one message; they cannot show that every deviation in any signed field is rejected nor that no other entry moves.",
  PERM, [("permit", PERM + ":permit"), ("typed hash", EIP), ("nonce", NON)],
  "sign", "permit nonce_replay",
  assumptions=["the ecrecover precompile is an arbitrary function of its 128-byte input; its answer is 0 or 32 bytes"])
P("U01", "Nonces are strictly sequential per account",
  "Using a nonce returns the account's current value and raises it by exactly one; the checked use succeeds only with the exact current value and reports the true one otherwise. No account's nonce is affected by another's, so the same nonce is never accepted twice.",
  "inputs histories", "all accounts, nonce values and storage states; sequences of two uses of arbitrary accounts",
  "Tests advance a nonce a few times from zero for one or two accounts.",
  NON, [("use", NON + ":use_nonce, use_checked_nonce")],
  "sign", "nonce_use nonce_use_checked nonce_replay",
  bounds="non-replay is checked over every pair of uses from an arbitrary state")
P("U06", "ECDSA recovery accepts only canonical signatures and never yields address zero",
  "Recovery returns a signer only when the signature's s value lies in the lower half of the curve order and the chain's recovery routine, given exactly the hash, v, r and s, produces a non-zero address, which is returned unchanged. A high s value, a zero result or an empty result is always an error and never a panic.",
  "inputs", "all hashes, v, r, s and all answers of the recovery precompile (absent, or 32 bytes)",
  "Tests use a few fixed signatures; the malleability bound and every answer of the precompile cannot be enumerated.",
  ECD, [("recover", ECD + ":recover, check_if_malleable")],
  "sign", "ecdsa_recover",
  assumptions=["the ecrecover precompile is an arbitrary function of its 128-byte input; its answer is 0 or 32 bytes"])
P("U07", "EIP-712 hashes follow the standard and bind chain, contract, name and version",
  "The typed-data hash equals keccak256(0x1901 || domain separator || struct hash) with the separator the standard prescribes for the contract's name, version, chain id and own address. Hashes made for a different chain, contract, name, version or message are different, so a signature cannot be replayed across domains.",
  "inputs configurations", "all chain ids, contract addresses and struct hashes; names and versions of two fixed contracts",
  "Tests compare one domain with a stored value.",
  EIP, [("domain separator", EIP + ":domain_separator_v4, hash_typed_data_v4")],
  "sign", "eip712_hash eip712_binding")
P("U02", "Pausing is a strict two-state switch that its guards follow",
  "Pausing succeeds only when not paused, unpausing only when paused; each flips the state once and emits one event naming the caller. The guards accept exactly in their own state and fail with the matching error in the other, changing nothing.",
  "inputs histories", "both states, all callers, arbitrary surrounding storage",
  "Tests walk one short scenario with one caller.",
  "contracts/src/utils/pausable.rs", [("pause, unpause and the guards", "contracts/src/utils/pausable.rs")],
  "utils", "pause unpause")
