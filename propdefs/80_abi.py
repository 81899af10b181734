T = "contracts/src/token/"
_SDK = ["The dispatch and codec code generated by stylus-sdk's #[public] macro and alloy runs as compiled; a component is deployed on its own as the top-level storage."]
P("X01", "ERC-20 components expose exactly their standard external functions",
  "For every selector and call value, Erc20, its metadata, cap, permit, pause and nonce parts dispatch exactly the documented functions under their standard Solidity signatures; any other selector, in particular any for an internal function such as minting, is not dispatched, and a call carrying value is refused. A dispatched call acts on the decoded arguments and returns the standard ABI encoding of its result or error.",
  "inputs", "all selectors, values, arguments, callers and storage states",
  "Tests call the Rust methods and never go through the selectors; exposing one function too many or under another name changes no unit test.",
  T + "erc20/mod.rs " + T + "erc20/extensions/metadata.rs " + T + "erc20/extensions/capped.rs " + T + "erc20/extensions/permit.rs contracts/src/utils/nonces.rs contracts/src/utils/pausable.rs contracts/src/utils/metadata.rs",
  [("#[public] impl IErc20 for Erc20", T + "erc20/mod.rs"), ("public parts", T + "erc20/extensions/")],
  "abi", "abi_erc20_surface abi_permit_surface abi_erc20_calls abi_erc20_parts abi_permit_domain", assumptions=_SDK)
P("X02", "ERC-721, ERC-1155 and royalty components expose exactly their standard functions",
  "For every selector and call value, the ERC-721 (plain, consecutive, enumerable, metadata), ERC-1155 (plain, supply, metadata URI) and ERC-2981 components dispatch exactly the documented functions under their standard Solidity signatures; nothing else is dispatched and a call carrying value is refused. A dispatched call acts on the decoded arguments, passes data on unchanged, and returns the standard ABI encoding of its result or error.",
  "inputs", "all selectors, values, arguments, callers and storage states; trailing data of one length, one-element arrays",
  "Tests call the Rust methods and never go through the selectors.",
  T + "erc721/mod.rs " + T + "erc721/extensions/consecutive.rs " + T + "erc721/extensions/enumerable.rs " + T + "erc721/extensions/metadata.rs " + T + "erc1155/mod.rs " + T + "erc1155/extensions/supply.rs " + T + "erc1155/extensions/metadata_uri.rs " + T + "common/erc2981.rs",
  [("#[public] impl IErc721 for Erc721", T + "erc721/mod.rs"), ("#[public] impl IErc1155 for Erc1155", T + "erc1155/mod.rs")],
  "abi", "abi_nft_surface abi_multi_surface abi_erc721_calls abi_nft_parts abi_erc1155_calls abi_supply_calls",
  bounds="trailing data of 5 bytes; batch arrays of one element; the behaviour of the routed calls is checked for Erc721, Erc1155, Erc1155Supply, Erc721Enumerable and Erc2981, the exposed set for all", assumptions=_SDK)
P("X03", "Access-control and finance components expose exactly their documented functions",
  "For every selector and call value, Ownable, Ownable2Step, AccessControl, VestingWallet and SafeErc20 dispatch exactly the documented functions under their Solidity signatures; nothing else is dispatched and a call carrying value is refused. A dispatched call acts on the decoded arguments and returns the standard ABI encoding of its result or error.",
  "inputs", "all selectors, values, arguments, callers and storage states",
  "Tests call the Rust methods and never go through the selectors; an internal function exposed by mistake hands control to anybody.",
  "contracts/src/access/ownable.rs contracts/src/access/ownable_two_step.rs contracts/src/access/control.rs contracts/src/finance/vesting_wallet.rs " + T + "erc20/utils/safe_erc20.rs",
  [("#[public] impls", "contracts/src/access/"), ("#[public] impl IVestingWallet", "contracts/src/finance/vesting_wallet.rs")],
  "abi", "abi_access_surface abi_finance_surface abi_ownable_calls abi_ownable2_calls abi_control_calls abi_vesting_calls abi_safe_erc20_calls", assumptions=_SDK)
P("X04", "Every error reverts with its standard Solidity encoding",
  "Whatever its fields hold, each error of the library, also when wrapped in another component's error, becomes revert data consisting of the selector of its documented Solidity signature followed by the ABI encoding of its fields in the documented order.",
  "inputs", "all field values of every error variant with fixed-size fields",
  "Tests compare Rust enum variants by field name; the bytes a caller sees are never looked at.",
  T + "erc20/mod.rs " + T + "erc20/extensions/erc4626.rs " + T + "erc20/extensions/flash_mint.rs " + T + "erc20/extensions/wrapper.rs " + T + "erc20/extensions/permit.rs " + T + "erc721/mod.rs " + T + "erc1155/mod.rs " + T + "common/erc2981.rs contracts/src/access/control.rs contracts/src/access/ownable.rs contracts/src/finance/vesting_wallet.rs",
  [("sol! error definitions", T), ("Error enums", T)],
  "abi erc20", "e20_error_encoding abi_errors_erc20 abi_errors_nft abi_errors_other")
P("X05", "ERC-165 reports exactly the interfaces a component implements",
  "For every 4-byte interface id, supports_interface of each component answers true exactly for ERC-165 itself and for the interfaces the component implements, identified by the XOR of their function selectors, and false for everything else including 0xffffffff.",
  "inputs", "all 2^32 interface ids, for every component",
  "Tests probe the right ids and one wrong one.",
  "contracts/src/utils/introspection/erc165.rs contracts-proc/src/interface_id.rs " + T + "erc20/mod.rs " + T + "erc721/mod.rs " + T + "erc1155/mod.rs contracts/src/access/control.rs",
  [("supports_interface", "contracts/src/utils/introspection/erc165.rs"), ("INTERFACE_ID", "contracts-proc/src/interface_id.rs")],
  "abi", "abi_erc165_erc20 abi_erc165_nft abi_erc165_access")
