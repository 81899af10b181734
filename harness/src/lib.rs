//! Verification harnesses: each exported function states one obligation about the library over
//! symbolic inputs and an arbitrary initial storage. See /verif/DESIGN.md.
#![no_std]
#![allow(unused_imports)]
extern crate alloc;
pub mod w;

/// declares an exported harness
#[macro_export]
macro_rules! h {
    ($name:ident, $body:block) => {
        #[no_mangle]
        pub extern "C" fn $name() $body
    };
}

#[cfg(feature = "abi")]
mod c_abi;
#[cfg(feature = "access")]
mod c_access;
#[cfg(feature = "crypto")]
mod c_bigint;
#[cfg(feature = "crypto")]
mod c_curve;
#[cfg(feature = "crypto")]
mod c_field;
#[cfg(feature = "crypto")]
mod c_field2;
#[cfg(feature = "crypto")]
mod c_poseidon;
#[cfg(feature = "crypto")]
mod c_toy;
#[cfg(feature = "crypto")]
mod c_crypto;
#[cfg(feature = "erc20")]
mod c_erc20;
#[cfg(feature = "fin")]
mod c_fin;
#[cfg(feature = "multi")]
mod c_multi;
#[cfg(feature = "nft")]
mod c_nft;
#[cfg(feature = "nft")]
mod c_nft2;
#[cfg(feature = "nft")]
mod c_nft3;
#[cfg(feature = "sign")]
mod c_sign;
#[cfg(feature = "utils")]
mod c_utils;
#[cfg(feature = "vault")]
mod c_vault;
