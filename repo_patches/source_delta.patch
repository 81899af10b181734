From 245215c5deaab83ed52ce887a501a095c72c632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:33 +0000
Subject: [PATCH 1/4] fix: return ECDSAInvalidSignature when ecrecover yields
 no data

The ecrecover precompile succeeds with empty output for an invalid
signature; slicing that output aborted the call instead of returning the
documented error.
---
 contracts/src/utils/cryptography/ecdsa.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/contracts/src/utils/cryptography/ecdsa.rs b/contracts/src/utils/cryptography/ecdsa.rs
index 89d6d45..4957d34 100644
--- a/contracts/src/utils/cryptography/ecdsa.rs
+++ b/contracts/src/utils/cryptography/ecdsa.rs
@@ -86,7 +86,8 @@ impl MethodError for ecdsa::Error {
 ///
 /// * [`Error::InvalidSignatureS`] - If the `s` value is grater than
 ///   [`SIGNATURE_S_UPPER_BOUND`].
-/// * [`Error::InvalidSignature`] - If the recovered address is `Address::ZERO`.
+/// * [`Error::InvalidSignature`] - If the signature is invalid or the recovered
+///   address is `Address::ZERO`.
 ///
 /// # Panics
 ///
@@ -119,7 +120,8 @@ pub fn recover(
 ///
 /// # Errors
 ///
-/// * [`Error::InvalidSignature`] - If the recovered address is `Address::ZERO`.
+/// * [`Error::InvalidSignature`] - If the signature is invalid or the recovered
+///   address is `Address::ZERO`.
 ///
 /// # Panics
 ///
@@ -145,6 +147,11 @@ fn _recover(
         call::static_call(Call::new_in(storage), ECRECOVER_ADDR, &calldata)
             .expect("should call `ecrecover` precompile");
 
+    // `ecrecover` returns no data for an invalid signature.
+    if recovered.is_empty() {
+        return Err(ECDSAInvalidSignature {}.into());
+    }
+
     let recovered = Address::from_slice(&recovered[12..]);
 
     if recovered.is_zero() {
-- 
2.43.0


From a0b678953dcae6522fb25bc3bbe2a32d767690ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:41 +0000
Subject: [PATCH 2/4] fix: detect overflow of the minted total in Erc1155Supply

A batch mint whose values add up to more than U256::MAX wrapped the sum
added to total_supply_all, leaving it below the supplies of the tokens
just minted; it now aborts as documented.
---
 contracts/src/token/erc1155/extensions/supply.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc1155/extensions/supply.rs b/contracts/src/token/erc1155/extensions/supply.rs
index f0323f5..d8e161b 100644
--- a/contracts/src/token/erc1155/extensions/supply.rs
+++ b/contracts/src/token/erc1155/extensions/supply.rs
@@ -257,7 +257,10 @@ impl Erc1155Supply {
                 );
             }
 
-            let total_mint_value = values.iter().sum();
+            let total_mint_value = values
+                .iter()
+                .try_fold(U256::ZERO, |sum, &value| sum.checked_add(value))
+                .expect("should not exceed `U256::MAX` for `total_supply_all`");
             self.total_supply_all.add_assign_checked(
                 total_mint_value,
                 "should not exceed `U256::MAX` for `total_supply_all`",
-- 
2.43.0


From 04290172b07ac572c48d5945dc4071b182e725c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:41 +0000
Subject: [PATCH 3/4] fix: do not wrap VestingWallet's releasable ERC-20 amount

When a token's balance shrinks by itself (rebasing tokens), less may have
vested than was released; releasable then reported an amount close to
U256::MAX instead of failing.
---
 contracts/src/finance/vesting_wallet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/src/finance/vesting_wallet.rs b/contracts/src/finance/vesting_wallet.rs
index 9379e92..b9ca048 100644
--- a/contracts/src/finance/vesting_wallet.rs
+++ b/contracts/src/finance/vesting_wallet.rs
@@ -405,7 +405,10 @@ impl IVestingWallet for VestingWallet {
         let vested = self.vested_amount_erc20(token, block::timestamp())?;
         // SAFETY: total vested amount is by definition greater than or equal to
         // the released amount.
-        Ok(vested - self.released_erc20(token))
+        // The balance of some tokens (e.g. rebasing ones) may shrink on its own.
+        Ok(vested
+            .checked_sub(self.released_erc20(token))
+            .expect("released amount should not exceed vested amount"))
     }
 
     #[selector(name = "release")]
-- 
2.43.0


From 34dabd814fff4de5e7faee9ffee5e0b50b6376cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:05 +0000
Subject: [PATCH 4/4] fix: remainder of a zero WideUint is zero

---
 lib/crypto/src/arithmetic/uint.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/crypto/src/arithmetic/uint.rs b/lib/crypto/src/arithmetic/uint.rs
index afe6984..45a78a4 100644
--- a/lib/crypto/src/arithmetic/uint.rs
+++ b/lib/crypto/src/arithmetic/uint.rs
@@ -839,8 +839,14 @@ impl<const N: usize> WideUint<N> {
 
         let mut remainder = Uint::<N>::ZERO;
 
+        let num_bits = self.ct_num_bits();
+        if num_bits == 0 {
+            // Zero has no bits to process, and its remainder is zero.
+            return remainder;
+        }
+
         // Start with the last bit.
-        let mut index = self.ct_num_bits() - 1;
+        let mut index = num_bits - 1;
         loop {
             // Shift the remainder to the left by 1,
             let (result, carry) = remainder.ct_checked_mul2();
-- 
2.43.0

