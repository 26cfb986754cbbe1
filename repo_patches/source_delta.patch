From f0cbc4de94690cab953d4de626afe8439815ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 01/10] fix: return ECDSAInvalidSignature when ecrecover
 recovers no signer

The ecrecover precompile returns empty data for an invalid v, r or s. Slicing
that empty output panicked instead of returning the documented error.
---
 contracts/src/utils/cryptography/ecdsa.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/src/utils/cryptography/ecdsa.rs b/contracts/src/utils/cryptography/ecdsa.rs
index 89d6d45..49a2814 100644
--- a/contracts/src/utils/cryptography/ecdsa.rs
+++ b/contracts/src/utils/cryptography/ecdsa.rs
@@ -145,6 +145,11 @@ fn _recover(
         call::static_call(Call::new_in(storage), ECRECOVER_ADDR, &calldata)
             .expect("should call `ecrecover` precompile");
 
+    // The precompile returns no data when no signer can be recovered.
+    if recovered.is_empty() {
+        return Err(ECDSAInvalidSignature {}.into());
+    }
+
     let recovered = Address::from_slice(&recovered[12..]);
 
     if recovered.is_zero() {
-- 
2.43.0


From 4f9291f51eee9460a5de4f7825c4706a56204e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:30 +0000
Subject: [PATCH 02/10] fix: refuse missing or short allowance data in
 SafeErc20

An empty or short answer to allowance() was decoded as a number, so
safe_increase_allowance overwrote an allowance it could not read.
---
 contracts/src/token/erc20/utils/safe_erc20.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/src/token/erc20/utils/safe_erc20.rs b/contracts/src/token/erc20/utils/safe_erc20.rs
index 2d493c1..c232061 100644
--- a/contracts/src/token/erc20/utils/safe_erc20.rs
+++ b/contracts/src/token/erc20/utils/safe_erc20.rs
@@ -384,6 +384,11 @@ impl SafeErc20 {
                 })?
         };
 
+        // A token that does not return a full word did not report an allowance.
+        if result.len() != U256::BYTES {
+            return Err(SafeErc20FailedOperation { token }.into());
+        }
+
         Ok(U256::from_be_slice(&result))
     }
 
-- 
2.43.0


From e36353adf3da2b4fd7b9775816ec111578ace9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 03/10] fix: keep consecutive token ids within 96 bits

A batch running past U96::MAX wrapped its last id around, and once the last
id was U96::MAX the wrapped next id made burns of batch tokens unrecorded, so
burned tokens came back.
---
 .../src/token/erc721/extensions/consecutive.rs      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/contracts/src/token/erc721/extensions/consecutive.rs b/contracts/src/token/erc721/extensions/consecutive.rs
index 03d1a02..351d820 100644
--- a/contracts/src/token/erc721/extensions/consecutive.rs
+++ b/contracts/src/token/erc721/extensions/consecutive.rs
@@ -316,6 +316,10 @@ impl Erc721Consecutive {
     /// # Events
     ///
     /// * [`ConsecutiveTransfer`].
+    ///
+    /// # Panics
+    ///
+    /// * If the last token id of the batch exceeds `U96::MAX`.
     pub fn _mint_consecutive(
         &mut self,
         to: Address,
@@ -341,7 +345,9 @@ impl Erc721Consecutive {
             }
 
             // Push an ownership checkpoint & emit event.
-            let last = next + batch_size - uint!(1_U96);
+            let last = next
+                .checked_add(batch_size - uint!(1_U96))
+                .expect("should not exceed `U96::MAX` for token id");
             self.sequential_ownership.push(last, to.into())?;
 
             // The invariant required by this function is preserved because the
@@ -394,7 +400,10 @@ impl Erc721Consecutive {
         // if we burn
         if to.is_zero()
             // and the token_id was minted in a batch
-            && token_id < U256::from(self._next_consecutive_id())
+            && self
+                .sequential_ownership
+                .latest_checkpoint()
+                .is_some_and(|(last_id, _)| token_id <= U256::from(last_id))
             // and the token was never marked as burnt
             && !self.sequential_burn.get(token_id)
         {
-- 
2.43.0


From 51d3f91026bb8b6b003344217cec464459115ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:15 +0000
Subject: [PATCH 04/10] fix: refuse batch mints whose values overflow the
 overall supply

The sum of the minted values wrapped around silently, so total_supply_all no
longer equalled the sum over the token ids.
---
 contracts/src/token/erc1155/extensions/supply.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc1155/extensions/supply.rs b/contracts/src/token/erc1155/extensions/supply.rs
index f0323f5..d8e161b 100644
--- a/contracts/src/token/erc1155/extensions/supply.rs
+++ b/contracts/src/token/erc1155/extensions/supply.rs
@@ -257,7 +257,10 @@ impl Erc1155Supply {
                 );
             }
 
-            let total_mint_value = values.iter().sum();
+            let total_mint_value = values
+                .iter()
+                .try_fold(U256::ZERO, |sum, &value| sum.checked_add(value))
+                .expect("should not exceed `U256::MAX` for `total_supply_all`");
             self.total_supply_all.add_assign_checked(
                 total_mint_value,
                 "should not exceed `U256::MAX` for `total_supply_all`",
-- 
2.43.0


From e4c478ec7ce3d4817ecce36ab0a83a5609275065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:29 +0000
Subject: [PATCH 05/10] fix: fail instead of wrapping when less is vested than
 released

---
 contracts/src/finance/vesting_wallet.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/contracts/src/finance/vesting_wallet.rs b/contracts/src/finance/vesting_wallet.rs
index 9379e92..54a3c75 100644
--- a/contracts/src/finance/vesting_wallet.rs
+++ b/contracts/src/finance/vesting_wallet.rs
@@ -403,9 +403,11 @@ impl IVestingWallet for VestingWallet {
         token: Address,
     ) -> Result<U256, Self::Error> {
         let vested = self.vested_amount_erc20(token, block::timestamp())?;
-        // SAFETY: total vested amount is by definition greater than or equal to
-        // the released amount.
-        Ok(vested - self.released_erc20(token))
+        // The vested amount falls below the released one if the token reduces
+        // the wallet's balance (e.g. a rebasing token).
+        Ok(vested
+            .checked_sub(self.released_erc20(token))
+            .expect("released amount should not exceed vested amount"))
     }
 
     #[selector(name = "release")]
-- 
2.43.0


From 0c5bf13b3dcb8b117f12f385e0718ec37bfd5c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:59 +0000
Subject: [PATCH 06/10] fix: drop cached storage around SafeErc20 calls

The calls only flushed the storage cache. When the token calls back into the
contract, values cached before the call were used again after it and the
effects of the inner call were overwritten.
---
 contracts/src/token/erc20/utils/safe_erc20.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/src/token/erc20/utils/safe_erc20.rs b/contracts/src/token/erc20/utils/safe_erc20.rs
index c232061..4a65f3d 100644
--- a/contracts/src/token/erc20/utils/safe_erc20.rs
+++ b/contracts/src/token/erc20/utils/safe_erc20.rs
@@ -341,7 +341,7 @@ impl SafeErc20 {
         unsafe {
             match RawCall::new()
                 .limit_return_data(0, BOOL_TYPE_SIZE)
-                .flush_storage_cache()
+                .clear_storage_cache()
                 .call(token, &call.abi_encode())
             {
                 Ok(data) if data.is_empty() || Self::encodes_true(&data) => {
@@ -375,7 +375,7 @@ impl SafeErc20 {
         let result = unsafe {
             RawCall::new()
                 .limit_return_data(0, BOOL_TYPE_SIZE)
-                .flush_storage_cache()
+                .clear_storage_cache()
                 .call(token, &call.abi_encode())
                 .map_err(|_| {
                     Error::SafeErc20FailedOperation(SafeErc20FailedOperation {
-- 
2.43.0


From 6fb4dcf6e42df069f4d4246a34fb1f7daf7233b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:59 +0000
Subject: [PATCH 07/10] fix: remainder of a zero WideUint

Zero has no bits, so the bit index underflowed: a panic with overflow checks,
an endless loop without.
---
 lib/crypto/src/arithmetic/uint.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/crypto/src/arithmetic/uint.rs b/lib/crypto/src/arithmetic/uint.rs
index afe6984..d5fee84 100644
--- a/lib/crypto/src/arithmetic/uint.rs
+++ b/lib/crypto/src/arithmetic/uint.rs
@@ -839,8 +839,14 @@ impl<const N: usize> WideUint<N> {
 
         let mut remainder = Uint::<N>::ZERO;
 
+        // Zero has no bits to process.
+        let num_bits = self.ct_num_bits();
+        if num_bits == 0 {
+            return remainder;
+        }
+
         // Start with the last bit.
-        let mut index = self.ct_num_bits() - 1;
+        let mut index = num_bits - 1;
         loop {
             // Shift the remainder to the left by 1,
             let (result, carry) = remainder.ct_checked_mul2();
-- 
2.43.0


From fa6b5b7abe299adfc7ed894657838e0d34f1c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:59 +0000
Subject: [PATCH 08/10] fix: MODULUS_BIT_SIZE is the size of the modulus

It was the size of the integer type that holds the modulus.
---
 lib/crypto/src/field/fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/src/field/fp.rs b/lib/crypto/src/field/fp.rs
index 1332a9d..246ea87 100644
--- a/lib/crypto/src/field/fp.rs
+++ b/lib/crypto/src/field/fp.rs
@@ -555,7 +555,7 @@ impl<P: FpParams<N>, const N: usize> PrimeField for Fp<P, N> {
     type BigInt = Uint<N>;
 
     const MODULUS: Self::BigInt = P::MODULUS;
-    const MODULUS_BIT_SIZE: usize = <Uint<N> as BigInteger>::BITS;
+    const MODULUS_BIT_SIZE: usize = P::MODULUS.ct_num_bits();
 
     #[inline]
     fn from_bigint(repr: Self::BigInt) -> Self {
-- 
2.43.0


From 07d735ea1eec4078f7df9bad108a0564bef932a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:30 +0000
Subject: [PATCH 09/10] fix: make Erc721Wrapper::_recover callable from
 contracts

The function is documented as one that contracts can expose, but it was
private to the module, so underlying tokens that reached the wrapper by a
plain transfer could not be recovered.
---
 contracts/src/token/erc721/extensions/wrapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/src/token/erc721/extensions/wrapper.rs b/contracts/src/token/erc721/extensions/wrapper.rs
index 5ba15e6..5ecd55f 100644
--- a/contracts/src/token/erc721/extensions/wrapper.rs
+++ b/contracts/src/token/erc721/extensions/wrapper.rs
@@ -263,7 +263,7 @@ impl Erc721Wrapper {
     /// * [`Error::Erc721IncorrectOwner`] - If the underlying token is not owned
     ///   by the contract.
     /// * [`Error::Erc721`] - If an error occurs during [`Erc721::_safe_mint`].
-    fn _recover(
+    pub fn _recover(
         &mut self,
         account: Address,
         token_id: U256,
-- 
2.43.0


From 8dc2b9e962d245cd99234d44d2642a3c9b4a5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:24 +0000
Subject: [PATCH 10/10] fix: report the underlying token when a wrapper cannot
 read its balance

Erc20Wrapper::_recover answered ERC20InvalidUnderlying with the wrapper's own
address; the error is documented to carry the invalid underlying token.
---
 contracts/src/token/erc20/extensions/wrapper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/src/token/erc20/extensions/wrapper.rs b/contracts/src/token/erc20/extensions/wrapper.rs
index fc4a062..4ea5ef8 100644
--- a/contracts/src/token/erc20/extensions/wrapper.rs
+++ b/contracts/src/token/erc20/extensions/wrapper.rs
@@ -314,11 +314,12 @@ impl Erc20Wrapper {
     ) -> Result<U256, Error> {
         let contract_address = contract::address();
 
-        let underline_token = Erc20Interface::new(self.underlying());
+        let underlying = self.underlying();
+        let underline_token = Erc20Interface::new(underlying);
 
         let underlying_balance = underline_token
             .balance_of(Call::new_in(self), contract_address)
-            .map_err(|_| ERC20InvalidUnderlying { token: contract_address })?;
+            .map_err(|_| ERC20InvalidUnderlying { token: underlying })?;
 
         let value = underlying_balance
             .checked_sub(erc20.total_supply())
-- 
2.43.0

