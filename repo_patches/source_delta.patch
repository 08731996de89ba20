From f7d6f3edc09aff43639b733c26872852b635d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 01/25] fix: modexp with a huge base length runs out of gas
 instead of crashing

U256(96) + base_length raised OverflowError, which is not an Ethereum
exception and so aborted the whole block, for base lengths above
2**256 - 97.
---
 src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py  | 3 ++-
 src/ethereum/berlin/vm/precompiled_contracts/modexp.py         | 3 ++-
 src/ethereum/byzantium/vm/precompiled_contracts/modexp.py      | 3 ++-
 src/ethereum/cancun/vm/precompiled_contracts/modexp.py         | 3 ++-
 src/ethereum/constantinople/vm/precompiled_contracts/modexp.py | 3 ++-
 src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py   | 3 ++-
 src/ethereum/istanbul/vm/precompiled_contracts/modexp.py       | 3 ++-
 src/ethereum/london/vm/precompiled_contracts/modexp.py         | 3 ++-
 src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py   | 3 ++-
 src/ethereum/paris/vm/precompiled_contracts/modexp.py          | 3 ++-
 src/ethereum/prague/vm/precompiled_contracts/modexp.py         | 3 ++-
 src/ethereum/shanghai/vm/precompiled_contracts/modexp.py       | 3 ++-
 12 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
index 790d2fd..4a25e97 100644
--- a/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/berlin/vm/precompiled_contracts/modexp.py b/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
index 790d2fd..4a25e97 100644
--- a/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py b/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
index c5956d4..5bd468c 100644
--- a/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/cancun/vm/precompiled_contracts/modexp.py b/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
index 790d2fd..4a25e97 100644
--- a/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py b/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
index c5956d4..5bd468c 100644
--- a/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
index 790d2fd..4a25e97 100644
--- a/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py b/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
index c5956d4..5bd468c 100644
--- a/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/london/vm/precompiled_contracts/modexp.py b/src/ethereum/london/vm/precompiled_contracts/modexp.py
index 790d2fd..4a25e97 100644
--- a/src/ethereum/london/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/london/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
index c5956d4..5bd468c 100644
--- a/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/paris/vm/precompiled_contracts/modexp.py b/src/ethereum/paris/vm/precompiled_contracts/modexp.py
index 790d2fd..4a25e97 100644
--- a/src/ethereum/paris/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/paris/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/prague/vm/precompiled_contracts/modexp.py b/src/ethereum/prague/vm/precompiled_contracts/modexp.py
index 790d2fd..4a25e97 100644
--- a/src/ethereum/prague/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/prague/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py b/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
index 790d2fd..4a25e97 100644
--- a/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    # Saturates, so that an absurd base length only runs out of gas.
+    exp_start = U256(min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE)))
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
-- 
2.43.0


From 3bcf662f7b794e1f380020c7a86bc78302d9e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 02/25] fix: reject typed transactions signed for another chain

recover_sender compared the chain id only for EIP-155 signatures; a typed
transaction carries its chain id as a field, which was never compared with
the chain id of the block, so it could be replayed from another chain.
---
 src/ethereum/arrow_glacier/transactions.py | 3 +++
 src/ethereum/berlin/transactions.py        | 3 +++
 src/ethereum/cancun/transactions.py        | 3 +++
 src/ethereum/gray_glacier/transactions.py  | 3 +++
 src/ethereum/london/transactions.py        | 3 +++
 src/ethereum/osaka/transactions.py         | 3 +++
 src/ethereum/paris/transactions.py         | 3 +++
 src/ethereum/prague/transactions.py        | 3 +++
 src/ethereum/shanghai/transactions.py      | 3 +++
 9 files changed, 27 insertions(+)

diff --git a/src/ethereum/arrow_glacier/transactions.py b/src/ethereum/arrow_glacier/transactions.py
index 751ed8f..3b0c34b 100644
--- a/src/ethereum/arrow_glacier/transactions.py
+++ b/src/ethereum/arrow_glacier/transactions.py
@@ -421,6 +421,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/berlin/transactions.py b/src/ethereum/berlin/transactions.py
index 4832858..cb003c0 100644
--- a/src/ethereum/berlin/transactions.py
+++ b/src/ethereum/berlin/transactions.py
@@ -338,6 +338,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/cancun/transactions.py b/src/ethereum/cancun/transactions.py
index 98a82bd..98bb52b 100644
--- a/src/ethereum/cancun/transactions.py
+++ b/src/ethereum/cancun/transactions.py
@@ -534,6 +534,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/gray_glacier/transactions.py b/src/ethereum/gray_glacier/transactions.py
index 751ed8f..3b0c34b 100644
--- a/src/ethereum/gray_glacier/transactions.py
+++ b/src/ethereum/gray_glacier/transactions.py
@@ -421,6 +421,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/london/transactions.py b/src/ethereum/london/transactions.py
index 751ed8f..3b0c34b 100644
--- a/src/ethereum/london/transactions.py
+++ b/src/ethereum/london/transactions.py
@@ -421,6 +421,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/osaka/transactions.py b/src/ethereum/osaka/transactions.py
index 90b1dee..1da03f8 100644
--- a/src/ethereum/osaka/transactions.py
+++ b/src/ethereum/osaka/transactions.py
@@ -666,6 +666,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/paris/transactions.py b/src/ethereum/paris/transactions.py
index 751ed8f..3b0c34b 100644
--- a/src/ethereum/paris/transactions.py
+++ b/src/ethereum/paris/transactions.py
@@ -421,6 +421,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/prague/transactions.py b/src/ethereum/prague/transactions.py
index b4023f1..958c4c0 100644
--- a/src/ethereum/prague/transactions.py
+++ b/src/ethereum/prague/transactions.py
@@ -658,6 +658,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/shanghai/transactions.py b/src/ethereum/shanghai/transactions.py
index 1dff83b..0ab09fa 100644
--- a/src/ethereum/shanghai/transactions.py
+++ b/src/ethereum/shanghai/transactions.py
@@ -433,6 +433,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
-- 
2.43.0


From 781ec1fa28161dff310bf3b359743d00fbe3596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:37 +0000
Subject: [PATCH 03/25] fix: share the Account class between forks

After apply_fork the state still holds the Account objects of the previous
fork. Each fork compared them against an Account class of its own, so
get_account returned an empty account for every existing address and
state_root failed.
---
 src/ethereum/arrow_glacier/fork_types.py     | 28 ++++----------------
 src/ethereum/berlin/fork_types.py            | 28 ++++----------------
 src/ethereum/byzantium/fork_types.py         | 28 ++++----------------
 src/ethereum/cancun/fork_types.py            | 28 ++++----------------
 src/ethereum/constantinople/fork_types.py    | 28 ++++----------------
 src/ethereum/dao_fork/fork_types.py          | 28 ++++----------------
 src/ethereum/gray_glacier/fork_types.py      | 28 ++++----------------
 src/ethereum/homestead/fork_types.py         | 28 ++++----------------
 src/ethereum/istanbul/fork_types.py          | 28 ++++----------------
 src/ethereum/london/fork_types.py            | 28 ++++----------------
 src/ethereum/muir_glacier/fork_types.py      | 28 ++++----------------
 src/ethereum/osaka/fork_types.py             | 26 +++++-------------
 src/ethereum/paris/fork_types.py             | 28 ++++----------------
 src/ethereum/prague/fork_types.py            | 26 +++++-------------
 src/ethereum/shanghai/fork_types.py          | 28 ++++----------------
 src/ethereum/spurious_dragon/fork_types.py   | 28 ++++----------------
 src/ethereum/tangerine_whistle/fork_types.py | 28 ++++----------------
 17 files changed, 87 insertions(+), 385 deletions(-)

diff --git a/src/ethereum/arrow_glacier/fork_types.py b/src/ethereum/arrow_glacier/fork_types.py
index 9ec9373..5ace428 100644
--- a/src/ethereum/arrow_glacier/fork_types.py
+++ b/src/ethereum/arrow_glacier/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.london.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/berlin/fork_types.py b/src/ethereum/berlin/fork_types.py
index 9ec9373..f4b4cbd 100644
--- a/src/ethereum/berlin/fork_types.py
+++ b/src/ethereum/berlin/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.muir_glacier.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/byzantium/fork_types.py b/src/ethereum/byzantium/fork_types.py
index d2b8b2c..c486065 100644
--- a/src/ethereum/byzantium/fork_types.py
+++ b/src/ethereum/byzantium/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.spurious_dragon.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -26,25 +27,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/cancun/fork_types.py b/src/ethereum/cancun/fork_types.py
index ca107e4..da584b4 100644
--- a/src/ethereum/cancun/fork_types.py
+++ b/src/ethereum/cancun/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.shanghai.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -28,25 +29,6 @@ VersionedHash = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/constantinople/fork_types.py b/src/ethereum/constantinople/fork_types.py
index 9ec9373..535338c 100644
--- a/src/ethereum/constantinople/fork_types.py
+++ b/src/ethereum/constantinople/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.byzantium.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/dao_fork/fork_types.py b/src/ethereum/dao_fork/fork_types.py
index 9ec9373..1445a15 100644
--- a/src/ethereum/dao_fork/fork_types.py
+++ b/src/ethereum/dao_fork/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.homestead.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/gray_glacier/fork_types.py b/src/ethereum/gray_glacier/fork_types.py
index 9ec9373..8d646ae 100644
--- a/src/ethereum/gray_glacier/fork_types.py
+++ b/src/ethereum/gray_glacier/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.arrow_glacier.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/homestead/fork_types.py b/src/ethereum/homestead/fork_types.py
index 9ec9373..02960b9 100644
--- a/src/ethereum/homestead/fork_types.py
+++ b/src/ethereum/homestead/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.frontier.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/istanbul/fork_types.py b/src/ethereum/istanbul/fork_types.py
index 9ec9373..b2e29ae 100644
--- a/src/ethereum/istanbul/fork_types.py
+++ b/src/ethereum/istanbul/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.constantinople.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/london/fork_types.py b/src/ethereum/london/fork_types.py
index 9ec9373..966b197 100644
--- a/src/ethereum/london/fork_types.py
+++ b/src/ethereum/london/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.berlin.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/muir_glacier/fork_types.py b/src/ethereum/muir_glacier/fork_types.py
index 9ec9373..8f238e8 100644
--- a/src/ethereum/muir_glacier/fork_types.py
+++ b/src/ethereum/muir_glacier/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.istanbul.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/osaka/fork_types.py b/src/ethereum/osaka/fork_types.py
index 56fa281..8617094 100644
--- a/src/ethereum/osaka/fork_types.py
+++ b/src/ethereum/osaka/fork_types.py
@@ -17,7 +17,12 @@ from dataclasses import dataclass
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
 from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U8, U64, U256, Uint
+from ethereum_types.numeric import U8, U64, U256
+
+from ethereum.prague.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -28,25 +33,6 @@ VersionedHash = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/paris/fork_types.py b/src/ethereum/paris/fork_types.py
index 9ec9373..08a9fa7 100644
--- a/src/ethereum/paris/fork_types.py
+++ b/src/ethereum/paris/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.gray_glacier.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/prague/fork_types.py b/src/ethereum/prague/fork_types.py
index 56fa281..ad272d1 100644
--- a/src/ethereum/prague/fork_types.py
+++ b/src/ethereum/prague/fork_types.py
@@ -17,7 +17,12 @@ from dataclasses import dataclass
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
 from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U8, U64, U256, Uint
+from ethereum_types.numeric import U8, U64, U256
+
+from ethereum.cancun.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -28,25 +33,6 @@ VersionedHash = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/shanghai/fork_types.py b/src/ethereum/shanghai/fork_types.py
index 9ec9373..90c0f45 100644
--- a/src/ethereum/shanghai/fork_types.py
+++ b/src/ethereum/shanghai/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.paris.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/spurious_dragon/fork_types.py b/src/ethereum/spurious_dragon/fork_types.py
index 9ec9373..c709779 100644
--- a/src/ethereum/spurious_dragon/fork_types.py
+++ b/src/ethereum/spurious_dragon/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.tangerine_whistle.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
diff --git a/src/ethereum/tangerine_whistle/fork_types.py b/src/ethereum/tangerine_whistle/fork_types.py
index 9ec9373..d3979c5 100644
--- a/src/ethereum/tangerine_whistle/fork_types.py
+++ b/src/ethereum/tangerine_whistle/fork_types.py
@@ -12,12 +12,13 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
-from ethereum_types.numeric import U256, Uint
+
+from ethereum.dao_fork.fork_types import (  # noqa: F401
+    EMPTY_ACCOUNT,
+    Account,
+)
 
 from ..crypto.hash import Hash32, keccak256
 
@@ -27,25 +28,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
-EMPTY_ACCOUNT = Account(
-    nonce=Uint(0),
-    balance=U256(0),
-    code=b"",
-)
-
-
 def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
     """
     Encode `Account` dataclass.
-- 
2.43.0


From 057c8f4a19e0a1e7320c26c3b489814f173617bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:37 +0000
Subject: [PATCH 04/25] fix: track created accounts in states that come from
 before Istanbul

---
 src/ethereum/istanbul/fork.py     | 2 ++
 src/ethereum/muir_glacier/fork.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ethereum/istanbul/fork.py b/src/ethereum/istanbul/fork.py
index 404ff57..dc61a21 100644
--- a/src/ethereum/istanbul/fork.py
+++ b/src/ethereum/istanbul/fork.py
@@ -92,6 +92,8 @@ def apply_fork(old: BlockChain) -> BlockChain:
     new : `BlockChain`
         Upgraded block chain object for this hard fork.
     """
+    # States of earlier forks do not track created accounts.
+    old.state.created_accounts = set()
     return old
 
 
diff --git a/src/ethereum/muir_glacier/fork.py b/src/ethereum/muir_glacier/fork.py
index 39e6e1f..a39d042 100644
--- a/src/ethereum/muir_glacier/fork.py
+++ b/src/ethereum/muir_glacier/fork.py
@@ -92,6 +92,8 @@ def apply_fork(old: BlockChain) -> BlockChain:
     new : `BlockChain`
         Upgraded block chain object for this hard fork.
     """
+    # States of earlier forks do not track created accounts.
+    old.state.created_accounts = set()
     return old
 
 
-- 
2.43.0


From c7d09d51180bab7399eb0bfe66e75cbeb0ea25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:03 +0000
Subject: [PATCH 05/25] fix: difficulty bomb of Frontier added an int to a Uint
 and crashed

---
 src/ethereum/frontier/fork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum/frontier/fork.py b/src/ethereum/frontier/fork.py
index 95407d2..78a539c 100644
--- a/src/ethereum/frontier/fork.py
+++ b/src/ethereum/frontier/fork.py
@@ -768,7 +768,7 @@ def calculate_block_difficulty(
     # See https://github.com/ethereum/go-ethereum/pull/1588
     num_bomb_periods = (int(block_number) // 100000) - 2
     if num_bomb_periods >= 0:
-        difficulty += 2**num_bomb_periods
+        difficulty += Uint(2**num_bomb_periods)
 
     # Some clients raise the difficulty to `MINIMUM_DIFFICULTY` prior to adding
     # the bomb. This bug does not matter because the difficulty is always much
-- 
2.43.0


From bca4a7f87af3925df90b1582bd0c2aae1b50140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:03 +0000
Subject: [PATCH 06/25] fix: accept only blocks that follow the head of the
 chain

Before Paris the parent was looked up by number, so a second block with
the number of the head was executed on top of the head's state.
---
 src/ethereum/arrow_glacier/fork.py     | 2 ++
 src/ethereum/berlin/fork.py            | 2 ++
 src/ethereum/byzantium/fork.py         | 2 ++
 src/ethereum/constantinople/fork.py    | 2 ++
 src/ethereum/dao_fork/fork.py          | 2 ++
 src/ethereum/frontier/fork.py          | 2 ++
 src/ethereum/gray_glacier/fork.py      | 2 ++
 src/ethereum/homestead/fork.py         | 2 ++
 src/ethereum/istanbul/fork.py          | 2 ++
 src/ethereum/london/fork.py            | 2 ++
 src/ethereum/muir_glacier/fork.py      | 2 ++
 src/ethereum/spurious_dragon/fork.py   | 2 ++
 src/ethereum/tangerine_whistle/fork.py | 2 ++
 13 files changed, 26 insertions(+)

diff --git a/src/ethereum/arrow_glacier/fork.py b/src/ethereum/arrow_glacier/fork.py
index ef4669a..88abf38 100644
--- a/src/ethereum/arrow_glacier/fork.py
+++ b/src/ethereum/arrow_glacier/fork.py
@@ -171,6 +171,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/berlin/fork.py b/src/ethereum/berlin/fork.py
index a2b59a5..4927852 100644
--- a/src/ethereum/berlin/fork.py
+++ b/src/ethereum/berlin/fork.py
@@ -163,6 +163,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/byzantium/fork.py b/src/ethereum/byzantium/fork.py
index 71b6ff1..fa81eb0 100644
--- a/src/ethereum/byzantium/fork.py
+++ b/src/ethereum/byzantium/fork.py
@@ -158,6 +158,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/constantinople/fork.py b/src/ethereum/constantinople/fork.py
index 404ff57..28eba34 100644
--- a/src/ethereum/constantinople/fork.py
+++ b/src/ethereum/constantinople/fork.py
@@ -158,6 +158,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/dao_fork/fork.py b/src/ethereum/dao_fork/fork.py
index 4b8fcf8..8a5c045 100644
--- a/src/ethereum/dao_fork/fork.py
+++ b/src/ethereum/dao_fork/fork.py
@@ -165,6 +165,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/frontier/fork.py b/src/ethereum/frontier/fork.py
index 78a539c..4e1d621 100644
--- a/src/ethereum/frontier/fork.py
+++ b/src/ethereum/frontier/fork.py
@@ -155,6 +155,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/gray_glacier/fork.py b/src/ethereum/gray_glacier/fork.py
index 479d457..b1c05f3 100644
--- a/src/ethereum/gray_glacier/fork.py
+++ b/src/ethereum/gray_glacier/fork.py
@@ -171,6 +171,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/homestead/fork.py b/src/ethereum/homestead/fork.py
index 088e418..b974017 100644
--- a/src/ethereum/homestead/fork.py
+++ b/src/ethereum/homestead/fork.py
@@ -155,6 +155,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/istanbul/fork.py b/src/ethereum/istanbul/fork.py
index dc61a21..39a6795 100644
--- a/src/ethereum/istanbul/fork.py
+++ b/src/ethereum/istanbul/fork.py
@@ -160,6 +160,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/london/fork.py b/src/ethereum/london/fork.py
index 0d2c06f..288d505 100644
--- a/src/ethereum/london/fork.py
+++ b/src/ethereum/london/fork.py
@@ -172,6 +172,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/muir_glacier/fork.py b/src/ethereum/muir_glacier/fork.py
index a39d042..8f66a2e 100644
--- a/src/ethereum/muir_glacier/fork.py
+++ b/src/ethereum/muir_glacier/fork.py
@@ -160,6 +160,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/spurious_dragon/fork.py b/src/ethereum/spurious_dragon/fork.py
index e3652c9..0c5b028 100644
--- a/src/ethereum/spurious_dragon/fork.py
+++ b/src/ethereum/spurious_dragon/fork.py
@@ -156,6 +156,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/tangerine_whistle/fork.py b/src/ethereum/tangerine_whistle/fork.py
index 2489eb6..6b5eebd 100644
--- a/src/ethereum/tangerine_whistle/fork.py
+++ b/src/ethereum/tangerine_whistle/fork.py
@@ -154,6 +154,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
-- 
2.43.0


From 6c3851df4337cf1e5033203f6c3098b21fe76726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:03 +0000
Subject: [PATCH 07/25] fix: excess blob gas of the first block of Prague and
 Osaka

The parent of that block is a header of the previous fork, which has the
blob gas fields already.
---
 src/ethereum/osaka/vm/gas.py  | 6 +++---
 src/ethereum/prague/vm/gas.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ethereum/osaka/vm/gas.py b/src/ethereum/osaka/vm/gas.py
index deb0371..e36fe82 100644
--- a/src/ethereum/osaka/vm/gas.py
+++ b/src/ethereum/osaka/vm/gas.py
@@ -16,6 +16,7 @@ from typing import List, Tuple
 
 from ethereum_types.numeric import U64, U256, Uint
 
+from ethereum.prague.blocks import Header as PreviousHeader
 from ethereum.trace import GasAndRefund, evm_trace
 from ethereum.utils.numeric import ceil32, taylor_exponential
 
@@ -296,13 +297,12 @@ def calculate_excess_blob_gas(parent_header: Header) -> U64:
     excess_blob_gas: `ethereum.base_types.U64`
         The excess blob gas for the current block.
     """
-    # At the fork block, these are defined as zero.
     excess_blob_gas = U64(0)
     blob_gas_used = U64(0)
     base_fee_per_gas = Uint(0)
 
-    if isinstance(parent_header, Header):
-        # After the fork block, read them from the parent header.
+    if isinstance(parent_header, (Header, PreviousHeader)):
+        # Also at the fork block, read them from the parent header.
         excess_blob_gas = parent_header.excess_blob_gas
         blob_gas_used = parent_header.blob_gas_used
         base_fee_per_gas = parent_header.base_fee_per_gas
diff --git a/src/ethereum/prague/vm/gas.py b/src/ethereum/prague/vm/gas.py
index 065c5b3..b6f3fa4 100644
--- a/src/ethereum/prague/vm/gas.py
+++ b/src/ethereum/prague/vm/gas.py
@@ -16,6 +16,7 @@ from typing import List, Tuple
 
 from ethereum_types.numeric import U64, U256, Uint
 
+from ethereum.cancun.blocks import Header as PreviousHeader
 from ethereum.trace import GasAndRefund, evm_trace
 from ethereum.utils.numeric import ceil32, taylor_exponential
 
@@ -292,12 +293,11 @@ def calculate_excess_blob_gas(parent_header: Header) -> U64:
     excess_blob_gas: `ethereum.base_types.U64`
         The excess blob gas for the current block.
     """
-    # At the fork block, these are defined as zero.
     excess_blob_gas = U64(0)
     blob_gas_used = U64(0)
 
-    if isinstance(parent_header, Header):
-        # After the fork block, read them from the parent header.
+    if isinstance(parent_header, (Header, PreviousHeader)):
+        # Also at the fork block, read them from the parent header.
         excess_blob_gas = parent_header.excess_blob_gas
         blob_gas_used = parent_header.blob_gas_used
 
-- 
2.43.0


From 5f8d9e7f9dab41f0b8520f2d0eee4f1bf15242d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:03 +0000
Subject: [PATCH 08/25] fix: check the gas limit of the first London block
 (EIP-1559)

---
 src/ethereum/london/fork.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ethereum/london/fork.py b/src/ethereum/london/fork.py
index 288d505..422ce5c 100644
--- a/src/ethereum/london/fork.py
+++ b/src/ethereum/london/fork.py
@@ -318,7 +318,14 @@ def validate_header(chain: BlockChain, header: Header) -> None:
         raise InvalidBlock
 
     expected_base_fee_per_gas = INITIAL_BASE_FEE
-    if header.number != FORK_CRITERIA.block_number:
+    if header.number == FORK_CRITERIA.block_number:
+        # The gas limit of the first block follows the parent's gas limit
+        # scaled to the new gas target.
+        if not check_gas_limit(
+            header.gas_limit, parent_header.gas_limit * ELASTICITY_MULTIPLIER
+        ):
+            raise InvalidBlock
+    else:
         # For every block except the first, calculate the base fee per gas
         # based on the parent block.
         expected_base_fee_per_gas = calculate_base_fee_per_gas(
-- 
2.43.0


From 6b39cafe1c78b42a85e5f6e941638c87c59aed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 09/25] fix: roll back a repeated destroy_storage in the
 optimized state

With two destroy_storage calls on one account the inner rollback dropped
the writes in between, or raised KeyError.
---
 src/ethereum_optimized/state_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum_optimized/state_db.py b/src/ethereum_optimized/state_db.py
index b0ea25f..50dbb1b 100644
--- a/src/ethereum_optimized/state_db.py
+++ b/src/ethereum_optimized/state_db.py
@@ -294,8 +294,8 @@ def get_optimized_state_patches(fork: str) -> Dict[str, Any]:
             elif type(item[1]) is dict:
                 # Restore storage that was destroyed by `destroy_storage()`
                 state.destroyed_accounts[item[0]] -= Uint(1)
+                state.dirty_storage[item[0]] = item[1]
                 if state.destroyed_accounts[item[0]] == 0:
-                    state.dirty_storage[item[0]] = item[1]
                     del state.destroyed_accounts[item[0]]
             else:
                 # Revert a change to an account
-- 
2.43.0


From 4ef5966b4599a8661a44587b563db81b32941664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 10/25] fix: pay ommer rewards in the transition tool

Ommers are given by their distance from the block and their address; the
tool read a number and a coinbase they do not have and crashed.
---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 2fad681..f3c09e9 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -218,12 +218,12 @@ class T8N(Load):
 
         for ommer in self.env.ommers:
             # Ommer age with respect to the current block.
-            ommer_age = U256(block_env.number - ommer.number)
+            ommer_age = parse_hex_or_int(ommer.delta, U256)
             ommer_miner_reward = (
                 (U256(8) - ommer_age) * block_reward
             ) // U256(8)
             self.fork.create_ether(
-                block_env.state, ommer.coinbase, ommer_miner_reward
+                block_env.state, ommer.address, ommer_miner_reward
             )
 
     def run_state_test(self) -> Any:
-- 
2.43.0


From 2b6c33f56ac7602cbd08b499684ef98bef6043e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 11/25] fix: make the system calls of the transition tool in
 the order of a block

Blocks store the beacon root before the parent hash.
---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index f3c09e9..6e22c9e 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -252,18 +252,18 @@ class T8N(Load):
         self.result.rejected = self.txs.rejected_txs
 
     def _run_blockchain_test(self, block_env: Any, block_output: Any) -> None:
-        if self.fork.is_after_fork("ethereum.prague"):
+        if self.fork.is_after_fork("ethereum.cancun"):
             self.fork.process_unchecked_system_transaction(
                 block_env=block_env,
-                target_address=self.fork.HISTORY_STORAGE_ADDRESS,
-                data=block_env.block_hashes[-1],  # The parent hash
+                target_address=self.fork.BEACON_ROOTS_ADDRESS,
+                data=block_env.parent_beacon_block_root,
             )
 
-        if self.fork.is_after_fork("ethereum.cancun"):
+        if self.fork.is_after_fork("ethereum.prague"):
             self.fork.process_unchecked_system_transaction(
                 block_env=block_env,
-                target_address=self.fork.BEACON_ROOTS_ADDRESS,
-                data=block_env.parent_beacon_block_root,
+                target_address=self.fork.HISTORY_STORAGE_ADDRESS,
+                data=block_env.block_hashes[-1],  # The parent hash
             )
 
         for i, tx in zip(self.txs.successfully_parsed, self.txs.transactions):
-- 
2.43.0


From e21a50b296c6661b58bcb073020b58762f4cc94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 12/25] fix: report the blob gas used in the transition tool

The result has a field for it, which was never filled in.
---
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index d99b778..2088cce 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -319,6 +319,9 @@ class Result:
         if hasattr(block_env, "excess_blob_gas"):
             self.excess_blob_gas = block_env.excess_blob_gas
 
+        if hasattr(block_output, "blob_gas_used"):
+            self.blob_gas_used = Uint(block_output.blob_gas_used)
+
         if hasattr(block_output, "requests"):
             self.requests = block_output.requests
             self.requests_hash = t8n.fork.compute_requests_hash(self.requests)
-- 
2.43.0


From cfe2f60273bbb0b1029143bc8a03125473b4687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 13/25] fix: encode typed transactions in the body of the
 transition tool

Transactions read from JSON were written to the body as lists, without
their type.
---
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index 2088cce..a9e09de 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -178,11 +178,12 @@ class Txs:
             self.sign_transaction(raw_tx)
 
         tx = TransactionLoad(raw_tx, t8n.fork).read()
-        self.all_txs.append(tx)
 
         if t8n.fork.is_after_fork("ethereum.berlin"):
+            self.all_txs.append(t8n.fork.encode_transaction(tx))
             transaction = t8n.fork.decode_transaction(tx)
         else:
+            self.all_txs.append(tx)
             transaction = tx
 
         return transaction
-- 
2.43.0


From cd2a59305692a9d697439d126dc8baef65d88643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 14/25] fix: use the chain id in the transition tool

Transactions read from JSON were taken to be for chain 1 whatever their
chain id, and signed for chain 1, so that those of another chain were
rejected.
---
 .../evm_tools/loaders/transaction_loader.py                   | 4 +++-
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py            | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py b/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
index 2c4e652..1486ca8 100644
--- a/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
+++ b/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
@@ -42,7 +42,9 @@ class TransactionLoad:
 
     def json_to_chain_id(self) -> U64:
         """Get chain ID for the transaction."""
-        return U64(1)
+        if "chainId" not in self.raw:
+            return U64(1)
+        return parse_hex_or_int(self.raw["chainId"], U64)
 
     def json_to_nonce(self) -> U256:
         """Get the nonce for the transaction."""
diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index a9e09de..b2c118f 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -216,9 +216,9 @@ class Txs:
             if t8n.fork.is_after_fork("ethereum.spurious_dragon"):
                 if protected:
                     signing_hash = t8n.fork.signing_hash_155(
-                        tx_decoded, U64(1)
+                        tx_decoded, t8n.chain_id
                     )
-                    v_addend = U256(37)  # Assuming chain_id = 1
+                    v_addend = U256(35) + U256(t8n.chain_id) * U256(2)
                 else:
                     signing_hash = t8n.fork.signing_hash_pre155(tx_decoded)
                     v_addend = U256(27)
-- 
2.43.0


From 6218f3077544849fddf111869197e4be29e0993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 15/25] fix: apply the DAO fork in the transition tool only at
 its block

The balances were moved in every block of the fork, where importing the
block moves them when the fork activates.
---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py  | 2 +-
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 6e22c9e..a4a93a5 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -143,8 +143,8 @@ class T8N(Load):
         )
 
         self.chain_id = parse_hex_or_int(self.options.state_chainid, U64)
-        self.alloc = Alloc(self, stdin)
         self.env = Env(self, stdin)
+        self.alloc = Alloc(self, stdin)
         self.txs = Txs(self, stdin)
         self.result = Result(
             self.env.block_difficulty, self.env.base_fee_per_gas
diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index b2c118f..0981be2 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -46,7 +46,10 @@ class Alloc:
                     data[address][key] = "0x" + hex(int(value))
 
         state = t8n.json_to_state(data)
-        if t8n.fork.fork_module == "dao_fork":
+        if (
+            t8n.fork.fork_module == "dao_fork"
+            and t8n.env.block_number == Uint(t8n.fork_block)
+        ):
             t8n.fork.apply_dao(state)
 
         self.state = state
-- 
2.43.0


From 6009220284a889864af882f1f24d5a573602dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 16/25] fix: set rejected transactions aside in the transition
 tool

A rejected transaction stayed in the transactions trie and kept its index,
so the transactions and receipts roots were not those of the block made of
the accepted transactions.
---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index a4a93a5..3a353cc 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -234,6 +234,7 @@ class T8N(Load):
         block_env = self.block_environment()
         block_output = self.fork.BlockOutput()
         self.backup_state()
+        transactions_trie = self.fork.copy_trie(block_output.transactions_trie)
         if len(self.txs.transactions) > 0:
             tx = self.txs.transactions[0]
             try:
@@ -246,6 +247,7 @@ class T8N(Load):
             except EthereumException as e:
                 self.txs.rejected_txs[0] = f"Failed transaction: {e!r}"
                 self.restore_state()
+                block_output.transactions_trie = transactions_trie
                 self.logger.warning(f"Transaction {0} failed: {str(e)}")
 
         self.result.update(self, block_env, block_output)
@@ -268,13 +270,19 @@ class T8N(Load):
 
         for i, tx in zip(self.txs.successfully_parsed, self.txs.transactions):
             self.backup_state()
+            transactions_trie = self.fork.copy_trie(
+                block_output.transactions_trie
+            )
             try:
+                # Rejected transactions do not count
+                index = Uint(len(block_output.receipt_keys))
                 self.fork.process_transaction(
-                    block_env, block_output, tx, Uint(i)
+                    block_env, block_output, tx, index
                 )
             except EthereumException as e:
                 self.txs.rejected_txs[i] = f"Failed transaction: {e!r}"
                 self.restore_state()
+                block_output.transactions_trie = transactions_trie
                 self.logger.warning(f"Transaction {i} failed: {e!r}")
 
         if not self.fork.is_after_fork("ethereum.paris"):
-- 
2.43.0


From bff91f9c96f9231f41f0d129be133bbb78a16c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 17/25] fix: uninstall the tracers of the transition tool after
 its run

---
 .../evm_tools/t8n/__init__.py                 | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 3a353cc..03cab11 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -6,7 +6,8 @@ import argparse
 import fnmatch
 import json
 import os
-from typing import Any, Final, TextIO, Type, TypeVar
+from contextlib import contextmanager
+from typing import Any, Final, Iterator, TextIO, Type, TypeVar
 
 from ethereum_rlp import rlp
 from ethereum_types.numeric import U64, U256, Uint
@@ -128,7 +129,6 @@ class T8N(Load):
 
         maybe_tracers: GroupTracer | None
         if tracers.tracers:
-            trace.set_evm_trace(tracers)
             maybe_tracers = tracers
         else:
             maybe_tracers = None
@@ -159,6 +159,19 @@ class T8N(Load):
             raise Exception(f"no tracer of type `{type_}` found")
         return found
 
+    @contextmanager
+    def _tracing(self) -> Iterator[None]:
+        """Install the configured tracers, if any, while executing."""
+        if self.tracers is None:
+            yield
+            return
+
+        previous = trace.set_evm_trace(self.tracers)
+        try:
+            yield
+        finally:
+            trace.set_evm_trace(previous)
+
     def block_environment(self) -> Any:
         """
         Create the environment for the transaction. The keyword
@@ -238,12 +251,13 @@ class T8N(Load):
         if len(self.txs.transactions) > 0:
             tx = self.txs.transactions[0]
             try:
-                self.fork.process_transaction(
-                    block_env=block_env,
-                    block_output=block_output,
-                    tx=tx,
-                    index=Uint(0),
-                )
+                with self._tracing():
+                    self.fork.process_transaction(
+                        block_env=block_env,
+                        block_output=block_output,
+                        tx=tx,
+                        index=Uint(0),
+                    )
             except EthereumException as e:
                 self.txs.rejected_txs[0] = f"Failed transaction: {e!r}"
                 self.restore_state()
@@ -309,7 +323,8 @@ class T8N(Load):
         block_output = self.fork.BlockOutput()
 
         try:
-            self._run_blockchain_test(block_env, block_output)
+            with self._tracing():
+                self._run_blockchain_test(block_env, block_output)
         except InvalidBlock as e:
             self.result.block_exception = f"{e}"
 
-- 
2.43.0


From 7d611ca0310ecc14ec7fc657811bd3d22f5be29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 18/25] fix: build blocks without ommers when b11r is given
 none

---
 src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py b/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
index b8b99b4..a1cb48b 100644
--- a/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
+++ b/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
@@ -51,6 +51,8 @@ class Body:
                 ommers_data = stdin["ommers"]
             except KeyError:
                 ommers_data = stdin["uncles"]
+        elif options.input_ommers is None:
+            ommers_data = []
         else:
             with open(options.input_ommers) as f:
                 ommers_data = json.load(f)
-- 
2.43.0


From 5a959b2d899f5c5b77c6acf885ae0e5eb5e3e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 19/25] fix: read hexadecimal nonces and missing balances in
 genesis allocations

---
 src/ethereum/genesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ethereum/genesis.py b/src/ethereum/genesis.py
index 564d639..114fc56 100644
--- a/src/ethereum/genesis.py
+++ b/src/ethereum/genesis.py
@@ -208,8 +208,8 @@ def add_genesis_block(
             chain.state,
             address,
             hardfork.Account(
-                Uint(int(account.get("nonce", "0"))),
-                hex_or_base_10_str_to_u256(account.get("balance", 0)),
+                Uint(hex_or_base_10_str_to_u256(account.get("nonce", "0"))),
+                hex_or_base_10_str_to_u256(account.get("balance", "0")),
                 hex_to_bytes(account.get("code", "0x")),
             ),
         )
-- 
2.43.0


From 730839f7cb2489150b60b7c0193c2346479cb41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 20/25] fix: reject an empty transaction as invalid instead of
 failing with IndexError

---
 src/ethereum/arrow_glacier/transactions.py | 5 ++++-
 src/ethereum/berlin/transactions.py        | 3 +++
 src/ethereum/cancun/transactions.py        | 5 ++++-
 src/ethereum/gray_glacier/transactions.py  | 5 ++++-
 src/ethereum/london/transactions.py        | 5 ++++-
 src/ethereum/osaka/transactions.py         | 5 ++++-
 src/ethereum/paris/transactions.py         | 5 ++++-
 src/ethereum/prague/transactions.py        | 5 ++++-
 src/ethereum/shanghai/transactions.py      | 5 ++++-
 9 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/ethereum/arrow_glacier/transactions.py b/src/ethereum/arrow_glacier/transactions.py
index 3b0c34b..5615374 100644
--- a/src/ethereum/arrow_glacier/transactions.py
+++ b/src/ethereum/arrow_glacier/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,7 +315,9 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
-        if tx[0] == 1:
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
+        elif tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
             return rlp.decode_to(FeeMarketTransaction, tx[1:])
diff --git a/src/ethereum/berlin/transactions.py b/src/ethereum/berlin/transactions.py
index cb003c0..a8b77c7 100644
--- a/src/ethereum/berlin/transactions.py
+++ b/src/ethereum/berlin/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -234,6 +235,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] != 1:
             raise TransactionTypeError(tx[0])
         return rlp.decode_to(AccessListTransaction, tx[1:])
diff --git a/src/ethereum/cancun/transactions.py b/src/ethereum/cancun/transactions.py
index 98bb52b..172fc80 100644
--- a/src/ethereum/cancun/transactions.py
+++ b/src/ethereum/cancun/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -411,7 +412,9 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
-        if tx[0] == 1:
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
+        elif tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
             return rlp.decode_to(FeeMarketTransaction, tx[1:])
diff --git a/src/ethereum/gray_glacier/transactions.py b/src/ethereum/gray_glacier/transactions.py
index 3b0c34b..5615374 100644
--- a/src/ethereum/gray_glacier/transactions.py
+++ b/src/ethereum/gray_glacier/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,7 +315,9 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
-        if tx[0] == 1:
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
+        elif tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
             return rlp.decode_to(FeeMarketTransaction, tx[1:])
diff --git a/src/ethereum/london/transactions.py b/src/ethereum/london/transactions.py
index 3b0c34b..5615374 100644
--- a/src/ethereum/london/transactions.py
+++ b/src/ethereum/london/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,7 +315,9 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
-        if tx[0] == 1:
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
+        elif tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
             return rlp.decode_to(FeeMarketTransaction, tx[1:])
diff --git a/src/ethereum/osaka/transactions.py b/src/ethereum/osaka/transactions.py
index 1da03f8..25f6980 100644
--- a/src/ethereum/osaka/transactions.py
+++ b/src/ethereum/osaka/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -510,7 +511,9 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
-        if tx[0] == 1:
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
+        elif tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
             return rlp.decode_to(FeeMarketTransaction, tx[1:])
diff --git a/src/ethereum/paris/transactions.py b/src/ethereum/paris/transactions.py
index 3b0c34b..5615374 100644
--- a/src/ethereum/paris/transactions.py
+++ b/src/ethereum/paris/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,7 +315,9 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
-        if tx[0] == 1:
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
+        elif tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
             return rlp.decode_to(FeeMarketTransaction, tx[1:])
diff --git a/src/ethereum/prague/transactions.py b/src/ethereum/prague/transactions.py
index 958c4c0..ca8712d 100644
--- a/src/ethereum/prague/transactions.py
+++ b/src/ethereum/prague/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -504,7 +505,9 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
-        if tx[0] == 1:
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
+        elif tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
             return rlp.decode_to(FeeMarketTransaction, tx[1:])
diff --git a/src/ethereum/shanghai/transactions.py b/src/ethereum/shanghai/transactions.py
index 0ab09fa..1ef262b 100644
--- a/src/ethereum/shanghai/transactions.py
+++ b/src/ethereum/shanghai/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,7 +315,9 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
-        if tx[0] == 1:
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
+        elif tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
             return rlp.decode_to(FeeMarketTransaction, tx[1:])
-- 
2.43.0


From 483bc26d861e83e05110fcdf23a011e633f10665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 21/25] fix: commit to the empty list of requests in the
 genesis block

---
 src/ethereum/genesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ethereum/genesis.py b/src/ethereum/genesis.py
index 114fc56..2e02c8b 100644
--- a/src/ethereum/genesis.py
+++ b/src/ethereum/genesis.py
@@ -15,6 +15,7 @@ The genesis configuration for a chain is specified with a
 import json
 import pkgutil
 from dataclasses import dataclass
+from hashlib import sha256
 from typing import Any, Callable, Dict, Generic, Type, TypeVar
 
 from ethereum_rlp import rlp
@@ -256,7 +257,7 @@ def add_genesis_block(
         fields["parent_beacon_block_root"] = Hash32(b"\0" * 32)
 
     if has_field(hardfork.Header, "requests_hash"):
-        fields["requests_hash"] = Hash32(b"\0" * 32)
+        fields["requests_hash"] = Hash32(sha256(b"").digest())
 
     genesis_header = hardfork.Header(**fields)
 
-- 
2.43.0


From e42e09f69842a4fbd8b135b802723e86b5e5790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 22/25] fix: give legacy transactions from eth_getBlockByNumber
 their gas as Uint

sync: gas and gasPrice were U256, which no fork compares with its Uint gas:
every block with a legacy transaction failed with a TypeError.
---
 src/ethereum_spec_tools/sync.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 78a62d8..e3a8214 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -359,8 +359,8 @@ class BlockDownloader(ForkTracking):
             else:
                 return self.module("transactions").LegacyTransaction(
                     hex_to_u256(t["nonce"]),
-                    hex_to_u256(t["gasPrice"]),
-                    hex_to_u256(t["gas"]),
+                    hex_to_uint(t["gasPrice"]),
+                    hex_to_uint(t["gas"]),
                     self.module("utils.hexadecimal").hex_to_address(t["to"])
                     if t["to"]
                     else Bytes0(b""),
@@ -373,8 +373,8 @@ class BlockDownloader(ForkTracking):
         else:
             return self.module("transactions").Transaction(
                 hex_to_u256(t["nonce"]),
-                hex_to_u256(t["gasPrice"]),
-                hex_to_u256(t["gas"]),
+                hex_to_uint(t["gasPrice"]),
+                hex_to_uint(t["gas"]),
                 self.module("utils.hexadecimal").hex_to_address(t["to"])
                 if t["to"]
                 else Bytes0(b""),
-- 
2.43.0


From abfce8dbb3493116c535c2d8fe52ffd26cb6c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 23/25] fix: read batches of eth_getBlockByNumber in the order
 of their blocks

sync: the replies to a JSON-RPC batch may come in any order, but the fork
was followed in the order of the replies.
---
 src/ethereum_spec_tools/sync.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index e3a8214..77df08c 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -429,7 +429,8 @@ class BlockDownloader(ForkTracking):
             ommers_needed: Dict[Uint, int] = {}
             blocks: Dict[Uint, Union[Any, RpcError]] = {}
 
-            for reply in replies:
+            # A provider may answer the requests of a batch in any order.
+            for reply in sorted(replies, key=lambda r: int(r["id"], 0)):
                 reply_id = Uint(int(reply["id"], 0))
 
                 if reply_id < first or reply_id >= first + count:
-- 
2.43.0


From f155af666de13896910a899023c30f52e5c8501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 24/25] fix: read ommers with the fork of the block they belong
 to

sync: without --geth, the ommers of a whole batch were read with the fork
active before the batch.
---
 src/ethereum_spec_tools/sync.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 77df08c..b7eb8c8 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -456,7 +456,8 @@ class BlockDownloader(ForkTracking):
             for id in block_jsons:
                 self.advance_block(hex_to_u256(block_jsons[id]["timestamp"]))
                 blocks[id] = self.make_block(
-                    block_jsons[id], ommers.get(id, ())
+                    block_jsons[id],
+                    tuple(self.make_header(o) for o in ommers.get(id, ())),
                 )
 
             self.log.info("blocks [%d, %d) fetched", first, first + count)
@@ -520,7 +521,7 @@ class BlockDownloader(ForkTracking):
                 else:
                     ommers[reply_id // twenty][
                         reply_id % twenty
-                    ] = self.make_header(reply["result"])
+                    ] = reply["result"]
 
             self.log.info(
                 "ommers [%d, %d] fetched",
-- 
2.43.0


From 53d62b62e6f3dd33cc56bcad3ec2cb6a8dd01b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 25/25] fix: read Cancun and Prague blocks from
 eth_getBlockByNumber

sync: without --geth, the header fields and the transaction types of these
forks were unknown, so that the chain could not be followed past Shanghai.
---
 src/ethereum_spec_tools/sync.py | 61 +++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index b7eb8c8..dc7a44d 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -26,6 +26,7 @@ from ethereum.utils.hexadecimal import (
     hex_to_bytes,
     hex_to_bytes8,
     hex_to_bytes32,
+    hex_to_u8,
     hex_to_u64,
     hex_to_u256,
     hex_to_uint,
@@ -356,6 +357,60 @@ class BlockDownloader(ForkTracking):
                         hex_to_u256(t["s"]),
                     )
                 )
+            elif t["type"] == "0x3":
+                return b"\x03" + rlp.encode(
+                    self.module("transactions").BlobTransaction(
+                        hex_to_u64(t["chainId"]),
+                        hex_to_u256(t["nonce"]),
+                        hex_to_uint(t["maxPriorityFeePerGas"]),
+                        hex_to_uint(t["maxFeePerGas"]),
+                        hex_to_uint(t["gas"]),
+                        self.module("utils.hexadecimal").hex_to_address(
+                            t["to"]
+                        ),
+                        hex_to_u256(t["value"]),
+                        hex_to_bytes(t["input"]),
+                        access_list,
+                        hex_to_u256(t["maxFeePerBlobGas"]),
+                        [hex_to_bytes32(h) for h in t["blobVersionedHashes"]],
+                        hex_to_u256(t["v"]),
+                        hex_to_u256(t["r"]),
+                        hex_to_u256(t["s"]),
+                    )
+                )
+            elif t["type"] == "0x4":
+                authorizations = [
+                    self.module("fork_types").Authorization(
+                        hex_to_u256(a["chainId"]),
+                        self.module("utils.hexadecimal").hex_to_address(
+                            a["address"]
+                        ),
+                        hex_to_u64(a["nonce"]),
+                        hex_to_u8(a["yParity"]),
+                        hex_to_u256(a["r"]),
+                        hex_to_u256(a["s"]),
+                    )
+                    for a in t["authorizationList"]
+                ]
+                return b"\x04" + rlp.encode(
+                    self.module("transactions").SetCodeTransaction(
+                        hex_to_u64(t["chainId"]),
+                        hex_to_u64(t["nonce"]),
+                        hex_to_uint(t["maxPriorityFeePerGas"]),
+                        hex_to_uint(t["maxFeePerGas"]),
+                        hex_to_uint(t["gas"]),
+                        self.module("utils.hexadecimal").hex_to_address(
+                            t["to"]
+                        ),
+                        hex_to_u256(t["value"]),
+                        hex_to_bytes(t["input"]),
+                        access_list,
+                        authorizations,
+                        hex_to_u256(t["v"]),
+                        hex_to_u256(t["r"]),
+                        hex_to_u256(t["s"]),
+                    )
+                )
             else:
                 return self.module("transactions").LegacyTransaction(
                     hex_to_u256(t["nonce"]),
@@ -559,6 +614,12 @@ class BlockDownloader(ForkTracking):
             fields.append(hex_to_uint(json["baseFeePerGas"]))
         if hasattr(self.module("blocks").Header, "withdrawals_root"):
             fields.append(hex_to_bytes32(json["withdrawalsRoot"]))
+        if hasattr(self.module("blocks").Header, "excess_blob_gas"):
+            fields.append(hex_to_u64(json["blobGasUsed"]))
+            fields.append(hex_to_u64(json["excessBlobGas"]))
+            fields.append(hex_to_bytes32(json["parentBeaconBlockRoot"]))
+        if hasattr(self.module("blocks").Header, "requests_hash"):
+            fields.append(hex_to_bytes32(json["requestsHash"]))
         return self.module("blocks").Header(*fields)
 
     def make_block(self, json: Any, ommers: Any) -> Any:
-- 
2.43.0

