From d1c0d644f037222b6d50e5b2f7f7d1fb76a7446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 01/48] fix: copy cached hash before releasing the lock of the
 lfvm hash cache

A hit read the hash of the entry after releasing the lock, when another
thread may already have evicted and reused the entry for another key.
---
 go/interpreter/lfvm/hash_cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/hash_cache.go b/go/interpreter/lfvm/hash_cache.go
index f6b651d..1a9df3e 100644
--- a/go/interpreter/lfvm/hash_cache.go
+++ b/go/interpreter/lfvm/hash_cache.go
@@ -108,8 +108,10 @@ func (h *hashCache[K]) getHash(key K) tosca.Hash {
 			h.head.pred = entry
 			h.head = entry
 		}
+		// The entry may be evicted and reused once the lock is released.
+		hash := entry.hash
 		h.lock.Unlock()
-		return entry.hash
+		return hash
 	}
 
 	// Compute the hash without holding the lock.
-- 
2.43.0


From b0a4c7e33f6cacb8028eb4ef5c574bed3a5acbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 02/48] fix: reject out-of-range destinations of lfvm's
 SWAP2_SWAP1_POP_JUMP

The super-instruction truncated the 256-bit destination to 32 bits, so that
invalid destinations were jumped to or crashed the interpreter.
---
 go/interpreter/lfvm/super_instructions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/interpreter/lfvm/super_instructions.go b/go/interpreter/lfvm/super_instructions.go
index 5ce7b50..bdc9483 100644
--- a/go/interpreter/lfvm/super_instructions.go
+++ b/go/interpreter/lfvm/super_instructions.go
@@ -11,6 +11,7 @@
 package lfvm
 
 import (
+	"math"
 	"math/bits"
 
 	"github.com/holiman/uint256"
@@ -121,6 +122,10 @@ func opSwap2_Swap1_Pop_Jump(c *context) error {
 	top := c.stack.pop()
 	c.stack.pop()
 	trg := c.stack.peek()
+	// overflow check
+	if !trg.IsUint64() || trg.Uint64() > math.MaxInt32 {
+		return errInvalidJump
+	}
 	c.pc = int32(trg.Uint64()) - 1
 	*trg = *top
 	return checkJumpDest(c)
-- 
2.43.0


From 41db88bb85652d74e56cf3d8eda07fe8bdaf1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 03/48] fix: reject texts that only contain a revision

Decoding a revision accepted every text that contains Revision(N) somewhere,
and the error returned for other texts panics when it is printed.
---
 go/tosca/revisions.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/go/tosca/revisions.go b/go/tosca/revisions.go
index 821d80d..8b0ab43 100644
--- a/go/tosca/revisions.go
+++ b/go/tosca/revisions.go
@@ -72,13 +72,12 @@ func (r *Revision) UnmarshalJSON(data []byte) error {
 		revision = R13_Cancun
 	default:
 		// read Revision(X) format and extract the number.
-		reg := regexp.MustCompile(`Revision\(([0-9]+)\)`)
-		substring := reg.FindAllStringSubmatch(s, 1)
+		reg := regexp.MustCompile(`^Revision\(([0-9]+)\)$`)
+		substring := reg.FindStringSubmatch(s)
 		if substring == nil {
-			return &json.UnmarshalTypeError{}
+			return fmt.Errorf("invalid revision: %q", s)
 		}
-		revNumber := substring[0][1]
-		revInt, err := strconv.Atoi(revNumber)
+		revInt, err := strconv.Atoi(substring[1])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 2ccb69eb931c33000478e5c62fe3409b6c1a39df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 04/48] fix: roll back failed contract creations in floria

The nonce of the created account and, where the created code was rejected,
all effects of the initialization code and the transferred value survived.
---
 go/processor/floria/run_context.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 64f6c15..e499189 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -67,7 +67,6 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 
 		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
-		r.SetNonce(createdAddress, 1)
 		recipient = createdAddress
 	}
 
@@ -77,6 +76,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 
 	snapshot := r.CreateSnapshot()
 
+	if kind == tosca.Create || kind == tosca.Create2 {
+		r.SetNonce(createdAddress, 1)
+	}
+
 	// StaticCall and DelegateCall do not transfer value
 	if kind != tosca.StaticCall && kind != tosca.DelegateCall {
 		if err := transferValue(r, parameters.Value, parameters.Sender, recipient); err != nil {
@@ -125,13 +128,16 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	} else if kind == tosca.Create || kind == tosca.Create2 {
 		code := result.Output
 		if len(code) > maxCodeSize {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		if r.blockParameters.Revision >= tosca.R10_London && len(code) > 0 && code[0] == 0xEF {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		createGas := tosca.Gas(len(result.Output) * createGasCostPerByte)
 		if result.GasLeft < createGas {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		result.GasLeft -= createGas
-- 
2.43.0


From 04fe520cc51f85791b5edf1d01d92e2561211196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 05/48] fix: increment the creator's nonce on address
 collisions in floria

Otherwise a transaction whose creation collides can be repeated, and a
contract can never create another contract using CREATE.
---
 go/processor/floria/run_context.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index e499189..8dbf4c5 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -60,13 +60,15 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			parameters.Salt,
 			codeHash,
 		)
+
+		// the creation counts, even if it fails due to a collision
+		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
+
 		if r.GetNonce(createdAddress) != 0 ||
 			(r.GetCodeHash(createdAddress) != (tosca.Hash{}) &&
 				r.GetCodeHash(createdAddress) != emptyCodeHash) {
 			return tosca.CallResult{}, nil
 		}
-
-		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
 		recipient = createdAddress
 	}
 
-- 
2.43.0


From 3a0632e73f0a572267616aaacac0c57d278f7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 06/48] fix: refuse creations by accounts with the maximum
 nonce in floria

The nonce wrapped around to zero.
---
 go/processor/floria/run_context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 8dbf4c5..9664dc9 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -53,6 +53,9 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			code = tosca.Code(parameters.Input)
 			codeHash = hashCode(code)
 		}
+		if r.GetNonce(parameters.Sender)+1 == 0 {
+			return tosca.CallResult{}, nil // EIP-2681: nonces are limited to 2^64-1
+		}
 		createdAddress = createAddress(
 			kind,
 			parameters.Sender,
-- 
2.43.0


From 69a47772e50bd395fe1e26eae55814db031f4e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 07/48] fix: add created addresses to the list of accessed
 addresses in floria

---
 go/processor/floria/run_context.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 9664dc9..bc8c822 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -64,6 +64,11 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			codeHash,
 		)
 
+		// EIP-2929: created addresses are warm, even if the creation fails
+		if r.blockParameters.Revision >= tosca.R09_Berlin {
+			r.AccessAccount(createdAddress)
+		}
+
 		// the creation counts, even if it fails due to a collision
 		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
 
-- 
2.43.0


From 9d022461b2b4934ecd4d44c36e396f9fb7975224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 08/48] fix: roll back value transfers to failed precompiled
 contracts in floria

---
 go/processor/floria/run_context.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index bc8c822..65a0521 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -101,11 +101,17 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	output, isStatePrecompiled := handleStateContract(
 		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 	output, isPrecompiled := handlePrecompiledContract(
 		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
 	if isPrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 
-- 
2.43.0


From d64bc706f5d3f423d285150edff8b38620c20b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 09/48] fix: consume all gas when a precompiled contract fails
 in floria

---
 go/processor/floria/precompiled.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/precompiled.go b/go/processor/floria/precompiled.go
index 7433356..fc61e86 100644
--- a/go/processor/floria/precompiled.go
+++ b/go/processor/floria/precompiled.go
@@ -27,9 +27,12 @@ func handlePrecompiledContract(revision tosca.Revision, input tosca.Data, addres
 	}
 	gas -= tosca.Gas(gasCost)
 	output, err := contract.Run(input)
+	if err != nil { // precompiled contracts only return errors on invalid input
+		return tosca.CallResult{}, true // all gas is consumed
+	}
 
 	return tosca.CallResult{
-		Success: err == nil, // precompiled contracts only return errors on invalid input
+		Success: true,
 		Output:  output,
 		GasLeft: gas,
 	}, true
-- 
2.43.0


From 30f2530c7ed8e423363b93f0db6cba529d1e8d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 10/48] fix: detect costs of precompiled contracts beyond 2^63
 in floria

Contracts signal unaffordable inputs by the maximum cost, which became
negative and made the call free.
---
 go/processor/floria/precompiled.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/processor/floria/precompiled.go b/go/processor/floria/precompiled.go
index fc61e86..bca24ad 100644
--- a/go/processor/floria/precompiled.go
+++ b/go/processor/floria/precompiled.go
@@ -22,7 +22,7 @@ func handlePrecompiledContract(revision tosca.Revision, input tosca.Data, addres
 		return tosca.CallResult{}, false
 	}
 	gasCost := contract.RequiredGas(input)
-	if gas < tosca.Gas(gasCost) {
+	if gas < 0 || uint64(gas) < gasCost {
 		return tosca.CallResult{}, true
 	}
 	gas -= tosca.Gas(gasCost)
-- 
2.43.0


From 4ee7c2d20ddb766d0af86d3bb560fca9739a1e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 11/48] fix: run precompiled contracts in delegate calls and
 call codes in floria

The precompiled contract was looked up at the recipient, which is the caller
itself for these calls, so the empty code was executed instead.
---
 go/processor/floria/run_context.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 65a0521..2f9fc9f 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -80,6 +80,12 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		recipient = createdAddress
 	}
 
+	// precompiled contracts are found where the code to be executed is
+	codeAddress := recipient
+	if kind == tosca.DelegateCall || kind == tosca.CallCode {
+		codeAddress = parameters.CodeAddress
+	}
+
 	if kind == tosca.StaticCall {
 		r.static = true
 	}
@@ -107,7 +113,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		return output, nil
 	}
 	output, isPrecompiled := handlePrecompiledContract(
-		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
+		r.blockParameters.Revision, parameters.Input, codeAddress, parameters.Gas)
 	if isPrecompiled {
 		if !output.Success {
 			r.RestoreSnapshot(snapshot)
-- 
2.43.0


From c51f27f724fa5856dd3cdb3b00546cf927292234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 12/48] fix: refuse the state contract within static calls in
 floria

---
 go/processor/floria/run_context.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 2f9fc9f..ae84a69 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -104,6 +104,11 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 	}
 
+	// The state contract modifies the state, which static calls must not do.
+	if r.static && parameters.Recipient == StateContractAddress() {
+		return tosca.CallResult{}, nil
+	}
+
 	output, isStatePrecompiled := handleStateContract(
 		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
-- 
2.43.0


From 802a641e9c4205f0568a1bae194a6c244cbf15c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 13/48] fix: check all bits of the value of incNonce in floria

---
 go/processor/floria/state_contract.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/processor/floria/state_contract.go b/go/processor/floria/state_contract.go
index 0d062ed..18e9cbb 100644
--- a/go/processor/floria/state_contract.go
+++ b/go/processor/floria/state_contract.go
@@ -228,19 +228,19 @@ func executeStateContractIncNonce(state tosca.WorldState, sender tosca.Address,
 
 	account := tosca.Address(input[12:32])
 	value := tosca.Value(input[32:64])
-	valueUint := big.NewInt(0).SetBytes(value[:]).Uint64()
+	valueInt := big.NewInt(0).SetBytes(value[:])
 
 	if account == sender {
 		// Origin nonce shouldn't change during his transaction
 		return 0, ErrExecutionReverted
 	}
 
-	if valueUint <= 0 || 256 <= valueUint {
+	if valueInt.Sign() <= 0 || valueInt.Cmp(common.Big256) >= 0 {
 		// Don't allow large nonce increasing to prevent a nonce overflow
 		return 0, ErrExecutionReverted
 	}
 
-	state.SetNonce(account, state.GetNonce(account)+valueUint)
+	state.SetNonce(account, state.GetNonce(account)+valueInt.Uint64())
 
 	return gas, nil
 }
-- 
2.43.0


From 981b243f7ac61b56b87816369ec226ebcb8377c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 14/48] fix: reject oversized init code before charging for gas
 in floria

The sender lost the price of the gas limit although the receipt reports
that no gas was used.
---
 go/processor/floria/processor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index d83080c..79ed4f0 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -64,6 +64,11 @@ func (p *processor) Run(
 		return tosca.Receipt{}, nil
 	}
 
+	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
+		len(transaction.Input) > maxInitCodeSize {
+		return tosca.Receipt{}, nil
+	}
+
 	if err := buyGas(transaction, context); err != nil {
 		return tosca.Receipt{}, nil
 	}
@@ -74,11 +79,6 @@ func (p *processor) Run(
 	}
 	gas -= intrinsicGas
 
-	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
-		len(transaction.Input) > maxInitCodeSize {
-		return tosca.Receipt{}, nil
-	}
-
 	transactionParameters := tosca.TransactionParameters{
 		Origin:     transaction.Sender,
 		GasPrice:   transaction.GasPrice,
-- 
2.43.0


From 1ea028404e3b26edbeec9dc763c08787590f6c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 15/48] fix: reject transactions whose gas costs exceed 256
 bits in floria

The costs wrapped around, so gas could be had for nothing.
---
 go/processor/floria/processor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index 79ed4f0..ec2d3f3 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 
 	"github.com/Fantom-foundation/Tosca/go/tosca"
+	"github.com/holiman/uint256"
 )
 
 const (
@@ -271,7 +272,12 @@ func setupGasBilling(transaction tosca.Transaction) tosca.Gas {
 }
 
 func buyGas(transaction tosca.Transaction, context tosca.TransactionContext) error {
-	gas := transaction.GasPrice.Scale(uint64(transaction.GasLimit))
+	cost, overflow := new(uint256.Int).MulOverflow(
+		transaction.GasPrice.ToUint256(), uint256.NewInt(uint64(transaction.GasLimit)))
+	if overflow {
+		return fmt.Errorf("gas costs exceed any balance: %v * %v", transaction.GasPrice, transaction.GasLimit)
+	}
+	gas := tosca.ValueFromUint256(cost)
 
 	// Buy gas
 	senderBalance := context.GetBalance(transaction.Sender)
-- 
2.43.0


From 45833a1edc741747c511472b2c8e8ce0a2ae2287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 16/48] fix: exclude unknown revisions from the rule for
 program counters on data in the CT specification

---
 go/ct/spc/specification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index f8f6458..626fd68 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -87,7 +87,7 @@ func getAllRules() []Rule {
 
 		{
 			Name:      "pc_on_data_is_ignored",
-			Condition: IsData(Pc()),
+			Condition: And(AnyKnownRevision(), IsData(Pc())),
 			Effect:    NoEffect(),
 		},
 	}...)
-- 
2.43.0


From 649768254ccbeb3503d1a3df202cb3f29e6a481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 17/48] fix: add rules for assigning cold storage slots with a
 known original to the CT specification

---
 go/ct/spc/specification.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index 626fd68..6732b8d 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -502,7 +502,7 @@ func getAllRules() []Rule {
 		// Certain storage configurations imply warm access. Not all
 		// combinations are possible; invalid ones are marked below.
 
-		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAssigned, gasCost: 2200}, // invalid
+		{revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAssigned, gasCost: 2200},
 		{revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAdded, gasCost: 22100},
 		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAddedDeleted, gasCost: 2200, gasRefund: 19900},     // invalid
 		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageDeletedRestored, gasCost: 2200, gasRefund: -10800}, // invalid
@@ -527,7 +527,7 @@ func getAllRules() []Rule {
 		// Certain storage configurations imply warm access. Not all
 		// combinations are possible; invalid ones are marked below.
 		sstoreRules = append(sstoreRules, []sstoreOpParams{
-			// {revision: rev, warm: false, config: tosca.StorageAssigned, gasCost: 2200}, // invalid
+			{revision: rev, warm: false, config: tosca.StorageAssigned, gasCost: 2200},
 			{revision: rev, warm: false, config: tosca.StorageAdded, gasCost: 22100},
 			// {revision: rev, warm: false, config: tosca.StorageAddedDeleted, gasCost: 2200, gasRefund: 19900},  // invalid
 			// {revision: rev, warm: false, config: tosca.StorageDeletedRestored, gasCost: 2200, gasRefund: 100}, // invalid
-- 
2.43.0


From e9c525fbd5534768ed8b7d6d0797c6d9031476a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 18/48] fix: SSTORE fails with exactly 2300 gas left in the CT
 specification

---
 go/ct/spc/specification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index 6732b8d..1849e06 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -555,7 +555,7 @@ func getAllRules() []Rule {
 		rules = append(rules, sstoreOpReadOnlyMode(params))
 	}
 
-	rules = append(rules, tooLittleGas(instruction{op: vm.SSTORE, staticGas: 2300, name: "_EIP2200"})...)
+	rules = append(rules, tooLittleGas(instruction{op: vm.SSTORE, staticGas: 2301, name: "_EIP2200"})...)
 	rules = append(rules, tooFewElements(instruction{op: vm.SSTORE, staticGas: 2, pops: 2})...)
 
 	// --- JUMP ---
-- 
2.43.0


From 2dc3b0851232756bd7848389d4a97956fe569e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 19/48] fix: specify jumps without sufficient gas for any
 target in the CT specification

---
 go/ct/spc/specification.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index 1849e06..16ea47e 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -578,6 +578,7 @@ func getAllRules() []Rule {
 		},
 	})...)
 
+	rules = append(rules, tooLittleGas(instruction{op: vm.JUMP, staticGas: 8, name: "_any_target"})...)
 	rules = append(rules, []Rule{
 		{
 			Name: "jump_to_data",
@@ -633,6 +634,7 @@ func getAllRules() []Rule {
 		},
 	})...)
 
+	rules = append(rules, tooLittleGas(instruction{op: vm.JUMPI, staticGas: 10, name: "_any_target"})...)
 	rules = append(rules, []Rule{
 		{
 			Name: "jumpi_not_taken",
-- 
2.43.0


From eb58005a70bd70c290002e6f3c03aed96b8f0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 20/48] fix: PUSH0 of unsupported revisions fails independent
 of gas and stack in the CT specification

---
 go/ct/spc/specification.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index 16ea47e..e5273cd 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -870,8 +870,6 @@ func getAllRules() []Rule {
 				RevisionBounds(tosca.R07_Istanbul, tosca.R11_Paris),
 				Eq(Status(), st.Running),
 				Eq(Op(Pc()), vm.PUSH0),
-				Ge(Gas(), 2),
-				Lt(StackSize(), st.MaxStackSize-1),
 			),
 			Effect: FailEffect(),
 		},
-- 
2.43.0


From 386ad8d906a41f398123193e60772da3b74522de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 21/48] fix: SSTORE and LOG fail in read-only mode independent
 of gas in the CT specification

---
 go/ct/spc/specification.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index e5273cd..988d835 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -2102,16 +2102,10 @@ func sstoreOpTooLittleGas(params sstoreOpParams) Rule {
 func sstoreOpReadOnlyMode(params sstoreOpParams) Rule {
 	name := fmt.Sprintf("sstore_in_read_only_mode_%v_%v", params.revision, params.config)
 
-	gasLimit := tosca.Gas(2301) // EIP2200
-	if params.gasCost > gasLimit {
-		gasLimit = params.gasCost
-	}
-
 	conditions := []Condition{
 		IsRevision(params.revision),
 		Eq(Status(), st.Running),
 		Eq(Op(Pc()), vm.SSTORE),
-		Ge(Gas(), gasLimit),
 		Eq(ReadOnly(), true),
 		Ge(StackSize(), 2),
 		StorageConfiguration(params.config, Param(0), Param(1)),
@@ -2181,7 +2175,6 @@ func logOp(n int) []Rule {
 		AnyKnownRevision(),
 		Eq(Status(), st.Running),
 		Eq(Op(Pc()), op),
-		Ge(Gas(), minGas),
 		Eq(ReadOnly(), true),
 		Ge(StackSize(), 2+n),
 	}
-- 
2.43.0


From 38f58f398e257fe38805631a54c79ab910f24377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 22/48] fix: resolve conflicts of account constraints and
 generate accounts reproducibly in CT

---
 go/ct/gen/accounts.go | 52 +++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/go/ct/gen/accounts.go b/go/ct/gen/accounts.go
index c5ed458..00a4d33 100644
--- a/go/ct/gen/accounts.go
+++ b/go/ct/gen/accounts.go
@@ -19,7 +19,6 @@ import (
 	. "github.com/Fantom-foundation/Tosca/go/ct/common"
 	"github.com/Fantom-foundation/Tosca/go/ct/st"
 	"github.com/Fantom-foundation/Tosca/go/tosca"
-	"golang.org/x/exp/maps"
 	"pgregory.net/rand"
 )
 
@@ -192,8 +191,10 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	// Process empty constraints.
 	emptyAccounts := map[tosca.Address]struct{}{}
 	nonEmptyAccounts := map[tosca.Address]struct{}{}
+	emptyConstraintAddresses := []tosca.Address{}
 	for _, con := range g.emptyAccounts {
 		address := getBoundOrBindNewAddress(con.address)
+		emptyConstraintAddresses = append(emptyConstraintAddresses, address)
 		if con.empty {
 			if _, found := nonEmptyAccounts[address]; found {
 				return nil, fmt.Errorf("%w, address %v conflicting empty constraints", ErrUnsatisfiable, address)
@@ -206,12 +207,13 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 			nonEmptyAccounts[address] = struct{}{}
 		}
 	}
-	for address := range emptyAccounts {
-		accountsBuilder.SetBalance(address, NewU256(0))
-		accountsBuilder.SetCode(address, Bytes{})
-	}
-	for address := range nonEmptyAccounts {
-		switch rand.Intn(3) {
+	for _, address := range emptyConstraintAddresses {
+		if _, empty := emptyAccounts[address]; empty {
+			accountsBuilder.SetBalance(address, NewU256(0))
+			accountsBuilder.SetCode(address, Bytes{})
+			continue
+		}
+		switch rnd.Intn(3) {
 		case 0:
 			accountsBuilder.SetBalance(address, NewU256(1))
 		case 1:
@@ -223,8 +225,13 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	}
 
 	// Process warm/cold constraints.
+	isWarm := map[tosca.Address]bool{}
 	for _, con := range g.warmCold {
 		address := getBoundOrBindNewAddress(con.key)
+		if warm, found := isWarm[address]; found && warm != con.warm {
+			return nil, fmt.Errorf("%w, address %v conflicting warm/cold constraints", ErrUnsatisfiable, address)
+		}
+		isWarm[address] = con.warm
 		if con.warm {
 			accountsBuilder.SetWarm(address)
 		}
@@ -234,6 +241,7 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	if err := g.processBalanceConstraints(
 		getBoundOrBindNewAddress,
 		emptyAccounts,
+		nonEmptyAccounts,
 		rnd,
 		accountsBuilder,
 	); err != nil {
@@ -253,10 +261,12 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	}
 
 	// Add balance and code for the account executing the code.
-	if !accountsBuilder.Exists(accountAddress) {
-		accountsBuilder.SetBalance(accountAddress, RandU256(rnd))
+	if _, mustBeEmpty := emptyAccounts[accountAddress]; !mustBeEmpty {
+		if !accountsBuilder.Exists(accountAddress) {
+			accountsBuilder.SetBalance(accountAddress, RandU256(rnd))
+		}
+		accountsBuilder.SetCode(accountAddress, RandomBytesOfSize(rnd, 42))
 	}
-	accountsBuilder.SetCode(accountAddress, RandomBytesOfSize(rnd, 42))
 
 	return accountsBuilder.Build(), nil
 }
@@ -264,15 +274,20 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 func (g *AccountsGenerator) processBalanceConstraints(
 	getBoundOrBindNewAddress func(v Variable) tosca.Address,
 	mustBeEmptyAccounts map[tosca.Address]struct{},
+	mustNotBeEmptyAccounts map[tosca.Address]struct{},
 	rnd *rand.Rand,
 	result *st.AccountsBuilder,
 ) error {
 
 	// Convert variable based constraints into lower and upper bounds for
 	// concrete addresses by fetching variable bindings or assigning new addresses.
+	accounts := []tosca.Address{}
 	lowerBounds := map[tosca.Address]U256{}
 	for _, con := range g.minBalance {
 		address := getBoundOrBindNewAddress(con.address)
+		if !slices.Contains(accounts, address) {
+			accounts = append(accounts, address)
+		}
 		current := lowerBounds[address]
 		if current.Lt(con.value) {
 			lowerBounds[address] = con.value
@@ -282,6 +297,9 @@ func (g *AccountsGenerator) processBalanceConstraints(
 	upperBounds := map[tosca.Address]U256{}
 	for _, con := range g.maxBalance {
 		address := getBoundOrBindNewAddress(con.address)
+		if !slices.Contains(accounts, address) {
+			accounts = append(accounts, address)
+		}
 		current, found := upperBounds[address]
 		if !found || current.Gt(con.value) {
 			upperBounds[address] = con.value
@@ -291,14 +309,6 @@ func (g *AccountsGenerator) processBalanceConstraints(
 		upperBounds[address] = NewU256(0)
 	}
 
-	// Get list of all accounts to be resolved.
-	accounts := maps.Keys(lowerBounds)
-	for _, address := range maps.Keys(upperBounds) {
-		if _, isPresent := lowerBounds[address]; !isPresent {
-			accounts = append(accounts, address)
-		}
-	}
-
 	// Apply constraints to the accounts to obtain balances.
 	for _, address := range accounts {
 		lower, hasLower := lowerBounds[address]
@@ -315,7 +325,11 @@ func (g *AccountsGenerator) processBalanceConstraints(
 			return fmt.Errorf("%w, conflicting balance constraints", ErrUnsatisfiable)
 		}
 
-		result.SetBalance(address, RandU256Between(rnd, lower, upper))
+		balance := RandU256Between(rnd, lower, upper)
+		result.SetBalance(address, balance)
+		if _, found := mustNotBeEmptyAccounts[address]; found && balance.IsZero() {
+			result.SetCode(address, NewBytes([]byte{1}))
+		}
 	}
 
 	return nil
-- 
2.43.0


From 060734c8eae98e3266ed6e3be9f775966cd18bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 23/48] fix: detect conflicts of storage constraints on the
 same key in CT

---
 go/ct/gen/storage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/ct/gen/storage.go b/go/ct/gen/storage.go
index 20bbb33..16c51f1 100644
--- a/go/ct/gen/storage.go
+++ b/go/ct/gen/storage.go
@@ -170,6 +170,9 @@ func (g *StorageGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.
 	// Process storage configuration constraints.
 	for _, con := range g.cfg {
 		key := getKey(con.key)
+		if builder.IsInOriginal(key) {
+			return nil, fmt.Errorf("%w, key %v conflicting storage configuration", ErrUnsatisfiable, key)
+		}
 
 		newValue, isBound := assignment[con.newValue]
 		if isBound {
@@ -228,8 +231,13 @@ func (g *StorageGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.
 	}
 
 	// Process warm/cold constraints.
+	isWarm := map[U256]bool{}
 	for _, con := range g.warmCold {
 		key := getKey(con.key)
+		if warm, found := isWarm[key]; found && warm != con.warm {
+			return nil, fmt.Errorf("%w, key %v conflicting warm/cold constraints", ErrUnsatisfiable, key)
+		}
+		isWarm[key] = con.warm
 		if !builder.IsInOriginal(key) {
 			builder.SetOriginal(key, RandU256(rnd))
 			builder.SetCurrent(key, RandU256(rnd))
-- 
2.43.0


From 9e3ed6e763cb054f680bb8185db57476e3c35fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 24/48] fix: generate transient storage reproducibly and ignore
 unbound variables when checking for conflicts in CT

---
 go/ct/gen/transient_storage.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/go/ct/gen/transient_storage.go b/go/ct/gen/transient_storage.go
index 71d5599..4591298 100644
--- a/go/ct/gen/transient_storage.go
+++ b/go/ct/gen/transient_storage.go
@@ -79,13 +79,16 @@ func (t *TransientStorageGenerator) Generate(assignment Assignment, rnd *rand.Ra
 
 	transientStorage := &st.TransientStorage{}
 
-	// Process zero/nonZero constraints.
-	for variable, nonZero := range t.nonZeroConstraints {
+	// Process zero/nonZero constraints in a reproducible order.
+	variables := maps.Keys(t.nonZeroConstraints)
+	slices.Sort(variables)
+	for _, variable := range variables {
+		nonZero := t.nonZeroConstraints[variable]
 
 		// Check different assignments with the same key whether they conflict
-		if _, isBound := assignment[variable]; isBound {
+		if key, isBound := assignment[variable]; isBound {
 			for other, otherNonZero := range t.nonZeroConstraints {
-				if assignment[variable] == assignment[other] && nonZero != otherNonZero {
+				if otherKey, isBound := assignment[other]; isBound && key == otherKey && nonZero != otherNonZero {
 					return nil, fmt.Errorf("%w, conflicting constraints %v and %v on the same location", ErrUnsatisfiable, nonZero, otherNonZero)
 				}
 			}
-- 
2.43.0


From dcbfef3e9f0379e0f22c269fed70642d9485de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 25/48] fix: detect conflicts of blob hash constraints on the
 same index in CT

---
 go/ct/gen/transaction_context.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/go/ct/gen/transaction_context.go b/go/ct/gen/transaction_context.go
index 114e2d4..c3c4143 100644
--- a/go/ct/gen/transaction_context.go
+++ b/go/ct/gen/transaction_context.go
@@ -12,6 +12,7 @@ package gen
 
 import (
 	"math"
+	"slices"
 	"sort"
 
 	"golang.org/x/exp/maps"
@@ -38,11 +39,13 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 		return nil, ErrUnsatisfiable
 	}
 
+	hasPresent := false
 	maxMustHaveBlobHash := uint64(0)
 	minMustNotHaveBlobHash := uint64(math.MaxUint64)
 
 	// process all the bounded variables to find the maximum present and minimum absent values
 	for variable, hasBlobHash := range t.blobHashVariables {
+		hasPresent = hasPresent || hasBlobHash
 		if assignedValue, isBound := assignment[variable]; isBound {
 			if hasBlobHash {
 				if !assignedValue.IsUint64() {
@@ -59,7 +62,7 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 		}
 	}
 
-	if maxMustHaveBlobHash > minMustNotHaveBlobHash ||
+	if hasPresent && maxMustHaveBlobHash >= minMustNotHaveBlobHash ||
 		maxMustHaveBlobHash == math.MaxUint64 {
 		return nil, ErrUnsatisfiable
 	}
@@ -68,7 +71,10 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 	if minMustNotHaveBlobHash != 0 {
 		blobHashesCount += 1
 	}
-	for variable, hasBlobHash := range t.blobHashVariables {
+	variables := maps.Keys(t.blobHashVariables)
+	slices.Sort(variables) // < to obtain reproducible results
+	for _, variable := range variables {
+		hasBlobHash := t.blobHashVariables[variable]
 		// the bounded variables are dealt with above
 		if _, isBound := assignment[variable]; !isBound {
 			newValueRangeSolver := NewRangeSolver(0, blobHashesCount-1)
-- 
2.43.0


From 21c453521cac8c0e6cb1d7f36a2ba0c6871e42b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 26/48] fix: accept equal stack value constraints on the same
 position in CT

---
 go/ct/gen/stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/gen/stack.go b/go/ct/gen/stack.go
index 4dd0944..ff55787 100644
--- a/go/ct/gen/stack.go
+++ b/go/ct/gen/stack.go
@@ -116,7 +116,7 @@ func (g *StackGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.St
 		if value.pos < 0 {
 			return nil, fmt.Errorf("%w, cannot satisfy constraint value[%d]=%v", ErrUnsatisfiable, value.pos, value.value)
 		}
-		if stackMask[value.pos] {
+		if stackMask[value.pos] && stack.Get(value.pos) != value.value {
 			return nil, fmt.Errorf("%w, conflicting value constraints at position %d", ErrUnsatisfiable, value.pos)
 		}
 		stack.Set(value.pos, value.value)
-- 
2.43.0


From 58f78aa2cf79394af38d58f4436e535bd1db3a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 27/48] fix: do not truncate program counters bound to
 variables in CT

---
 go/ct/gen/state.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/ct/gen/state.go b/go/ct/gen/state.go
index 3ca99cb..a964986 100644
--- a/go/ct/gen/state.go
+++ b/go/ct/gen/state.go
@@ -13,6 +13,7 @@ package gen
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"slices"
 	"sort"
 	"strings"
@@ -378,6 +379,9 @@ func (g *StateGenerator) generateWith(rnd *rand.Rand, assignment Assignment) (*s
 			if !found {
 				return nil, fmt.Errorf("%w, variable %v not bound to value", ErrUnboundVariable, cur)
 			}
+			if !pc.IsUint64() || pc.Uint64() > math.MaxUint16 {
+				return nil, fmt.Errorf("%w, variable %v is not a valid program counter: %v", ErrUnsatisfiable, cur, pc)
+			}
 			value := uint16(pc.Uint64())
 			if !slices.Contains(values, value) {
 				values = append(values, value)
-- 
2.43.0


From e1b8a9d318b437620fcc400440aa54d3f2e6a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 28/48] fix: respect bounds of block number ranges in CT

---
 go/ct/gen/block_context.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/go/ct/gen/block_context.go b/go/ct/gen/block_context.go
index a440a86..7b3f296 100644
--- a/go/ct/gen/block_context.go
+++ b/go/ct/gen/block_context.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 	"maps"
 	"math"
+	"slices"
 	"sort"
 	"strings"
 
@@ -72,7 +73,12 @@ func (b *BlockContextGenerator) generateBlockNumber(assignment Assignment, rnd *
 	// apply constraints on block number solver derived from predefined assignments
 	// 1) fixed offset constraints
 	for variable, offset := range b.valueConstraint {
-		if assignedValue, isBound := assignment[variable]; isBound {
+		assignedValue, isBound := assignment[variable]
+		if !isBound && offset > 0 {
+			// the value of the variable must not be negative
+			blockNumberSolver.AddLowerBoundary(uint64(offset))
+		}
+		if isBound {
 			wantedBlock, overflow := addOffset(assignedValue, offset)
 			if overflow || !wantedBlock.IsUint64() {
 				return 0, ErrUnsatisfiable
@@ -148,7 +154,14 @@ func (b *BlockContextGenerator) bindVariablesInRangeConstraints(resultingBlockNu
 	upperBound := resultingBlockNumber
 	blockNumberRangeGenerator := NewRangeSolver(lowerBound, upperBound-1)
 
-	for variable, inRange := range b.rangeConstraints {
+	variables := []Variable{}
+	for variable := range b.rangeConstraints {
+		variables = append(variables, variable)
+	}
+	slices.Sort(variables) // < to obtain reproducible results
+
+	for _, variable := range variables {
+		inRange := b.rangeConstraints[variable]
 		if currentValue, isBound := assignment[variable]; isBound {
 			if inRange != isInRange(lowerBound, currentValue, upperBound) {
 				return ErrUnsatisfiable
@@ -162,7 +175,9 @@ func (b *BlockContextGenerator) bindVariablesInRangeConstraints(resultingBlockNu
 				assignment[variable] = NewU256(blockNumber)
 			} else {
 				numberOutOfRangeGenerator := NewIntervalSolver[uint64](0, math.MaxUint64)
-				numberOutOfRangeGenerator.Exclude(resultingBlockNumber-256, resultingBlockNumber-1)
+				if resultingBlockNumber > 0 {
+					numberOutOfRangeGenerator.Exclude(lowerBound, resultingBlockNumber-1)
+				}
 				number, err := numberOutOfRangeGenerator.Generate(rnd)
 				if err != nil {
 					return err
@@ -423,5 +438,5 @@ func addWithOverflowCheck(a, b uint64) (result uint64, hasOverflown bool) {
 
 func isInRange(lowerBound uint64, currentValue U256, upperBound uint64) bool {
 	value := currentValue.Uint64()
-	return currentValue.IsUint64() && lowerBound <= value && value <= upperBound
+	return currentValue.IsUint64() && lowerBound <= value && value < upperBound
 }
-- 
2.43.0


From f601aa23781f17adb8052775438d9c75344ca9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 29/48] fix: respect code and data constraints of bound
 variables in CT

---
 go/ct/gen/code.go | 126 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 117 insertions(+), 9 deletions(-)

diff --git a/go/ct/gen/code.go b/go/ct/gen/code.go
index dad12c5..ec781cf 100644
--- a/go/ct/gen/code.go
+++ b/go/ct/gen/code.go
@@ -59,12 +59,18 @@ func NewCodeGenerator() *CodeGenerator {
 
 // SetOperation fixes an operation to be placed at a given offset.
 func (g *CodeGenerator) SetOperation(pos int, op vm.OpCode) {
-	g.constOps = append(g.constOps, constOpConstraint{pos: pos, op: op})
+	c := constOpConstraint{pos: pos, op: op}
+	if !slices.Contains(g.constOps, c) {
+		g.constOps = append(g.constOps, c)
+	}
 }
 
 // AddOperation adds a constraint placing an operation at a variable position.
 func (g *CodeGenerator) AddOperation(v Variable, op vm.OpCode) {
-	g.varOps = append(g.varOps, varOpConstraint{variable: v, op: op})
+	c := varOpConstraint{variable: v, op: op}
+	if !slices.Contains(g.varOps, c) {
+		g.varOps = append(g.varOps, c)
+	}
 }
 
 // AddIsCode adds a constraint such that the generator will produce a code
@@ -102,11 +108,19 @@ func (g *CodeGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.Cod
 	// Pick a random size that is large enough for all const constraints.
 	minSize := 0
 	for _, constraint := range ops {
-		if constraint.pos > minSize {
+		if constraint.pos >= minSize {
 			minSize = constraint.pos + 1
 		}
 	}
 
+	// Positions of bound variables required to be code or data need to be part
+	// of the code as well, if possible.
+	for _, variable := range g.getCodeAndDataVariables() {
+		if pos, found := assignment[variable]; found && pos.Lt(NewU256(st.MaxCodeSize)) {
+			minSize = max(minSize, int(pos.Uint64())+1)
+		}
+	}
+
 	// Make extra space for worst-case size requirements of variable operation
 	// constraints.
 	for _, constraint := range varOps {
@@ -241,6 +255,17 @@ func (g *CodeGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.Cod
 	return st.NewCode(code), nil
 }
 
+func (g *CodeGenerator) getCodeAndDataVariables() []Variable {
+	res := make([]Variable, 0, len(g.varIsCodeConstraints)+len(g.varIsDataConstraints))
+	for _, cur := range g.varIsCodeConstraints {
+		res = append(res, cur.variable)
+	}
+	for _, cur := range g.varIsDataConstraints {
+		res = append(res, cur.variable)
+	}
+	return res
+}
+
 // Clone creates an independent copy of the generator in its current state.
 // Future modifications are isolated from each other.
 func (g *CodeGenerator) Clone() *CodeGenerator {
@@ -340,7 +365,12 @@ func (s *varCodeConstraintSolver) solve(
 	varIsCodeConstraints []varIsCodeConstraint,
 	varIsDataConstraints []varIsDataConstraint) ([]constOpConstraint, error) {
 
-	err := s.solveVarOps(varOps)
+	err := s.solveBoundIsCodeAndIsData(varIsCodeConstraints, varIsDataConstraints)
+	if err != nil {
+		return nil, err
+	}
+
+	err = s.solveVarOps(varOps)
 	if err != nil {
 		return nil, err
 	}
@@ -429,17 +459,94 @@ func (solver *varCodeConstraintSolver) solveVarOps(varOps []varOpConstraint) err
 	return nil
 }
 
+// solveBoundIsCodeAndIsData makes sure that the positions of variables which
+// are already bound are code or data, as requested. Positions are solved in
+// increasing order.
+func (solver *varCodeConstraintSolver) solveBoundIsCodeAndIsData(
+	varIsCodeConstraints []varIsCodeConstraint,
+	varIsDataConstraints []varIsDataConstraint,
+) error {
+	limit := NewU256(uint64(solver.codeSize))
+	mustBe := map[int]Used{}
+	for _, cur := range varIsCodeConstraints {
+		// Positions beyond the end of the code are always code.
+		if pos, isAssigned := solver.assignment[cur.variable]; isAssigned && pos.Lt(limit) {
+			mustBe[int(pos.Uint64())] = isCode
+		}
+	}
+	for _, cur := range varIsDataConstraints {
+		if pos, isAssigned := solver.assignment[cur.variable]; isAssigned {
+			if !pos.Lt(limit) || mustBe[int(pos.Uint64())] == isCode {
+				return fmt.Errorf("%w, unable to satisfy isData[%v]", ErrUnsatisfiable, cur.variable)
+			}
+			mustBe[int(pos.Uint64())] = isData
+		}
+	}
+
+	positions := make([]int, 0, len(mustBe))
+	for pos := range mustBe {
+		positions = append(positions, pos)
+	}
+	slices.Sort(positions)
+	for _, pos := range positions {
+		used := solver.usedPositions[pos]
+		if used == mustBe[pos] {
+			continue
+		}
+		if used != isUnused {
+			return fmt.Errorf("%w, position %d can not be both code and data", ErrUnsatisfiable, pos)
+		}
+
+		if mustBe[pos] == isCode {
+			randomOps := vm.ValidOpCodesNoPush()
+			op := randomOps[solver.rnd.Intn(len(randomOps))]
+			solver.markUsed(pos, op)
+			solver.ops = append(solver.ops, constOpConstraint{pos, op})
+			continue
+		}
+
+		// Pick a preceding unused position and a PUSH operation for it that
+		// covers this position.
+		type candidate struct {
+			pos      int
+			min, max int // < inclusive boundaries of the number of data bytes
+		}
+		candidates := []candidate{}
+		for start := pos - 1; start >= 0 && start >= pos-32; start-- {
+			if solver.usedPositions[start] != isUnused || mustBe[start] == isCode {
+				break
+			}
+			if mustBe[start] == isData {
+				continue
+			}
+			width := pos - start
+			for width < 32 && solver.fits(start, vm.PUSH1+vm.OpCode(width)) && mustBe[start+width+1] != isCode {
+				width++
+			}
+			if solver.fits(start, vm.PUSH1+vm.OpCode(width-1)) {
+				candidates = append(candidates, candidate{start, pos - start, width})
+			}
+		}
+		if len(candidates) == 0 {
+			return fmt.Errorf("%w, unable to place data at position %d", ErrUnsatisfiable, pos)
+		}
+		choice := candidates[solver.rnd.Intn(len(candidates))]
+		op := vm.PUSH1 + vm.OpCode(choice.min-1+solver.rnd.Intn(choice.max-choice.min+1))
+		solver.markUsed(choice.pos, op)
+		solver.ops = append(solver.ops, constOpConstraint{choice.pos, op})
+	}
+	return nil
+}
+
 func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsCodeConstraint) error {
 	for _, cur := range varIsCodeConstraints {
 		// Check if the variable is already assigned and points to a slot marked
 		// as code.
 		if pos, isAssigned := solver.assignment[cur.variable]; isAssigned {
-			if !pos.Lt(NewU256(uint64(solver.codeSize))) {
-				return fmt.Errorf("%w, unable to satisfy isCode[%v], out-of-bounds", ErrUnsatisfiable, cur.variable)
-			}
-			if solver.usedPositions[int(pos.Uint64())] == isCode {
+			if !pos.Lt(NewU256(uint64(solver.codeSize))) || solver.usedPositions[int(pos.Uint64())] == isCode {
 				continue // already satisfied
 			}
+			return fmt.Errorf("%w, unable to satisfy isCode[%v]", ErrUnsatisfiable, cur.variable)
 		}
 
 		// For the remaining variables, find a position and either populate an
@@ -475,9 +582,10 @@ func (solver *varCodeConstraintSolver) solveIsData(varIsDataConstraints []varIsD
 		// Check if the variable is already assigned and points to a slot marked
 		// as code. If so, we cannot satisfy this constraint!
 		if pos, isAssigned := solver.assignment[cur.variable]; isAssigned {
-			if pos.Lt(NewU256(uint64(solver.codeSize))) && solver.usedPositions[int(pos.Uint64())] == isCode {
+			if !pos.Lt(NewU256(uint64(solver.codeSize))) || solver.usedPositions[int(pos.Uint64())] != isData {
 				return fmt.Errorf("%w, unable to satisfy isData[%v]", ErrUnsatisfiable, cur.variable)
 			}
+			continue // already satisfied
 		}
 
 		// For the remaining variables, find a position and either populate an
-- 
2.43.0


From c47e152997534dac147c43e814a151166552ad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:40 +0000
Subject: [PATCH 30/48] fix: restrict strict inequalities once in the
 conditions of CT

---
 go/ct/rlz/conditions.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/go/ct/rlz/conditions.go b/go/ct/rlz/conditions.go
index b30dfc8..013bb82 100644
--- a/go/ct/rlz/conditions.go
+++ b/go/ct/rlz/conditions.go
@@ -199,8 +199,7 @@ func (c *lt[T]) Check(s *st.State) (bool, error) {
 }
 
 func (c *lt[T]) Restrict(generator *gen.StateGenerator) {
-	domain := c.lhs.Domain()
-	c.lhs.Restrict(RestrictLess, domain.Predecessor(c.rhs), generator)
+	c.lhs.Restrict(RestrictLess, c.rhs, generator)
 }
 
 func (c *lt[T]) GetTestValues() []TestValue {
@@ -266,8 +265,7 @@ func (c *gt[T]) Check(s *st.State) (bool, error) {
 }
 
 func (c *gt[T]) Restrict(generator *gen.StateGenerator) {
-	domain := c.lhs.Domain()
-	c.lhs.Restrict(RestrictGreater, domain.Successor(c.rhs), generator)
+	c.lhs.Restrict(RestrictGreater, c.rhs, generator)
 }
 
 func (c *gt[T]) GetTestValues() []TestValue {
-- 
2.43.0


From 8b2288048d935178c06b5089774add6af2d4e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:40 +0000
Subject: [PATCH 31/48] fix: balances below zero or above the maximum are
 unsatisfiable in the conditions of CT

---
 go/ct/rlz/expressions.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/go/ct/rlz/expressions.go b/go/ct/rlz/expressions.go
index 3f7cb7e..603992a 100644
--- a/go/ct/rlz/expressions.go
+++ b/go/ct/rlz/expressions.go
@@ -252,6 +252,11 @@ func (b balance) Restrict(kind RestrictionKind, value U256, generator *gen.State
 
 	switch kind {
 	case RestrictLess:
+		if value.IsZero() { // < no balance is less than zero
+			generator.AddBalanceLowerBound(variable, NewU256(1))
+			generator.AddBalanceUpperBound(variable, NewU256(0))
+			return
+		}
 		generator.AddBalanceUpperBound(variable, value.Sub(NewU256(1)))
 	case RestrictLessEqual:
 		generator.AddBalanceUpperBound(variable, value)
@@ -261,6 +266,11 @@ func (b balance) Restrict(kind RestrictionKind, value U256, generator *gen.State
 	case RestrictGreaterEqual:
 		generator.AddBalanceLowerBound(variable, value)
 	case RestrictGreater:
+		if value.Eq(MaxU256()) { // < no balance is greater than the maximum
+			generator.AddBalanceLowerBound(variable, NewU256(1))
+			generator.AddBalanceUpperBound(variable, NewU256(0))
+			return
+		}
 		generator.AddBalanceLowerBound(variable, value.Add(NewU256(1)))
 	}
 }
-- 
2.43.0


From e98900d7065444841e68f7d9aa2f73c69ec6ce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:41 +0000
Subject: [PATCH 32/48] fix: give different conditions of CT different
 properties

---
 go/ct/rlz/conditions.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/go/ct/rlz/conditions.go b/go/ct/rlz/conditions.go
index 013bb82..0f43959 100644
--- a/go/ct/rlz/conditions.go
+++ b/go/ct/rlz/conditions.go
@@ -766,7 +766,7 @@ func (c *isAddressWarm) Restrict(generator *gen.StateGenerator) {
 }
 
 func (c *isAddressWarm) GetTestValues() []TestValue {
-	property := Property(fmt.Sprintf("warm(%v)", c.key))
+	property := Property(fmt.Sprintf("account warm(%v)", c.key))
 	return []TestValue{
 		NewTestValue(property, boolDomain{}, true, restrictAccountWarmCold(c.key)),
 	}
@@ -799,7 +799,7 @@ func (c *isAddressCold) Restrict(generator *gen.StateGenerator) {
 }
 
 func (c *isAddressCold) GetTestValues() []TestValue {
-	property := Property(fmt.Sprintf("warm(%v)", c.key))
+	property := Property(fmt.Sprintf("account warm(%v)", c.key))
 	return []TestValue{
 		NewTestValue(property, boolDomain{}, false, restrictAccountWarmCold(c.key)),
 	}
@@ -935,7 +935,7 @@ func (c *inRange256FromCurrentBlock) GetTestValues() []TestValue {
 }
 
 func (c *inRange256FromCurrentBlock) String() string {
-	return c.blockNumber.String()
+	return fmt.Sprintf("inRange256FromCurrentBlock(%v)", c.blockNumber)
 }
 
 ////////////////////////////////////////////////////////////
@@ -965,7 +965,7 @@ func (c *outOfRange256FromCurrentBlock) GetTestValues() []TestValue {
 }
 
 func (c *outOfRange256FromCurrentBlock) String() string {
-	return c.blockNumber.String()
+	return fmt.Sprintf("outOfRange256FromCurrentBlock(%v)", c.blockNumber)
 }
 
 ////////////////////////////////////////////////////////////
-- 
2.43.0


From a8a70fb58c9bd8334f30a69fc3dbb8cd44096d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 33/48] fix: SIGNEXTEND of a full word leaves it unchanged in
 evmrs

---
 rust/src/types/amount.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/types/amount.rs b/rust/src/types/amount.rs
index 827738b..2c87f43 100644
--- a/rust/src/types/amount.rs
+++ b/rust/src/types/amount.rs
@@ -381,11 +381,11 @@ impl u256 {
     pub fn signextend(self, rhs: Self) -> Self {
         let (lhs, lhs_overflow) = self.into_u64_with_overflow();
         let lhs = lhs as usize;
-        if lhs_overflow || lhs > 31 {
+        if lhs_overflow || lhs >= 31 {
             return rhs;
         }
 
-        let byte = 31 - lhs; // lhs <= 31 so this does not underflow
+        let byte = 31 - lhs; // lhs < 31 so this does not underflow
         let negative = (rhs.to_le_bytes()[lhs] & 0x80) > 0;
 
         let res = if negative {
-- 
2.43.0


From 569feb42905a02118998d18ac0fece15b286a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 34/48] fix: report the remaining gas of ended executions in
 evmrs

---
 rust/src/evmc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/evmc.rs b/rust/src/evmc.rs
index 3639b6d..daecbe7 100644
--- a/rust/src/evmc.rs
+++ b/rust/src/evmc.rs
@@ -84,7 +84,7 @@ impl SteppableEvmcVm for EvmRs {
                 },
                 revision,
                 pc,
-                gas_refund,
+                message.gas(),
                 gas_refund,
                 None,
                 stack.to_owned(),
-- 
2.43.0


From beb9500bd29cba3505e41abd7b1cf9ed3aac5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 35/48] fix: do not count padding as steps in evmrs

---
 rust/src/interpreter.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 74a4391..a5ce5e4 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -641,16 +641,29 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
 
     #[cfg(feature = "needs-fn-ptr-conversion")]
     pub fn no_op(&mut self) -> OpResult {
+        self.uncount_step();
         self.code_reader.next();
         self.return_from_op()
     }
 
     #[cfg(feature = "needs-fn-ptr-conversion")]
     pub fn skip_no_ops(&mut self) -> OpResult {
+        self.uncount_step();
         self.code_reader.jump_to();
         self.return_from_op()
     }
 
+    /// The padding before jump destinations is no instruction of the code, so executing it is not a
+    /// step.
+    #[cfg(feature = "needs-fn-ptr-conversion")]
+    fn uncount_step(&mut self) {
+        if STEPPABLE {
+            if let Some(steps) = &mut self.steps {
+                *steps += 1;
+            }
+        }
+    }
+
     fn stop(&mut self) -> OpResult {
         self.exec_status = ExecStatus::Stopped;
         Ok(())
-- 
2.43.0


From 15a7e8c5cc9b402d842e6e298aaa4b77f911a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 36/48] fix: BLOCKHASH of evmrs is limited to the 256 most
 recent blocks

---
 rust/src/interpreter.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index a5ce5e4..7d4c93d 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1127,11 +1127,15 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
     fn block_hash(&mut self) -> OpResult {
         self.gas_left.consume(20)?;
         let [block_number] = self.stack.pop()?;
-        self.stack.push(
-            u64::try_from(block_number)
-                .map(|idx| self.context.get_block_hash(idx as i64).into())
-                .unwrap_or(u256::ZERO),
-        )?;
+        // only the hashes of the 256 most recent blocks are available
+        let current = self.context.get_tx_context().block_number;
+        let hash = match u64::try_from(block_number).map(i64::try_from) {
+            Ok(Ok(idx)) if idx < current && idx >= current.saturating_sub(256) => {
+                self.context.get_block_hash(idx).into()
+            }
+            _ => u256::ZERO,
+        };
+        self.stack.push(hash)?;
         self.code_reader.next();
         self.return_from_op()
     }
-- 
2.43.0


From 62f7f3069436dbdda6ac4ee37ea13d7fcf993293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 37/48] fix: calls with very large gas do not run out of gas in
 evmrs

---
 rust/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 7d4c93d..f76ec0d 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1724,9 +1724,9 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
             dest[..min_len].copy_from_slice(&output[..min_len]);
         }
 
-        self.gas_left.add(result.gas_left())?;
         self.gas_left.consume(endowment)?;
         self.gas_left.consume(stipend)?;
+        self.gas_left.add(result.gas_left())?;
         self.gas_refund.add(result.gas_refund())?;
 
         self.stack
@@ -1811,8 +1811,8 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
             dest[..min_len].copy_from_slice(&output[..min_len]);
         }
 
-        self.gas_left.add(result.gas_left())?;
         self.gas_left.consume(endowment)?;
+        self.gas_left.add(result.gas_left())?;
         self.gas_refund.add(result.gas_refund())?;
 
         self.stack
-- 
2.43.0


From 095302219a7dd9187eb87ee2d23b96d98c793c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:48 +0000
Subject: [PATCH 38/48] fix: skipping padding in evmrs with inline function
 pointers

---
 rust/src/types/code_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/types/code_reader.rs b/rust/src/types/code_reader.rs
index 375b9da..88d40dd 100644
--- a/rust/src/types/code_reader.rs
+++ b/rust/src/types/code_reader.rs
@@ -145,8 +145,9 @@ impl<'a, const STEPPABLE: bool> CodeReader<'a, STEPPABLE> {
         let offset = self.code_analysis.analysis[self.pc]
             .get_data()
             .into_u64_saturating();
+        // the number of items to be skipped is stored in the item following the skip operation
         #[cfg(not(feature = "fn-ptr-conversion-expanded-dispatch"))]
-        let offset = u32::from_ne_bytes(self.code_analysis.analysis[self.pc].get_data());
+        let offset = u32::from_ne_bytes(self.code_analysis.analysis[self.pc + 1].get_data());
         self.pc += offset as usize;
     }
 
-- 
2.43.0


From 16ea351d87f831707ef8f332c159328e4c1e46f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:45 +0000
Subject: [PATCH 39/48] fix: released stacks of CT states without capacity do
 not break later stacks

---
 go/ct/st/stack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/ct/st/stack.go b/go/ct/st/stack.go
index 5815059..46fd04d 100644
--- a/go/ct/st/stack.go
+++ b/go/ct/st/stack.go
@@ -48,6 +48,10 @@ func NewStackWithSize(size int) *Stack {
 	if MaxStackSize < size {
 		panic("Warning: maximal stack size exceeded")
 	}
+	// released stacks may have been created with less capacity
+	if cap(stack.stack) < size {
+		stack.stack = make([]U256, MaxStackSize)
+	}
 	stack.stack = stack.stack[:size]
 	return stack
 }
-- 
2.43.0


From dfe9c2a4157796b3bf250b3d0311ce8c66c8427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:45 +0000
Subject: [PATCH 40/48] fix: equality of CT storage ignores zero values in
 original values like the listed differences

---
 go/ct/st/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/st/storage.go b/go/ct/st/storage.go
index 650c71e..5c98787 100644
--- a/go/ct/st/storage.go
+++ b/go/ct/st/storage.go
@@ -157,7 +157,7 @@ func mapEqualIgnoringZeroValues[K comparable](a map[K]U256, b map[K]U256) bool {
 
 func (a *Storage) Eq(b *Storage) bool {
 	return mapEqualIgnoringZeroValues(a.current, b.current) &&
-		maps.Equal(a.original, b.original) &&
+		mapEqualIgnoringZeroValues(a.original, b.original) &&
 		maps.Equal(a.warm, b.warm)
 }
 
-- 
2.43.0


From f407ac3742a5d37763eb314c168337f6c6c31739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:53 +0000
Subject: [PATCH 41/48] fix: report generic failures of EVMC interpreters as
 failed executions

---
 go/interpreter/evmc/evmc_interpreter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/evmc/evmc_interpreter.go b/go/interpreter/evmc/evmc_interpreter.go
index a0000ae..2e7c753 100644
--- a/go/interpreter/evmc/evmc_interpreter.go
+++ b/go/interpreter/evmc/evmc_interpreter.go
@@ -106,7 +106,8 @@ func (e *EvmcInterpreter) Run(params tosca.Parameters) (tosca.Result, error) {
 		// This is to be processed as a successful execution.
 		res.Success = false // < signal that execution reverted
 		return res, nil
-	case evmc.Error(C.EVMC_OUT_OF_GAS),
+	case evmc.Error(C.EVMC_FAILURE),
+		evmc.Error(C.EVMC_OUT_OF_GAS),
 		evmc.Error(C.EVMC_INVALID_INSTRUCTION),
 		evmc.Error(C.EVMC_UNDEFINED_INSTRUCTION),
 		evmc.Error(C.EVMC_BAD_JUMP_DESTINATION),
-- 
2.43.0


From dd97aaea0883ed1f15ed4eba1de43927c101721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:59 +0000
Subject: [PATCH 42/48] fix: geth adapter forwards the read-only mode to
 contracts at addresses like 0x0101

---
 go/geth_adapter/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 689c281..08e2d14 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -616,7 +616,7 @@ func bigIntToWord(value *big.Int) (tosca.Word, error) {
 
 func isPrecompiledContract(recipient tosca.Address) bool {
 	// the addresses 1-9 are precompiled contracts
-	for i := 0; i < 18; i++ {
+	for i := 0; i < 19; i++ {
 		if recipient[i] != 0 {
 			return false
 		}
-- 
2.43.0


From 3009a8c6e2107476c44d714b8a4b4644adc9daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:59 +0000
Subject: [PATCH 43/48] fix: geth adapter hands no encoded read-only mode to
 point evaluation and state contracts

---
 go/geth_adapter/adapter.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 08e2d14..9b2f4ac 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -270,7 +270,12 @@ func (a *runContextAdapter) Call(kind tosca.CallKind, parameter tosca.CallParame
 		defer func() { debugCallEnd(result, reserr) }()
 	}
 
-	gas := encodeReadOnlyInGas(uint64(parameter.Gas), parameter.CodeAddress, a.readOnly)
+	target := parameter.CodeAddress
+	if kind == tosca.Call || kind == tosca.StaticCall {
+		target = parameter.Recipient
+	}
+	encodeReadOnly := a.readOnly && !a.isHandledByEvm(kind, target)
+	gas := encodeReadOnlyInGas(uint64(parameter.Gas), target, encodeReadOnly)
 
 	// Documentation of the parameters can be found here: t.ly/yhxC
 	toAddr := gc.Address(parameter.Recipient)
@@ -614,6 +619,26 @@ func bigIntToWord(value *big.Int) (tosca.Word, error) {
 	return tosca.Word(res), err
 }
 
+// isHandledByEvm determines whether a call to the given address is processed by
+// the EVM itself, without involving an interpreter.
+func (a *runContextAdapter) isHandledByEvm(kind tosca.CallKind, target tosca.Address) bool {
+	if kind == tosca.Create || kind == tosca.Create2 {
+		return false
+	}
+	if isPrecompiledContract(target) {
+		return true
+	}
+	if _, found := a.evm.Config.StatePrecompiles[gc.Address(target)]; found && kind == tosca.Call {
+		return true
+	}
+	// Cancun added the point evaluation precompiled contract.
+	if target == (tosca.Address{19: 0x0a}) {
+		rules := a.evm.ChainConfig().Rules(a.evm.Context.BlockNumber, a.evm.Context.Random != nil, a.evm.Context.Time)
+		return rules.IsCancun
+	}
+	return false
+}
+
 func isPrecompiledContract(recipient tosca.Address) bool {
 	// the addresses 1-9 are precompiled contracts
 	for i := 0; i < 19; i++ {
-- 
2.43.0


From 7b3a63fa54ae424f355606ba4a60d6ba16543639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:59 +0000
Subject: [PATCH 44/48] fix: geth adapter removes the encoded read-only mode
 from gas returned by accounts without code

---
 go/geth_adapter/adapter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 9b2f4ac..0fc6930 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -311,6 +311,12 @@ func (a *runContextAdapter) Call(kind tosca.CallKind, parameter tosca.CallParame
 		panic(fmt.Sprintf("unsupported call kind: %v", kind))
 	}
 
+	// If no interpreter was involved since there was no code to be executed,
+	// the encoded read-only mode is still present in the returned gas.
+	if encodeReadOnly && returnGas >= (1<<63) {
+		returnGas -= (1 << 63)
+	}
+
 	// revert errors are not an error in Tosca
 	if err != nil && err != geth.ErrExecutionReverted {
 		return gethToVMErrors(err, parameter.Gas)
-- 
2.43.0


From a86fd7780809e4e10a7cc358bed1270a7d49fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:59 +0000
Subject: [PATCH 45/48] fix: geth adapter reports failures of precompiled
 contracts as failed calls

---
 go/geth_adapter/adapter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 0fc6930..bcc6997 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -319,7 +319,12 @@ func (a *runContextAdapter) Call(kind tosca.CallKind, parameter tosca.CallParame
 
 	// revert errors are not an error in Tosca
 	if err != nil && err != geth.ErrExecutionReverted {
-		return gethToVMErrors(err, parameter.Gas)
+		result, err := gethToVMErrors(err, parameter.Gas)
+		if err != nil && a.isHandledByEvm(kind, target) {
+			// Precompiled contracts report failures using errors of their own.
+			return tosca.CallResult{Success: false}, nil
+		}
+		return result, err
 	}
 
 	return tosca.CallResult{
-- 
2.43.0


From 9be2f1bbb440d5d434653a17f9bf88b8210e9a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:59 +0000
Subject: [PATCH 46/48] fix: opera rejects transactions whose maximum costs
 exceed 256 bits

---
 go/processor/opera/processor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/processor/opera/processor.go b/go/processor/opera/processor.go
index 3a506ae..2d2ae52 100644
--- a/go/processor/opera/processor.go
+++ b/go/processor/opera/processor.go
@@ -332,7 +332,10 @@ func buyGas(tx tosca.Transaction, state tosca.WorldState) error {
 	// TODO: support arithmetic operations with Value type
 	gasPrice := tx.GasPrice.ToUint256()
 	mgval := uint256.NewInt(uint64(tx.GasLimit))
-	mgval = mgval.Mul(mgval, gasPrice)
+	mgval, overflow := mgval.MulOverflow(mgval, gasPrice)
+	if overflow {
+		return fmt.Errorf("%w: address %v cost exceeds 256 bits", errInsufficientFunds, tx.Sender)
+	}
 	// Note: Opera doesn't need to check against gasFeeCap instead of gasPrice, as it's too aggressive in the asynchronous environment
 	balance := state.GetBalance(tx.Sender)
 	if have, want := balance.ToUint256(), mgval; have.Cmp(want) < 0 {
-- 
2.43.0


From 14ec229cbc62ef15770b48ca6050a6320062b2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:38 +0000
Subject: [PATCH 47/48] fix: balances of destroyed accounts are transferred
 once by the geth StateDB adapter

---
 go/interpreter/geth/geth.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/interpreter/geth/geth.go b/go/interpreter/geth/geth.go
index c9779d8..31048b3 100644
--- a/go/interpreter/geth/geth.go
+++ b/go/interpreter/geth/geth.go
@@ -329,6 +329,9 @@ func (s *stateDbAdapter) SetTransientState(addr common.Address, key, value commo
 }
 
 func (s *stateDbAdapter) SelfDestruct(addr common.Address) {
+	// The caller already credited the balance to the beneficiary; it must not be
+	// transferred a second time by the context.
+	s.context.SetBalance(tosca.Address(addr), tosca.Value{})
 	s.context.SelfDestruct(tosca.Address(addr), s.lastBeneficiary)
 }
 
-- 
2.43.0


From c3c9a40c313b7c7ab0d85de63479d86fd1ab03da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:34 +0000
Subject: [PATCH 48/48] fix: the geth interpreter honours the static mode

---
 go/interpreter/geth/geth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/interpreter/geth/geth.go b/go/interpreter/geth/geth.go
index 31048b3..1e28a0b 100644
--- a/go/interpreter/geth/geth.go
+++ b/go/interpreter/geth/geth.go
@@ -45,7 +45,7 @@ func (m *gethVm) Run(parameters tosca.Parameters) (tosca.Result, error) {
 	}
 	evm, contract, stateDb := createGethInterpreterContext(parameters)
 
-	output, err := evm.Interpreter().Run(contract, parameters.Input, false)
+	output, err := evm.Interpreter().Run(contract, parameters.Input, parameters.Static)
 
 	result := tosca.Result{
 		Output:    output,
-- 
2.43.0

