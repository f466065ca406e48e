From 51cbf5f02acbd99fdad50e604622bc22cd1e231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 1/4] fix: donations of the same amount as the mev reward were
 dropped

---
 oracle/block.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracle/block.go b/oracle/block.go
index 228abf7..14e9e31 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -577,7 +577,8 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 	filteredEvents := make([]*contract.ContractEtherReceived, 0)
 	foundMev := false
 	for _, etherRxEvent := range b.Events.EtherReceived {
-		if etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
+		// Only one event is the mev reward, others of the same amount are donations
+		if !foundMev && etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
 			foundMev = true
 			continue
 		}
-- 
2.43.0


From d447abae1d63cc221cf903ebe6831625bf66197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 2/4] fix: a receipt of another transaction was not reported as
 an error when calculating the tip

---
 oracle/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/block.go b/oracle/block.go
index 14e9e31..03d711c 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -494,7 +494,7 @@ func (b *FullBlock) GetProposerTip() (*big.Int, error) {
 			return nil, errors.Wrap(err, "could not decode tx")
 		}
 		if tx.Hash() != b.ExecutionReceipts[i].TxHash {
-			return nil, errors.Wrap(err, "tx hash does not match receipt hash")
+			return nil, errors.New("tx hash does not match receipt hash")
 		}
 
 		tipFee := new(big.Int)
-- 
2.43.0


From a7382876b6b7e3cb40287780e25fd7843e0956a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 3/4] fix: ban and unban events of another block were not
 rejected

---
 oracle/block.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/oracle/block.go b/oracle/block.go
index 03d711c..c2c5e8b 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -284,6 +284,20 @@ func (b *FullBlock) SetEvents(events *Events) {
 		}
 	}
 
+	for _, event := range events.BanValidator {
+		if b.GetBlockNumberBigInt().Uint64() != event.Raw.BlockNumber {
+			log.Fatal("Block number mismatch in banValidator events: ",
+				b.GetBlockNumberBigInt().Uint64(), " vs ", event.Raw.BlockNumber)
+		}
+	}
+
+	for _, event := range events.UnbanValidator {
+		if b.GetBlockNumberBigInt().Uint64() != event.Raw.BlockNumber {
+			log.Fatal("Block number mismatch in unbanValidator events: ",
+				b.GetBlockNumberBigInt().Uint64(), " vs ", event.Raw.BlockNumber)
+		}
+	}
+
 	b.Events = events
 
 	// Special case. Temporal fix. We artificially add the mev reward for this block.
-- 
2.43.0


From 8c6026e939bce3069e62ec473293cc5c874c50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:17 +0000
Subject: [PATCH 4/4] fix: refuse a pool fee event that only matches the
 schedule after truncation to 64 bits

NewPoolFee is a uint256; Int64() of a value beyond 64 bits is undefined, so a
fee such as 2^64+500 was taken for the scheduled 500.
---
 oracle/oracle.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 2aee065..a8fe53c 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -459,11 +459,12 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 	// If expected, apply the new fee from the event. If not, crash.
 	if len(fullBlock.Events.UpdatePoolFee) != 0 {
 		slot := uint64(fullBlock.ConsensusDuty.Slot)
-		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
+		newPoolFee := fullBlock.Events.UpdatePoolFee[0].NewPoolFee
+		newFee := int(newPoolFee.Int64())
 		expectedFee, expected := getFeeSchedule(config.Network)[slot]
-		if !expected || expectedFee != newFee {
+		if !expected || !newPoolFee.IsInt64() || expectedFee != newFee {
 			return errors.New(fmt.Sprintf("unexpected pool fee change at slot %d. event fee: %d, expected: %d (scheduled: %v)",
-				slot, newFee, expectedFee, expected))
+				slot, newPoolFee, expectedFee, expected))
 		}
 		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
 		config.PoolFeesPercentOver10000 = newFee
-- 
2.43.0

