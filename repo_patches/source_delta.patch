From 1812624e74109afb1b7f6cae64bb1a8af69b96a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 01/60] fix: a dispute without blocks can only commit to the
 genesis state

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 0955b4b..cd76cb9 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -859,6 +859,12 @@ contract DisputeManagerFacet is StateChannelCommon {
 
         //Check through virtual voting and treshold
         bytes32 finalizedStateHash = keccak256(encodedFinalizedState);
+        if (virtualVotingBlocks.length == 0) {
+            //without blocks the latest state can only be the genesis state
+            return
+                isGenesis &&
+                keccak256(encodedLatestCorrectState) == finalizedStateHash;
+        }
         bytes32 previousStateHash = finalizedStateHash; //assume genesis
         address[] memory addressesInThreshold = new address[](
             thresholdSingers.length
-- 
2.43.0


From dbbcdd5da617070b8c39bb49f00a4fd643125cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 02/60] fix: blocks of a disputed history must be authored by
 channel participants

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index cd76cb9..bffea25 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -885,6 +885,14 @@ contract DisputeManagerFacet is StateChannelCommon {
                 ErrorDisputeForkMismatch()
             );
 
+            require(
+                StateChannelUtilLibrary.isAddressInArray(
+                    thresholdSingers,
+                    _block.transaction.header.participant
+                ),
+                ErrorNotParticipant()
+            );
+
             bool isSignedByParticipant = false;
             for (
                 uint j = 0;
-- 
2.43.0


From 260dd5aa1094bc27c20adb5f8208a8cdc231bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 03/60] fix: blocks of a disputed history must have consecutive
 heights, from 0 at genesis

---
 .../StateChannelDiamondProxy/DisputeManagerFacet.sol | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index bffea25..e2df545 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -865,6 +865,13 @@ contract DisputeManagerFacet is StateChannelCommon {
                 isGenesis &&
                 keccak256(encodedLatestCorrectState) == finalizedStateHash;
         }
+        uint firstTransactionCnt = abi
+            .decode(virtualVotingBlocks[0].encodedBlock, (Block))
+            .transaction
+            .header
+            .transactionCnt;
+        //a later state can be equal to the genesis state - history starts at genesis only if the first block does
+        isGenesis = isGenesis && firstTransactionCnt == 0;
         bytes32 previousStateHash = finalizedStateHash; //assume genesis
         address[] memory addressesInThreshold = new address[](
             thresholdSingers.length
@@ -885,6 +892,11 @@ contract DisputeManagerFacet is StateChannelCommon {
                 ErrorDisputeForkMismatch()
             );
 
+            require(
+                _block.transaction.header.transactionCnt ==
+                    firstTransactionCnt + i,
+                ErrorTransactionCountMismatch()
+            );
             require(
                 StateChannelUtilLibrary.isAddressInArray(
                     thresholdSingers,
-- 
2.43.0


From bec7838fb2b524e5e98a78834b06dd062bfea9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 04/60] fix: a timeout is always measured at the height after
 the submitted history

---
 .../StateChannelDiamondProxy/DisputeManagerFacet.sol  | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index e2df545..ac93599 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -138,18 +138,23 @@ contract DisputeManagerFacet is StateChannelCommon {
         if (timedoutParticipant != address(0)) {
             //Check if participant posted BLOCK onChain as calldata
             uint latestTimestamp = getGenesisTimestamp(channelId, forkCnt);
-            if (foldedTransactionCnt != 0) {
+            if (virtualVotingBlocks.length != 0) {
                 Block memory lastBlock = abi.decode(
                     virtualVotingBlocks[virtualVotingBlocks.length - 1]
                         .encodedBlock,
                     (Block)
                 );
                 require(
-                    lastBlock.transaction.header.transactionCnt ==
-                        foldedTransactionCnt - 1,
+                    lastBlock.transaction.header.transactionCnt + 1 ==
+                        foldedTransactionCnt,
                     ErrorTimeoutNotLinkedToPreviousBlock()
                 );
                 latestTimestamp = lastBlock.transaction.header.timestamp;
+            } else {
+                require(
+                    foldedTransactionCnt == 0,
+                    ErrorTimeoutNotLinkedToPreviousBlock()
+                );
             }
             require(
                 timedoutParticipant ==
-- 
2.43.0


From a87f0f0391755ae3cfc7a9815e433daac707d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 05/60] fix: a new dispute processes the exits of the previous
 one and starts clean

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index ac93599..76f9308 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -192,6 +192,10 @@ contract DisputeManagerFacet is StateChannelCommon {
             require(timedoutParticipant != msg.sender, ErrorTimeoutSelf());
         }
         Dispute storage dispute = disputes[channelId];
+        //The previous dispute (if any) is over - process what it left behind and start from a clean one
+        for (uint i = 0; i < dispute.processExits.length; i++)
+            removeParticipantComposable(channelId, dispute.processExits[i]);
+        delete disputes[channelId];
         dispute.channelId = channelId;
         dispute.forkCnt = forkCnt;
         dispute.challengeCnt = 0; //this can be removed - default value
-- 
2.43.0


From 7aae0cd34f506359fea594d956ff4a59daaceeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 06/60] fix: a challenge replaces the disputed history and can
 target an empty one

---
 .../DisputeManagerFacet.sol                   | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 76f9308..9a5085e 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -273,19 +273,26 @@ contract DisputeManagerFacet is StateChannelCommon {
             ),
             ErrorLatestFinalizedBlock()
         );
-        Block memory oldBlock = abi.decode(
-            dispute.virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        Block memory newBlock = abi.decode(
-            virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        require(
-            newBlock.transaction.header.transactionCnt >=
-                oldBlock.transaction.header.transactionCnt,
-            ErrorChallengeNewFinalizedBeforeOldFinalized()
-        );
+        if (dispute.virtualVotingBlocks.length != 0) {
+            Block memory oldBlock = abi.decode(
+                dispute.virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            require(
+                virtualVotingBlocks.length != 0,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+            Block memory newBlock = abi.decode(
+                virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            require(
+                newBlock.transaction.header.transactionCnt >=
+                    oldBlock.transaction.header.transactionCnt,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+        }
+        delete dispute.virtualVotingBlocks;
         copyConfirmedBlockArrayIntoStorage(
             dispute.virtualVotingBlocks,
             virtualVotingBlocks
-- 
2.43.0


From 7813836e3b6f399654c93d629f59cb56b3d402fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 07/60] fix: only channel participants can be slashed by
 double-sign and incorrect-data proofs

---
 .../DisputeManagerFacet.sol                        | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 9a5085e..ae65382 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -522,6 +522,13 @@ contract DisputeManagerFacet is StateChannelCommon {
                 doubleSign.block2.signature
             );
             require(retrived1 == retrived2, ErrorDoubleSignSignersNotTheSame());
+            require(
+                StateChannelUtilLibrary.isAddressInArray(
+                    dispute.participants,
+                    retrived1
+                ),
+                ErrorNotParticipant()
+            );
             //If we're here - the proof is valid
             success =
                 insertIfNotExist(dispute.slashedParticipants, retrived1) ||
@@ -571,6 +578,13 @@ contract DisputeManagerFacet is StateChannelCommon {
                 block2.transaction.header.forkCnt == dispute.forkCnt,
             ErrorDisputeForkMismatch()
         );
+        require(
+            StateChannelUtilLibrary.isAddressInArray(
+                dispute.participants,
+                retrived2
+            ),
+            ErrorNotParticipant()
+        );
         uint previousTimestamp;
         //If encodedState is genesis => Block2 is first block and block1 is just a copy of block2 and is ignored
         if (
-- 
2.43.0


From dd94b11d250574732b396604c46295a784e91ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 08/60] fix: incorrect-data proofs only compare a block with
 its direct predecessor

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index ae65382..142e3c5 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -588,6 +588,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         uint previousTimestamp;
         //If encodedState is genesis => Block2 is first block and block1 is just a copy of block2 and is ignored
         if (
+            block2.transaction.header.transactionCnt == 0 &&
             isGenesisState(
                 dispute.channelId,
                 dispute.forkCnt,
@@ -607,6 +608,11 @@ contract DisputeManagerFacet is StateChannelCommon {
         } else {
             //Not genesis - block2 builds on block1
             //Check linked
+            require(
+                block2.transaction.header.transactionCnt ==
+                    block1.transaction.header.transactionCnt + 1,
+                ErrorIncorrectDataBlocksNotLinked()
+            );
             require(
                 block2.previousStateHash == block1.stateHash,
                 ErrorIncorrectDataBlocksNotLinked()
-- 
2.43.0


From 9ae0236867d371a6f37d29f0a0537e0bb3737869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 09/60] fix: a newer-state proof needs a block strictly newer
 than the posted history

---
 .../DisputeManagerFacet.sol                   | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 142e3c5..f475b71 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -678,17 +678,20 @@ contract DisputeManagerFacet is StateChannelCommon {
             retrivedAddress == dispute.postedStateDisputer,
             ErrorNewerStateConfirmationInvalid()
         );
-        Block memory latestKnownBlock = abi.decode(
-            dispute
-                .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
-                .encodedBlock,
-            (Block)
-        );
-        require(
-            _block.transaction.header.transactionCnt >=
-                latestKnownBlock.transaction.header.transactionCnt,
-            ErrorTransactionCountMismatch()
-        );
+        //without blocks the disputer posted the genesis state - every block is newer
+        if (dispute.virtualVotingBlocks.length != 0) {
+            Block memory latestKnownBlock = abi.decode(
+                dispute
+                    .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
+                    .encodedBlock,
+                (Block)
+            );
+            require(
+                _block.transaction.header.transactionCnt >
+                    latestKnownBlock.transaction.header.transactionCnt,
+                ErrorTransactionCountMismatch()
+            );
+        }
         return
             insertIfNotExist(
                 dispute.slashedParticipants,
-- 
2.43.0


From cb97f53bf0e4387c6f8da9ef13d86f601e521e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 10/60] fix: a fold rechallenge needs a timeout to undo

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index f475b71..faf637f 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -462,6 +462,10 @@ contract DisputeManagerFacet is StateChannelCommon {
                 dispute.foldedTransactionCnt,
             ErrorTransactionCountMismatch()
         );
+        require(
+            dispute.timedoutParticipant != address(0),
+            ErrorTimeoutInvalid()
+        );
         (bool succeeds, ) = StateChannelUtilLibrary.verifyThresholdSigned(
             dispute.participants,
             foldRechallengeProof.encodedBlock,
-- 
2.43.0


From f8b4fe98320c0b74d909ab77a908f0411ce62f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 11/60] fix: fold-prior-block folds the author of the block it
 names

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index faf637f..2ca2f7c 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -717,7 +717,10 @@ contract DisputeManagerFacet is StateChannelCommon {
             if (
                 _block.transaction.header.transactionCnt ==
                 foldPriorBlockProof.transactionCnt
-            ) isTransactionCntInVirtualVotes = true;
+            ) {
+                isTransactionCntInVirtualVotes = true;
+                break;
+            }
         }
         require(
             isTransactionCntInVirtualVotes,
-- 
2.43.0


From 81f8ac55fbc2970e26912de4814263951af0a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 12/60] fix: a join proof is valid before its deadline, not
 after it

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 2ca2f7c..0870c95 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -835,7 +835,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         );
         require(!isParticipant, ErrorJoinChannelAlreadyInChannel());
         require(
-            block.timestamp > jc.deadlineTimestamp,
+            block.timestamp < jc.deadlineTimestamp,
             ErrorJoinChannelExpired()
         );
         require(
-- 
2.43.0


From 9048829f1c1e58558aa793e02c33540c433239a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 13/60] fix: joining and leaving with agreement reach the state
 machine

---
 .../AStateChannelManagerProxy.sol                   | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 9ee6327..6c70854 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -133,7 +133,7 @@ abstract contract AStateChannelManagerProxy is
         JoinChannel[] memory joinCahnnels = new JoinChannel[](1);
         joinCahnnels[0] = joinChannel;
         uint successCnt;
-        (encodedState, successCnt) = applyJoinChannelToStateMachine(
+        (encodedState, successCnt) = _applyJoinChannelToStateMachine(
             encodedState,
             joinCahnnels
         );
@@ -202,11 +202,12 @@ abstract contract AStateChannelManagerProxy is
 
         address[] memory p = new address[](1);
         p[0] = leaveChannel.participant;
-        (
-            bytes memory encodedState,
-            ProcessExit[] memory pe,
-            uint successCnt
-        ) = removeParticipantsFromStateMachine(encodedState, p);
+        ProcessExit[] memory pe;
+        uint successCnt;
+        (encodedState, pe, successCnt) = _removeParticipantsFromStateMachine(
+            encodedState,
+            p
+        );
         require(
             successCnt == 1,
             "AStateChannelManager: leaveChannelWithAgreement - removeParticipantsFromStateMachine failed"
-- 
2.43.0


From 7fab551d9ebc9f9fddc3e2a418e833606cb1643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 14/60] fix: joining and leaving with agreement respect the
 signed deadline

---
 .../AStateChannelManagerProxy.sol                    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 6c70854..4b644d3 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -122,6 +122,12 @@ abstract contract AStateChannelManagerProxy is
             "AStateChannelManager: joinChannelWithAgreement - initial signature invalid"
         );
 
+        //require the join hasn't expired
+        require(
+            joinChannel.deadlineTimestamp > block.timestamp,
+            "AStateChannelManager: joinChannelWithAgreement - expired"
+        );
+
         //apply joinChannelComposable
         success = _addParticipantComposable(joinChannel);
         require(
@@ -200,6 +206,12 @@ abstract contract AStateChannelManagerProxy is
             "AStateChannelManager: leaveChannelWithAgreement - signatures invalid"
         );
 
+        //require the leave hasn't expired
+        require(
+            leaveChannel.deadlineTimestamp > block.timestamp,
+            "AStateChannelManager: leaveChannelWithAgreement - expired"
+        );
+
         address[] memory p = new address[](1);
         p[0] = leaveChannel.participant;
         ProcessExit[] memory pe;
-- 
2.43.0


From 89392a37adbe57f941a4b64424c8ff7b495f0fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 15/60] fix: a block whose validation fails with an error is
 not confirmed

---
 src/stateManager/StateManager.ts | 69 +++++++++++---------------------
 1 file changed, 23 insertions(+), 46 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index ab76248..e80b823 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -231,37 +231,25 @@ class StateManager {
         signedBlock: SignedBlockStruct,
         block?: BlockStruct
     ): Promise<ExecutionFlags> {
-        // Default everything to SUCCESS + no AgreementFlag
-        let finalExecutionFlag: ExecutionFlags = ExecutionFlags.SUCCESS;
-        let finalAgreementFlag: AgreementFlag | undefined = undefined;
         const decodedBlock =
             block ?? EvmUtils.decodeBlock(signedBlock.encodedBlock);
 
+        await this.mutex.lock();
         try {
-            await this.mutex.lock();
             const result = await this.validationService.validateSignedBlock(
                 signedBlock,
                 decodedBlock
             );
 
-            finalExecutionFlag = result.flag;
-            finalAgreementFlag = result.agreementFlag;
-
-            return finalExecutionFlag;
-        } finally {
-            // Safety check: must have an execution flag
-            if (finalExecutionFlag === undefined) {
-                throw new Error(
-                    "StateManager - onSignedBlock - Internal Error - flag undefined"
-                );
-            }
-
             // Process the final decision
             await this.processExecutionDecision(
                 signedBlock,
-                finalExecutionFlag,
-                finalAgreementFlag
+                result.flag,
+                result.agreementFlag
             );
+
+            return result.flag;
+        } finally {
             this.mutex.unlock();
         }
     }
@@ -272,40 +260,29 @@ class StateManager {
         confirmationSignature: BytesLike,
         block?: BlockStruct
     ): Promise<ExecutionFlags> {
-        let finalExecutionFlag: ExecutionFlags = ExecutionFlags.SUCCESS; // Default to SUCCESS
         const decodedBlock =
             block ?? EvmUtils.decodeBlock(signedBlock.encodedBlock);
 
-        try {
-            const result =
-                await this.validationService.validateBlockConfirmation(
-                    signedBlock,
-                    confirmationSignature,
-                    decodedBlock
-                );
-            finalExecutionFlag = result.flag;
-
-            if (result.success) {
-                this.agreementManager.confirmBlock(
-                    decodedBlock,
-                    confirmationSignature as SignatureLike
-                );
-            }
-
-            return finalExecutionFlag;
-        } finally {
-            if (finalExecutionFlag === undefined) {
-                throw new Error(
-                    "StateManager - onBlockConfirmation - Internal Error - flag undefined"
-                );
-            }
+        const result = await this.validationService.validateBlockConfirmation(
+            signedBlock,
+            confirmationSignature,
+            decodedBlock
+        );
 
-            await this.processConfirmationDecision(
-                signedBlock,
-                confirmationSignature as SignatureLike,
-                finalExecutionFlag
+        if (result.success) {
+            this.agreementManager.confirmBlock(
+                decodedBlock,
+                confirmationSignature as SignatureLike
             );
         }
+
+        await this.processConfirmationDecision(
+            signedBlock,
+            confirmationSignature as SignatureLike,
+            result.flag
+        );
+
+        return result.flag;
     }
 
     //Aplies a transaction to the state machine and returns the encoded state with a success callback
-- 
2.43.0


From 9e691ae897790a939f30a732fe8760d9513d17fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 16/60] fix: a refused block leaves the state machine as it was

---
 src/stateManager/ValidationService.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index dd8f32f..25eb499 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -165,9 +165,8 @@ export default class ValidationService {
         block: BlockStruct,
         signed: SignedBlockStruct
     ): Promise<ValidationResult> {
-        const previousStateHash = await this.stateMachine
-            .getState()
-            .then(ethers.keccak256);
+        const previousState = await this.stateMachine.getState();
+        const previousStateHash = ethers.keccak256(previousState);
         let { success: txOK, successCallback } =
             await this.stateMachine.stateTransition(block.transaction);
 
@@ -178,7 +177,11 @@ export default class ValidationService {
             stateHash === block.stateHash &&
             previousStateHash === block.previousStateHash;
 
-        if (!txOK || !hashOK) return dispute(AgreementFlag.INCORRECT_DATA);
+        if (!txOK || !hashOK) {
+            // The block is not adopted - undo its transition
+            await this.stateMachine.setState(previousState);
+            return dispute(AgreementFlag.INCORRECT_DATA);
+        }
 
         this.agreementManager.addBlock(
             block,
-- 
2.43.0


From d084e5e5bde123b314e186c9358b674314422c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 17/60] fix: disputes that time nobody out name the zero
 address

---
 src/DisputeHandler.ts                 | 2 +-
 src/stateManager/StateManager.ts      | 4 ++--
 src/stateManager/ValidationService.ts | 9 ++++++---
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index e2b34d7..5a5e4e8 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -13,7 +13,7 @@ import ProofManager from "./ProofManager";
 let DEBUG_DISPUTE_HANDLER = true;
 
 // Constants for commonly used values
-const NO_PARTICIPANT_TO_FOLD = "0x00";
+const NO_PARTICIPANT_TO_FOLD = ethers.ZeroAddress;
 const INITIAL_TRANSACTION_COUNT = 0;
 
 type ForkCnt = number;
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index e80b823..93ea0d5 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -147,7 +147,7 @@ class StateManager {
                 ]);
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                ethers.ZeroAddress,
                 0,
                 [disputeProof]
             );
@@ -159,7 +159,7 @@ class StateManager {
                 );
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                ethers.ZeroAddress,
                 0,
                 [disputeProof]
             );
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 25eb499..4233b59 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -205,9 +205,12 @@ export default class ValidationService {
         );
         if (flag === ExecutionFlags.DISPUTE) {
             const proof = ProofManager.createBlockTooFarInFutureProof(signed);
-            this.disputeHandler.createDispute(this.getForkCnt(), "0x00", 0, [
-                proof
-            ]);
+            this.disputeHandler.createDispute(
+                this.getForkCnt(),
+                ethers.ZeroAddress,
+                0,
+                [proof]
+            );
         }
         return flag;
     }
-- 
2.43.0


From b0c96e5dce255e170da82888f3c39d8fe7c0ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 18/60] fix: blocks and signatures are only accepted in the
 form the contracts accept

---
 src/stateManager/ValidationService.ts | 22 ++++++++++++++--------
 src/utils/EvmUtils.ts                 | 24 ++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 4233b59..be5d905 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -122,6 +122,11 @@ export default class ValidationService {
         if (!this.isChannelOpen()) return notReady();
         if (!this.isSignedBlockAuthentic(signed, blk, this.getChannelId()))
             return disconnect();
+        const confirmer = EvmUtils.tryRetrieveSigner(
+            signed.encodedBlock,
+            confirmationSig
+        );
+        if (!confirmer) return disconnect();
         if (this.isPastFork(BlockUtils.getFork(blk))) return pastFork();
 
         // Ensure block in chain
@@ -140,10 +145,6 @@ export default class ValidationService {
         }
 
         /* confirmer inside fork */
-        const confirmer = EvmUtils.retrieveSignerAddressBlock(
-            blk,
-            confirmationSig as SignatureLike
-        );
         if (!this.agreementManager.isParticipantInLatestFork(confirmer))
             return disconnect();
 
@@ -276,10 +277,15 @@ export default class ValidationService {
     ): boolean {
         if (BlockUtils.getChannelId(block) !== expectedChannelId) return false;
 
-        const h = ethers.keccak256(signed.encodedBlock);
-        const signer = ethers.verifyMessage(
-            ethers.getBytes(h),
-            signed.signature as SignatureLike
+        // Only the canonical encoding is later used as evidence
+        if (
+            EvmUtils.encodeBlock(block) !== ethers.hexlify(signed.encodedBlock)
+        )
+            return false;
+
+        const signer = EvmUtils.tryRetrieveSigner(
+            signed.encodedBlock,
+            signed.signature
         );
 
         return signer === BlockUtils.getBlockAuthor(block);
diff --git a/src/utils/EvmUtils.ts b/src/utils/EvmUtils.ts
index c6dfcb9..ee5cdb2 100644
--- a/src/utils/EvmUtils.ts
+++ b/src/utils/EvmUtils.ts
@@ -83,6 +83,30 @@ export class EvmUtils {
         return ethers.verifyMessage(econdedHashBytes, signature);
     }
 
+    /**
+     * Signer of encoded data, undefined if the signature isn't in the (only) form
+     * that is also accepted on-chain: 65 bytes r,s,v with low s and v 27 or 28
+     */
+    public static tryRetrieveSigner(
+        encodedData: BytesLike,
+        signature: unknown
+    ): string | undefined {
+        if (!ethers.isHexString(signature, 65)) return undefined;
+        try {
+            if (
+                ethers.Signature.from(signature).serialized !==
+                signature.toLowerCase()
+            )
+                return undefined;
+            return ethers.verifyMessage(
+                ethers.getBytes(ethers.keccak256(encodedData)),
+                signature
+            );
+        } catch (e) {
+            return undefined;
+        }
+    }
+
     public static encodeJoinChannel(jc: JoinChannelStruct): string {
         let joinChannelEncoded = ethers.AbiCoder.defaultAbiCoder().encode(
             [JoinChannelEthersType],
-- 
2.43.0


From b3077c1917429b5f0965a8e845f154acc74d8da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 19/60] fix: dispute proofs are encoded as the contracts decode
 them

---
 src/types/disputes.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/types/disputes.ts b/src/types/disputes.ts
index bb79ad7..4039b69 100644
--- a/src/types/disputes.ts
+++ b/src/types/disputes.ts
@@ -1,7 +1,7 @@
 import { SignedBlockEthersType } from "./ethers";
 
 export const FoldRechallengeProofEthersType = `tuple(
-    string encodedBlock,
+    bytes encodedBlock,
     bytes[] signatures
     )`;
 
@@ -11,14 +11,14 @@ export const DoubleSignProofEthersType = `tuple(
 export const IncorrectDataProofEthersType = `tuple(
     ${SignedBlockEthersType} block1,
     ${SignedBlockEthersType} block2,
-    string encodedState
+    bytes encodedState
     )`;
 export const NewerStateProofEthersType = `tuple(
-    string encodedBlock,
-    string confirmationSignature
+    bytes encodedBlock,
+    bytes confirmationSignature
     )`;
 export const FoldPriorBlockProofEthersType = `tuple(
-    uint moveCnt
+    uint transactionCnt
     )`;
 export const BlockTooFarInFutureProofEthersType = `tuple(
     ${SignedBlockEthersType} block1
-- 
2.43.0


From 3b3d0b46d26bf2c5bdfd5f847eefe4e2d5ea67a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 20/60] fix: own blocks are only made and signed while the fork
 is undisputed

---
 src/evm/P2pSigner.ts             | 17 ++++++++---
 src/stateManager/StateManager.ts | 52 +++++++++++++++++++++-----------
 2 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/src/evm/P2pSigner.ts b/src/evm/P2pSigner.ts
index c4f0b09..8b0727b 100644
--- a/src/evm/P2pSigner.ts
+++ b/src/evm/P2pSigner.ts
@@ -126,10 +126,19 @@ class P2pSigner implements Signer {
     public async confirmBlock(signedBlock: SignedBlockStruct) {
         let block = EvmUtils.decodeBlock(signedBlock.encodedBlock);
         let confirmedBlock = await EvmUtils.signBlock(block, this.signer);
-        this.p2pManager.stateManager.agreementManager.confirmBlock(
-            block,
-            confirmedBlock.signature as SignatureLike
-        );
+        const signature = confirmedBlock.signature as SignatureLike;
+        const { agreementManager, disputeHandler } =
+            this.p2pManager.stateManager;
+        // Nothing is signed for a disputed fork - not even late
+        if (
+            disputeHandler.isForkDisputed(
+                Number(block.transaction.header.forkCnt)
+            )
+        )
+            return;
+        // Own blocks already hold this signature
+        if (!agreementManager.doesSignatureExist(block, signature))
+            agreementManager.confirmBlock(block, signature);
         this.p2pManager.rpcProxy
             .onBlockConfirmation(signedBlock, confirmedBlock.signature)
             .broadcast();
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 93ea0d5..0ccae7d 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -316,35 +316,46 @@ class StateManager {
             if (!this.isChannelOpen()) {
                 throw new Error("Channel not open");
             }
+            this.requireForkNotDisputed();
             if (!(await this.isMyTurn())) {
                 throw new Error(
                     `Not player turn - myAddress: ${String(this.signerAddress)} - nextToWrite: ${await this.stateMachine.getNextToWrite()}`
                 );
             }
+            // Fork and height may have moved on while waiting for the lock
+            tx.header.forkCnt = this.getForkCnt();
+            tx.header.transactionCnt = this.getNextBlockHeight();
             this.adjustTimestampIfNeeded(tx);
 
-            const {
-                success,
-                encodedState,
-                previousStateHash,
-                successCallback
-            } = await this.applyTransaction(tx);
+            const previousState = await this.getEncodedState();
+            let signedBlock: SignedBlockStruct;
+            let block: BlockStruct;
+            let successCallback: () => void;
+            try {
+                const result = await this.applyTransaction(tx);
+                successCallback = result.successCallback;
+
+                if (!result.success) {
+                    throw new Error(
+                        "CreateAndApplyTransaction - Internal error - Transaction not successful"
+                    );
+                }
 
-            if (!success) {
-                throw new Error(
-                    "CreateAndApplyTransaction - Internal error - Transaction not successful"
+                block = await this.createBlock(tx, result.previousStateHash);
+                signedBlock = await this.signBlock(block);
+                this.requireForkNotDisputed();
+
+                this.agreementManager.addBlock(
+                    block,
+                    signedBlock.signature as SignatureLike,
+                    result.encodedState
                 );
+            } catch (e) {
+                // The block is not adopted - undo its transition
+                await this.stateMachine.setState(previousState);
+                throw e;
             }
 
-            const block = await this.createBlock(tx, previousStateHash);
-            const signedBlock = await this.signBlock(block);
-
-            this.agreementManager.addBlock(
-                block,
-                signedBlock.signature as SignatureLike,
-                encodedState
-            );
-
             successCallback();
             await this.onSuccessCommon();
 
@@ -574,6 +585,11 @@ class StateManager {
 
     // ----- Private validation helper methods -----
 
+    private requireForkNotDisputed(): void {
+        if (this.disputeHandler.isForkDisputed(this.getForkCnt()))
+            throw new Error("Current fork is disputed");
+    }
+
     private isChannelOpen(): boolean {
         return this.getForkCnt() !== -1;
     }
-- 
2.43.0


From c09d700baed7b9bfcc792d2cdb494efe48cf0e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 21/60] fix: a repeated or late state event does not reset the
 state machine

---
 src/stateManager/StateManager.ts | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 0ccae7d..312a09e 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -213,13 +213,24 @@ class StateManager {
         _timestamp: BigNumberish
     ): Promise<void> {
         console.log("StateManager - SetState", _forkCnt, _timestamp);
-        await this.stateMachine.setState(encodedState);
-        this.agreementManager.newFork(
-            encodedState,
-            await this.stateMachine.getParticipants(),
-            Number(_forkCnt),
-            Number(_timestamp)
-        );
+        await this.mutex.lock();
+        try {
+            // Forks start in order and only once - events can be repeated
+            if (
+                Number(_forkCnt) !==
+                this.agreementManager.forkService.getNextForkIndex()
+            )
+                return;
+            await this.stateMachine.setState(encodedState);
+            this.agreementManager.newFork(
+                encodedState,
+                await this.stateMachine.getParticipants(),
+                Number(_forkCnt),
+                Number(_timestamp)
+            );
+        } finally {
+            this.mutex.unlock();
+        }
 
         //Try timeout next participant
         this.p2pEventHooks.onSetState?.();
-- 
2.43.0


From 8b1c4aae8381324f9f606373a89ab1ccf295a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 22/60] fix: confirmations that arrive early are queued

---
 src/stateManager/StateManager.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 312a09e..c87fe1d 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -544,8 +544,9 @@ class StateManager {
         const ctx: ConfirmationDecisionContext = {
             isDisposed: this.isDisposed,
             tryConfirmFromQueue: this.tryConfirmFromQueue.bind(this),
-            queueConfirmation:
-                this.agreementManager.queueConfirmation.bind(this)
+            queueConfirmation: this.agreementManager.queueConfirmation.bind(
+                this.agreementManager
+            )
         };
 
         await processConfirmationDecision(
-- 
2.43.0


From f0c199154e28a01dcf34a0b7aeeb7387af74c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 23/60] fix: errors while handling messages and events are
 caught and logged

---
 src/P2PManager.ts                             |  4 +--
 src/StateChannelEventListener.ts              | 16 +++++++-----
 src/rpc/MainRpcService.ts                     | 25 +++++++++++--------
 src/stateManager/StateManager.ts              | 17 +++++++------
 src/stateManager/ValidationService.ts         | 13 +++++-----
 .../processConfirmationDecisionHandlers.ts    | 13 +++++++---
 .../processExecutionDecisionHandlers.ts       | 19 ++++++++------
 7 files changed, 64 insertions(+), 43 deletions(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index 210c330..a636d19 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -53,7 +53,7 @@ class P2PManager implements IOnMessage {
             transport.send(serializedRPC);
         }
     }
-    public onRpc(serializedRpc: string) {
+    public async onRpc(serializedRpc: string) {
         try {
             let rpc = deserializeRpc(serializedRpc);
             if (!rpc) {
@@ -65,7 +65,7 @@ class P2PManager implements IOnMessage {
                 return;
             }
             //TODO! set context - calling socket/profile (ATransport)!
-            this.localRpcService[rpc.method](...rpc.params);
+            await this.localRpcService[rpc.method](...rpc.params);
         } catch (e) {
             //TODO - disconnect from peer
             console.error(e);
diff --git a/src/StateChannelEventListener.ts b/src/StateChannelEventListener.ts
index 618b59f..2e48ac3 100644
--- a/src/StateChannelEventListener.ts
+++ b/src/StateChannelEventListener.ts
@@ -5,6 +5,10 @@ import { DisputeStruct } from "@typechain-types/contracts/V1/DisputeTypes";
 import StateManager from "@/stateManager";
 import P2pEventHooks from "@/P2pEventHooks";
 
+// Nobody awaits event listeners
+const logEventError = (error: unknown) =>
+    console.error("Error handling on-chain event", error);
+
 //TODO - made a PR to ethers.js to fix Deferred Topic Filter
 
 class StateChannelEventListener {
@@ -51,11 +55,9 @@ class StateChannelEventListener {
                 let forkCnt = logObj.args.forkCnt;
                 let timestamp = logObj.args.timestamp; //TODO? - potentially sync clock to this too
                 // console.log("Game created event");
-                await this.stateManager.setState(
-                    encodedState,
-                    forkCnt,
-                    timestamp
-                );
+                await this.stateManager
+                    .setState(encodedState, forkCnt, timestamp)
+                    .catch(logEventError);
             }
         );
         // --------- PostedBlockCalldata event -------------
@@ -93,7 +95,9 @@ class StateChannelEventListener {
             this.disputeUpdateFilter,
             async (logObj) => {
                 let dispute = logObj.args.dispute as DisputeStruct;
-                await this.stateManager.onDisputeUpdate(dispute);
+                await this.stateManager
+                    .onDisputeUpdate(dispute)
+                    .catch(logEventError);
             }
         );
     }
diff --git a/src/rpc/MainRpcService.ts b/src/rpc/MainRpcService.ts
index bf715a8..5ce01ae 100644
--- a/src/rpc/MainRpcService.ts
+++ b/src/rpc/MainRpcService.ts
@@ -51,7 +51,10 @@ class MainRpcService {
     // ********************* InitHandskaheService *********************
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
-        this.initHandshakeService.onInitHandshakeRequest(challengeHash, time);
+        return this.initHandshakeService.onInitHandshakeRequest(
+            challengeHash,
+            time
+        );
     }
 
     public async onInitHandshakeResponse(
@@ -59,7 +62,7 @@ class MainRpcService {
         responseTime: number,
         preferredTransport: TransportType
     ) {
-        this.initHandshakeService.onInitHandshakeResponse(
+        return this.initHandshakeService.onInitHandshakeResponse(
             signature,
             responseTime,
             preferredTransport
@@ -68,33 +71,33 @@ class MainRpcService {
 
     // ********************* WebRTCSetupService *********************
     public async onOfferWebRTC(offer: string) {
-        this.webRTCSetunService.onOfferWebRTC(offer);
+        return this.webRTCSetunService.onOfferWebRTC(offer);
     }
 
     public async onAnswerWebRTC(answer: string) {
-        this.webRTCSetunService.onAnswerWebRTC(answer);
+        return this.webRTCSetunService.onAnswerWebRTC(answer);
     }
 
     public async onIceCandidate(serializedCandidate: string) {
-        this.webRTCSetunService.onIceCandidate(serializedCandidate);
+        return this.webRTCSetunService.onIceCandidate(serializedCandidate);
     }
 
     // ********************* TESTJoinChannelService - TODO! TEST this is only for test *********************
     public async onSignJoinChannelTEST(jcEncoded: string, jcSignature: string) {
-        this.testJoinChannelService.onSignJoinChannelTEST(
+        return this.testJoinChannelService.onSignJoinChannelTEST(
             jcEncoded,
             jcSignature
         );
     }
     // ********************* DHTDiscoveryService - DHT discovery, common topic, leader introduction to specific channelID *********************
     public async onCanJoinLeaderRequest() {
-        this.dhtDiscoveryService.onCanJoinLeaderRequest();
+        return this.dhtDiscoveryService.onCanJoinLeaderRequest();
     }
     public async onCanJoinLeaderResponse(
         channelId: BytesLike,
         participants: AddressLike[]
     ) {
-        this.dhtDiscoveryService.onCanJoinLeaderResponse(
+        return this.dhtDiscoveryService.onCanJoinLeaderResponse(
             channelId,
             participants
         );
@@ -104,7 +107,7 @@ class MainRpcService {
         signedJoinChannel: SignedJoinChannelStruct,
         confirmationSignature?: SignatureLike
     ) {
-        this.joinChannelService.onJoinChannelRequest(
+        return this.joinChannelService.onJoinChannelRequest(
             signedJoinChannel,
             confirmationSignature
         );
@@ -112,14 +115,14 @@ class MainRpcService {
 
     // ********************* StateTransitionService *********************
     public async onSignedBlock(signedBlock: SignedBlockStruct) {
-        this.stateTransitionService.onSignedBlock(signedBlock);
+        return this.stateTransitionService.onSignedBlock(signedBlock);
     }
 
     public async onBlockConfirmation(
         originalSignedBlock: SignedBlockStruct,
         confirmationSignature: BytesLike
     ) {
-        this.stateTransitionService.onBlockConfirmation(
+        return this.stateTransitionService.onBlockConfirmation(
             originalSignedBlock,
             confirmationSignature
         );
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index c87fe1d..3a88e9b 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -123,9 +123,10 @@ class StateManager {
         return this.agreementManager.getNextBlockHeight();
     }
     //Triggered by the On-chain Event Listener when a dispute is emitted on-chain
-    public onDisputeUpdate(dispute: DisputeStruct) {
-        this.disputeHandler.onDispute(dispute);
+    public async onDisputeUpdate(dispute: DisputeStruct): Promise<void> {
+        const handled = this.disputeHandler.onDispute(dispute);
         this.p2pEventHooks.onDisputeUpdate?.(dispute);
+        await handled;
     }
     //Triggered by the On-chain Event Listener when block calldata is posted on-chain
     public collectOnChainBlock(
@@ -454,7 +455,7 @@ class StateManager {
             (Clock.getTimeInSeconds() -
                 this.agreementManager.getLatestBlockTimestamp(forkCnt));
         if (delayTimeSeconds < 0) {
-            this.disputeHandler.createDispute(
+            await this.disputeHandler.createDispute(
                 forkCnt,
                 participantAdr,
                 transactionCnt,
@@ -464,7 +465,7 @@ class StateManager {
         } else {
             scheduleTask(
                 async () => {
-                    this.disputeHandler.createDispute(
+                    await this.disputeHandler.createDispute(
                         forkCnt,
                         participantAdr,
                         transactionCnt,
@@ -484,9 +485,11 @@ class StateManager {
     private async onSuccessCommon() {
         // Immediately schedule a confirm/execute from queue on next tick
         scheduleTask(
-            () => {
-                this.tryConfirmFromQueue();
-                this.tryExecuteFromQueue();
+            async () => {
+                await Promise.all([
+                    this.tryConfirmFromQueue(),
+                    this.tryExecuteFromQueue()
+                ]);
             },
             0,
             "queueProcessing"
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index be5d905..e58d494 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -206,12 +206,13 @@ export default class ValidationService {
         );
         if (flag === ExecutionFlags.DISPUTE) {
             const proof = ProofManager.createBlockTooFarInFutureProof(signed);
-            this.disputeHandler.createDispute(
-                this.getForkCnt(),
-                ethers.ZeroAddress,
-                0,
-                [proof]
-            );
+            this.disputeHandler
+                .createDispute(this.getForkCnt(), ethers.ZeroAddress, 0, [
+                    proof
+                ])
+                .catch((error) =>
+                    console.error("Error disputing a block", error)
+                );
         }
         return flag;
     }
diff --git a/src/stateManager/processConfirmationDecisionHandlers.ts b/src/stateManager/processConfirmationDecisionHandlers.ts
index fdab7e9..5bf0aba 100644
--- a/src/stateManager/processConfirmationDecisionHandlers.ts
+++ b/src/stateManager/processConfirmationDecisionHandlers.ts
@@ -1,6 +1,7 @@
 import { ExecutionFlags } from "@/types";
 import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { SignatureLike } from "ethers";
+import { scheduleTask } from "@/utils";
 
 export interface ConfirmationDecisionContext {
     isDisposed: boolean;
@@ -26,10 +27,14 @@ export const confirmationDecisionHandlers: Record<
         _confirmationSignature,
         ctx
     ) => {
-        setTimeout(async () => {
-            if (ctx.isDisposed) return;
-            ctx.tryConfirmFromQueue();
-        }, 0);
+        scheduleTask(
+            async () => {
+                if (ctx.isDisposed) return;
+                await ctx.tryConfirmFromQueue();
+            },
+            0,
+            "confirmationQueueProcessing"
+        );
     },
 
     // If not ready, queue the confirmation
diff --git a/src/stateManager/processExecutionDecisionHandlers.ts b/src/stateManager/processExecutionDecisionHandlers.ts
index 117cb4e..6e22b38 100644
--- a/src/stateManager/processExecutionDecisionHandlers.ts
+++ b/src/stateManager/processExecutionDecisionHandlers.ts
@@ -12,6 +12,10 @@ export interface DecisionContext {
     forkCount: number;
 }
 
+// Disputes run in the background - the state machine isn't blocked by the chain
+const logDisputeError = (error: unknown) =>
+    console.error("Error disputing a block", error);
+
 const disputeHandlers: Partial<
     Record<
         AgreementFlag,
@@ -19,10 +23,14 @@ const disputeHandlers: Partial<
     >
 > = {
     [AgreementFlag.DOUBLE_SIGN]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeDoubleSign([signedBlock]);
+        ctx.disputeHandler
+            .disputeDoubleSign([signedBlock])
+            .catch(logDisputeError);
     },
     [AgreementFlag.INCORRECT_DATA]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeIncorrectData(signedBlock);
+        ctx.disputeHandler
+            .disputeIncorrectData(signedBlock)
+            .catch(logDisputeError);
     }
 };
 
@@ -48,11 +56,8 @@ export const executionDecisionHandlers: Record<
     [ExecutionFlags.DISCONNECT]: async () => {},
 
     [ExecutionFlags.DISPUTE]: async (signedBlock, agreementFlag, ctx) => {
-        if (agreementFlag == null) {
-            throw new Error(
-                `ExecutionFlags.DISPUTE triggered but no agreementFlag provided`
-            );
-        }
+        // Nothing to prove by agreement - disputed where it was detected
+        if (agreementFlag == null) return;
 
         const disputeHandlerFn = disputeHandlers[agreementFlag];
         if (!disputeHandlerFn) {
-- 
2.43.0


From bb38daf37f3ec4928ccd2de16fc58f8790c4f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 24/60] fix: queued blocks and confirmations of earlier heights
 are processed

---
 src/stateManager/StateManager.ts | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 3a88e9b..4a610b4 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -168,10 +168,18 @@ class StateManager {
         console.log("StateManager - collectOnChainBlock - done");
         this.onSuccessCommon();
     }
+    // Several blocks can be adopted before a queue is processed - earlier heights are processed too
+    private dequeueUpToNextHeight<T>(
+        dequeue: (forkCnt: number, height: number) => T[]
+    ): T[] {
+        const items: T[] = [];
+        for (let height = 0; height <= this.getNextBlockHeight(); height++)
+            items.push(...dequeue(this.getForkCnt(), height));
+        return items;
+    }
     private async tryExecuteFromQueue() {
-        let signedBlocks = this.agreementManager.tryDequeueBlocks(
-            this.getForkCnt(),
-            this.getNextBlockHeight()
+        const signedBlocks = this.dequeueUpToNextHeight((forkCnt, height) =>
+            this.agreementManager.tryDequeueBlocks(forkCnt, height)
         );
 
         for (const signedBlock of signedBlocks) {
@@ -185,10 +193,8 @@ class StateManager {
         }
     }
     private async tryConfirmFromQueue(): Promise<void> {
-        //TODO! race condition and skipping a txCount
-        let confirmations = this.agreementManager.tryDequeueConfirmations(
-            this.getForkCnt(),
-            this.getNextBlockHeight()
+        const confirmations = this.dequeueUpToNextHeight((forkCnt, height) =>
+            this.agreementManager.tryDequeueConfirmations(forkCnt, height)
         );
 
         for (const confirmation of confirmations) {
-- 
2.43.0


From e644e4060acf71a9fa78861745f904831cc469c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:40 +0000
Subject: [PATCH 25/60] fix: incorrect blocks are disputed with proofs that the
 contracts uphold

---
 src/ProofManager.ts                   |  8 +--
 src/stateManager/ValidationService.ts | 83 +++++++++++++++++++--------
 2 files changed, 63 insertions(+), 28 deletions(-)

diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 47774df..600e34e 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -408,21 +408,21 @@ class ProofManager {
 
         const priorEncodedState = this.agreementManager.getEncodedState(
             forkCnt,
-            transactionCnt
+            transactionCnt - 1
         );
 
         if (!priorEncodedState) {
             throw new Error(
-                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt}`
+                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt - 1}`
             );
         }
 
         return {
-            block1: incorrectBlockSigned,
-            block2: {
+            block1: {
                 encodedBlock: EvmUtils.encodeBlock(priorBlock),
                 signature: priorBlockOriginalSignature as string
             },
+            block2: incorrectBlockSigned,
             encodedState: priorEncodedState
         };
     }
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index e58d494..8b3cb86 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -81,11 +81,12 @@ export default class ValidationService {
         if (height < this.getNextHeight()) {
             const agreementFlag = this.agreementManager.checkBlock(signedBlock);
 
-            if (
-                agreementFlag === AgreementFlag.DOUBLE_SIGN ||
-                agreementFlag === AgreementFlag.INCORRECT_DATA
-            ) {
+            if (agreementFlag === AgreementFlag.DOUBLE_SIGN)
                 return dispute(agreementFlag);
+            if (agreementFlag === AgreementFlag.INCORRECT_DATA) {
+                return (await this.isPastTransitionIncorrect(blk))
+                    ? dispute(agreementFlag)
+                    : disconnect();
             }
 
             throw new Error(
@@ -93,6 +94,11 @@ export default class ValidationService {
             );
         }
 
+        // Only a block on top of the current state can be judged - and proven wrong
+        const currentState = await this.stateMachine.getState();
+        if (blk.previousStateHash !== ethers.keccak256(currentState))
+            return disconnect();
+
         // Validate timestamp
         if (!(await this.isGoodTimestamp(blk)))
             return dispute(AgreementFlag.INCORRECT_DATA);
@@ -105,11 +111,10 @@ export default class ValidationService {
 
         // Validate block producer
         const nextToWrite = await this.stateMachine.getNextToWrite();
-        if (BlockUtils.getBlockAuthor(blk) !== nextToWrite)
-            return dispute(AgreementFlag.INCORRECT_DATA);
+        const isAuthorsTurn = BlockUtils.getBlockAuthor(blk) === nextToWrite;
 
         // Process state transition
-        return this.processStateTransition(blk, signedBlock);
+        return this.processStateTransition(blk, signedBlock, isAuthorsTurn);
     }
 
     public async validateBlockConfirmation(
@@ -164,24 +169,20 @@ export default class ValidationService {
 
     private async processStateTransition(
         block: BlockStruct,
-        signed: SignedBlockStruct
+        signed: SignedBlockStruct,
+        isAuthorsTurn: boolean
     ): Promise<ValidationResult> {
         const previousState = await this.stateMachine.getState();
-        const previousStateHash = ethers.keccak256(previousState);
-        let { success: txOK, successCallback } =
-            await this.stateMachine.stateTransition(block.transaction);
+        const { isCorrect, encodedState, successCallback } =
+            await this.executeBlock(block);
 
-        const encodedState = await this.stateMachine.getState();
-        const stateHash = ethers.keccak256(encodedState);
-
-        const hashOK =
-            stateHash === block.stateHash &&
-            previousStateHash === block.previousStateHash;
-
-        if (!txOK || !hashOK) {
+        if (!isCorrect || !isAuthorsTurn) {
             // The block is not adopted - undo its transition
             await this.stateMachine.setState(previousState);
-            return dispute(AgreementFlag.INCORRECT_DATA);
+            // A correct transition out of turn can't be proven wrong
+            return isCorrect
+                ? disconnect()
+                : dispute(AgreementFlag.INCORRECT_DATA);
         }
 
         this.agreementManager.addBlock(
@@ -193,6 +194,42 @@ export default class ValidationService {
         return success();
     }
 
+    /* executes the block on the current state and compares the outcome with what the block claims */
+    private async executeBlock(block: BlockStruct) {
+        const { success, successCallback } =
+            await this.stateMachine.stateTransition(block.transaction);
+        const encodedState = await this.stateMachine.getState();
+        return {
+            isCorrect:
+                success && ethers.keccak256(encodedState) === block.stateHash,
+            encodedState,
+            successCallback
+        };
+    }
+
+    /* does the block extend our chain with a transition that doesn't hold */
+    private async isPastTransitionIncorrect(
+        block: BlockStruct
+    ): Promise<boolean> {
+        const forkCnt = BlockUtils.getFork(block);
+        const height = BlockUtils.getHeight(block);
+        const priorState =
+            height === 0
+                ? this.agreementManager.getForkGenesisStateEncoded(forkCnt)
+                : this.agreementManager.getEncodedState(forkCnt, height - 1);
+        if (
+            !priorState ||
+            block.previousStateHash !== ethers.keccak256(priorState)
+        )
+            return false;
+
+        const currentState = await this.stateMachine.getState();
+        await this.stateMachine.setState(priorState);
+        const { isCorrect } = await this.executeBlock(block);
+        await this.stateMachine.setState(currentState);
+        return !isCorrect;
+    }
+
     /* subjective time window */
     private async isEnoughTimeSubjective(
         signed: SignedBlockStruct,
@@ -230,7 +267,7 @@ export default class ValidationService {
             blockHeight
         );
 
-        if (blockTimestamp < latestTxTs) throw new Error("Not implemented");
+        if (blockTimestamp < latestTxTs) return false;
 
         if (blockTimestamp > initialReferenceTime + this.timeCfg.p2pTime) {
             const chainTs = Number(
@@ -279,9 +316,7 @@ export default class ValidationService {
         if (BlockUtils.getChannelId(block) !== expectedChannelId) return false;
 
         // Only the canonical encoding is later used as evidence
-        if (
-            EvmUtils.encodeBlock(block) !== ethers.hexlify(signed.encodedBlock)
-        )
+        if (EvmUtils.encodeBlock(block) !== ethers.hexlify(signed.encodedBlock))
             return false;
 
         const signer = EvmUtils.tryRetrieveSigner(
-- 
2.43.0


From da25b2c1ee202e0a5f91b4738e898961fe83ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:52 +0000
Subject: [PATCH 26/60] fix: blocks posted on-chain are judged like any other
 block

---
 src/StateChannelEventListener.ts       |  7 ++--
 src/agreementManager/OnChainTracker.ts | 21 +++++-----
 src/stateManager/StateManager.ts       | 54 +++++++++-----------------
 3 files changed, 31 insertions(+), 51 deletions(-)

diff --git a/src/StateChannelEventListener.ts b/src/StateChannelEventListener.ts
index 2e48ac3..f75d097 100644
--- a/src/StateChannelEventListener.ts
+++ b/src/StateChannelEventListener.ts
@@ -77,10 +77,9 @@ class StateChannelEventListener {
                 this.p2pEventHooks.onPostedCalldata?.();
                 let signedBlock = logObj.args.signedBlock as SignedBlockStruct;
                 let timestamp = logObj.args.timestamp as BigNumberish;
-                await this.stateManager.collectOnChainBlock(
-                    signedBlock,
-                    timestamp
-                );
+                await this.stateManager
+                    .collectOnChainBlock(signedBlock, timestamp)
+                    .catch(logEventError);
             }
         );
         // --------- DisputeUpdate event -------------
diff --git a/src/agreementManager/OnChainTracker.ts b/src/agreementManager/OnChainTracker.ts
index cd7ec3a..3eac205 100644
--- a/src/agreementManager/OnChainTracker.ts
+++ b/src/agreementManager/OnChainTracker.ts
@@ -20,24 +20,23 @@ export default class OnChainTracker {
 
     collect(signed: SignedBlockStruct, timestamp: number): AgreementFlag {
         const flag = this.checkBlock(signed);
-        if (
-            flag === AgreementFlag.INVALID_SIGNATURE ||
-            flag === AgreementFlag.INCORRECT_DATA ||
-            flag === AgreementFlag.DOUBLE_SIGN
-        )
-            return flag;
-
-        if (flag === AgreementFlag.READY || flag === AgreementFlag.NOT_READY) {
-            this.queues.queueBlock(signed);
-        }
+        if (flag === AgreementFlag.INVALID_SIGNATURE) return flag;
 
         const blk: BlockStruct = EvmUtils.decodeBlock(signed.encodedBlock);
         const { forkCnt, height } = BlockUtils.getCoordinates(blk);
         const participant = BlockUtils.getBlockAuthor(blk);
 
-        if (!this.hasPosted(forkCnt, height, participant)) {
+        // The chain counts every post of a fork - even of a conflicting block
+        if (
+            this.forks.isValidForkCnt(forkCnt) &&
+            !this.hasPosted(forkCnt, height, participant)
+        ) {
             this.forks.addChainBlock(forkCnt, height, participant, timestamp);
         }
+
+        if (flag === AgreementFlag.READY || flag === AgreementFlag.NOT_READY) {
+            this.queues.queueBlock(signed);
+        }
         return flag;
     }
 
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 4a610b4..72152d0 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -13,10 +13,7 @@ import {
 import AgreementManager from "../agreementManager/AgreementManager";
 import { AgreementFlag, ExecutionFlags, TimeConfig } from "@/types";
 import { AStateChannelManagerProxy } from "@typechain-types";
-import {
-    ProofStruct,
-    DisputeStruct
-} from "@typechain-types/contracts/V1/DisputeTypes";
+import { DisputeStruct } from "@typechain-types/contracts/V1/DisputeTypes";
 import Clock from "@/Clock";
 import DisputeHandler from "@/DisputeHandler";
 import P2PManager from "@/P2PManager";
@@ -129,44 +126,29 @@ class StateManager {
         await handled;
     }
     //Triggered by the On-chain Event Listener when block calldata is posted on-chain
-    public collectOnChainBlock(
+    public async collectOnChainBlock(
         signedBlock: SignedBlockStruct,
         timestamp: BigNumberish
-    ) {
+    ): Promise<void> {
         console.log("StateManager - collectOnChainBlock");
-        let flag = this.agreementManager.collectOnChainBlock(
-            signedBlock,
-            Number(timestamp)
-        );
-        let block = EvmUtils.decodeBlock(signedBlock.encodedBlock);
-        let disputeProof: ProofStruct;
-        if (flag == AgreementFlag.DOUBLE_SIGN) {
-            console.log("StateManager - collectOnChainBlock - double sign");
-            disputeProof =
-                this.disputeHandler.proofManager.createDoubleSignProof([
-                    signedBlock
-                ]);
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                ethers.ZeroAddress,
-                0,
-                [disputeProof]
-            );
-        } else if (flag == AgreementFlag.INCORRECT_DATA) {
-            console.log("StateManager - collectOnChainBlock - incorrect data");
-            disputeProof =
-                this.disputeHandler.proofManager.createIncorrectDataProof(
-                    signedBlock
-                );
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                ethers.ZeroAddress,
-                0,
-                [disputeProof]
+        let flag: AgreementFlag;
+        await this.mutex.lock();
+        try {
+            flag = this.agreementManager.collectOnChainBlock(
+                signedBlock,
+                Number(timestamp)
             );
+        } finally {
+            this.mutex.unlock();
         }
+        // Anybody can post - conflicts are judged (and disputed) like any other block
+        if (
+            flag == AgreementFlag.DOUBLE_SIGN ||
+            flag == AgreementFlag.INCORRECT_DATA
+        )
+            await this.onSignedBlock(signedBlock);
         console.log("StateManager - collectOnChainBlock - done");
-        this.onSuccessCommon();
+        await this.onSuccessCommon();
     }
     // Several blocks can be adopted before a queue is processed - earlier heights are processed too
     private dequeueUpToNextHeight<T>(
-- 
2.43.0


From 29dd8b5c2e447d2ba77d029b5e5cbcfcf512a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 27/60] fix: disputes are challenged with exactly the proofs
 the contracts accept

---
 src/DisputeHandler.ts | 23 ++++++++-------------
 src/ProofManager.ts   | 48 ++++++++++++++++++++++++-------------------
 2 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 5a5e4e8..db20d41 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -159,7 +159,10 @@ class DisputeHandler {
         this.setForkDisputed(forkCntNumber);
         proofs.forEach((proof) => this.addProof(forkCntNumber, proof));
         const _dispute = this.disputes.get(forkCntNumber);
-        if (!_dispute) {
+        if (_dispute) {
+            // The known dispute is challenged with the new proofs
+            this.disputes.delete(forkCntNumber);
+        } else {
             await this.createNewDispute(
                 forkCnt,
                 foldedParticipant,
@@ -235,7 +238,8 @@ class DisputeHandler {
     }
     private addProof(forkCnt: number, proof: ProofStruct): void {
         const proofs = this.localProofs.get(forkCnt) || [];
-        proofs.push(proof);
+        if (!proofs.some((p) => p.encodedProof === proof.encodedProof))
+            proofs.push(proof);
         this.localProofs.set(forkCnt, proofs);
     }
 
@@ -281,7 +285,7 @@ class DisputeHandler {
                 .challengeDispute(
                     this.channelId,
                     dispute.forkCnt,
-                    Number(dispute.challengeCnt) + 1,
+                    dispute.challengeCnt,
                     proofs,
                     virtualVotingBlocks,
                     encodedLatestFinalizedState,
@@ -319,7 +323,8 @@ class DisputeHandler {
             }
         }
         // Handle newer state proof
-        const lastTransactionCnt = this.getLastTransactionCount(dispute);
+        const lastTransactionCnt =
+            ProofManager.getLastTransactionCount(dispute);
         const newerStateProof = this.proofManager.createNewerStateProof(
             forkCnt,
             dispute.postedStateDisputer,
@@ -332,16 +337,6 @@ class DisputeHandler {
         return this.filterProofs(dispute);
     }
 
-    private getLastTransactionCount(dispute: DisputeStruct): number {
-        if (dispute.virtualVotingBlocks.length === 0) return 0;
-
-        // Extract from the last block
-        const lastBlock = EvmUtils.decodeBlock(
-            dispute.virtualVotingBlocks.at(-1)!.encodedBlock
-        );
-        return Number(lastBlock.transaction.header.transactionCnt);
-    }
-
     // Filters valid proofs
     private filterProofs(dispute: DisputeStruct): ProofStruct[] {
         return ProofManager.filterValidProofs(
diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 600e34e..fc02b46 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -1,4 +1,10 @@
-import { ethers, AddressLike, BigNumberish, BytesLike } from "ethers";
+import {
+    ethers,
+    AddressLike,
+    BigNumberish,
+    BytesLike,
+    SignatureLike
+} from "ethers";
 import * as dt from "@typechain-types/contracts/V1/DisputeTypes";
 import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { getEthersTypeForDisputeProof, ProofType } from "@/types/disputes";
@@ -217,7 +223,7 @@ class ProofManager {
         const block = EvmUtils.decodeBlock(foldRechallengeProof.encodedBlock);
         const sameTransactionCnt =
             Number(block.transaction.header.transactionCnt) ===
-            dispute.foldedTransactionCnt;
+            Number(dispute.foldedTransactionCnt);
         const sameParticipant =
             block.transaction.header.participant ===
             dispute.timedoutParticipant;
@@ -271,27 +277,16 @@ class ProofManager {
 
         const block = EvmUtils.decodeBlock(newerStateProof.encodedBlock);
 
-        if (dispute.virtualVotingBlocks.length === 0) return false;
-
-        const latestBlock = EvmUtils.decodeBlock(
-            dispute.virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
-                .encodedBlock
-        );
-
-        const latestTransactionCnt = Number(
-            latestBlock.transaction.header.transactionCnt
-        );
-        const currentTransactionCnt = Number(
-            block.transaction.header.transactionCnt
+        const signer = EvmUtils.retrieveSignerAddressBlock(
+            block,
+            newerStateProof.confirmationSignature as SignatureLike
         );
 
         return (
-            !dispute.slashedParticipants.includes(
-                block.transaction.header.participant
-            ) &&
-            block.transaction.header.participant ===
-                dispute.postedStateDisputer &&
-            currentTransactionCnt > latestTransactionCnt
+            signer === dispute.postedStateDisputer &&
+            !dispute.slashedParticipants.includes(signer) &&
+            Number(block.transaction.header.transactionCnt) >
+                ProofManager.getLastTransactionCount(dispute)
         );
     }
 
@@ -305,7 +300,8 @@ class ProofManager {
         ) as dt.FoldPriorBlockProofStruct;
 
         return (
-            foldPriorBlockProof.transactionCnt < dispute.foldedTransactionCnt &&
+            Number(foldPriorBlockProof.transactionCnt) <
+                Number(dispute.foldedTransactionCnt) &&
             dispute.timedoutParticipant !== ethers.ZeroAddress
         );
     }
@@ -362,6 +358,16 @@ class ProofManager {
         });
     }
 
+    /** Height of the last block of the disputed history, -1 if it's genesis */
+    public static getLastTransactionCount(dispute: dt.DisputeStruct): number {
+        if (dispute.virtualVotingBlocks.length === 0) return -1;
+
+        const lastBlock = EvmUtils.decodeBlock(
+            dispute.virtualVotingBlocks.at(-1)!.encodedBlock
+        );
+        return Number(lastBlock.transaction.header.transactionCnt);
+    }
+
     // ===== Private Helper Methods =====
 
     private createGenesisBlockIncorrectDataProof(
-- 
2.43.0


From a24b643d532bd0c6df65301755a1cb6326dea238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 28/60] fix: participants are only timed out while their block
 is missing

---
 src/stateManager/StateManager.ts | 51 ++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 72152d0..5bbf6b2 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -407,10 +407,7 @@ class StateManager {
         participantAdr: string
     ) {
         if (participantAdr == this.signerAddress) return;
-        const block = this.agreementManager.getBlock(forkCnt, transactionCnt);
-        if (block) {
-            if (this.agreementManager.didEveryoneSignBlock(block)) return;
-        }
+        if (!this.isBlockMissing(forkCnt, transactionCnt)) return;
         //if there is no block -> check if player posted on chain and try timeout
         if (
             this.agreementManager.didParticipantPostOnChain(
@@ -442,32 +439,40 @@ class StateManager {
             this.getTimeoutWaitTimeSeconds() -
             (Clock.getTimeInSeconds() -
                 this.agreementManager.getLatestBlockTimestamp(forkCnt));
-        if (delayTimeSeconds < 0) {
-            await this.disputeHandler.createDispute(
-                forkCnt,
-                participantAdr,
-                transactionCnt,
-                []
-            );
-            console.log("Timeout participant!");
-        } else {
+        if (delayTimeSeconds > 0) {
             scheduleTask(
-                async () => {
-                    await this.disputeHandler.createDispute(
+                () =>
+                    this.tryTimeoutParticipant(
                         forkCnt,
-                        participantAdr,
                         transactionCnt,
-                        []
-                    );
-                    console.log(
-                        "Timeout participant! - delayed",
-                        delayTimeSeconds
-                    );
-                },
+                        participantAdr
+                    ),
                 delayTimeSeconds * 1000,
                 "timeoutParticipantDelayed"
             );
+            return;
         }
+        //The block may have arrived in the meantime
+        if (!this.isBlockMissing(forkCnt, transactionCnt)) return;
+        console.log("Timeout participant!");
+        await this.disputeHandler.createDispute(
+            forkCnt,
+            participantAdr,
+            transactionCnt,
+            []
+        );
+    }
+
+    // Is the current, undisputed fork (that we take part in) waiting for this block
+    private isBlockMissing(forkCnt: number, transactionCnt: number): boolean {
+        return (
+            forkCnt === this.getForkCnt() &&
+            !this.disputeHandler.isForkDisputed(forkCnt) &&
+            this.agreementManager.isParticipantInLatestFork(
+                this.signerAddress
+            ) &&
+            !this.agreementManager.getBlock(forkCnt, transactionCnt)
+        );
     }
 
     private async onSuccessCommon() {
-- 
2.43.0


From ce95dfd5135027c9f0723f26362d61698421844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 29/60] fix: blocks posted on-chain are passed on in a form
 that peers can read

---
 src/StateChannelEventListener.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/StateChannelEventListener.ts b/src/StateChannelEventListener.ts
index f75d097..a1b2400 100644
--- a/src/StateChannelEventListener.ts
+++ b/src/StateChannelEventListener.ts
@@ -75,7 +75,12 @@ class StateChannelEventListener {
             async (logObj: any) => {
                 console.log("BlockCalldataPosted EVENT !!!!!!!!!!!");
                 this.p2pEventHooks.onPostedCalldata?.();
-                let signedBlock = logObj.args.signedBlock as SignedBlockStruct;
+                // A plain object - an ethers Result is serialised as an array
+                const { encodedBlock, signature } = logObj.args.signedBlock;
+                let signedBlock: SignedBlockStruct = {
+                    encodedBlock,
+                    signature
+                };
                 let timestamp = logObj.args.timestamp as BigNumberish;
                 await this.stateManager
                     .collectOnChainBlock(signedBlock, timestamp)
-- 
2.43.0


From 90ac307dfd5e8b20ba77e7fe49f40ab134c21ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 30/60] fix: only authentic blocks and confirmations wait for
 the channel to open

---
 src/stateManager/ValidationService.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 8b3cb86..9fef8fe 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -48,12 +48,12 @@ export default class ValidationService {
         const forkCnt = BlockUtils.getFork(blk);
         const height = BlockUtils.getHeight(blk);
 
-        if (!this.isChannelOpen()) return notReady();
-
-        // Validate block
+        // Validate block - only authentic blocks are queued
         if (!this.isSignedBlockAuthentic(signedBlock, blk, this.getChannelId()))
             return disconnect();
 
+        if (!this.isChannelOpen()) return notReady();
+
         // Check fork status
         if (
             this.isPastFork(forkCnt) ||
@@ -124,7 +124,6 @@ export default class ValidationService {
     ): Promise<ValidationResult> {
         const blk = block ?? EvmUtils.decodeBlock(signed.encodedBlock);
 
-        if (!this.isChannelOpen()) return notReady();
         if (!this.isSignedBlockAuthentic(signed, blk, this.getChannelId()))
             return disconnect();
         const confirmer = EvmUtils.tryRetrieveSigner(
@@ -132,6 +131,7 @@ export default class ValidationService {
             confirmationSig
         );
         if (!confirmer) return disconnect();
+        if (!this.isChannelOpen()) return notReady();
         if (this.isPastFork(BlockUtils.getFork(blk))) return pastFork();
 
         // Ensure block in chain
-- 
2.43.0


From 2629ebeb3cd935b077b67cd5737309b451ffe4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 31/60] fix: blocks that arrive before the channel is open are
 kept

---
 src/agreementManager/AgreementManager.ts | 4 ++++
 src/stateManager/StateManager.ts         | 2 +-
 src/stateManager/ValidationService.ts    | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/agreementManager/AgreementManager.ts b/src/agreementManager/AgreementManager.ts
index 83dee02..0b2d6a2 100644
--- a/src/agreementManager/AgreementManager.ts
+++ b/src/agreementManager/AgreementManager.ts
@@ -89,6 +89,10 @@ class AgreementManager {
     public getLatestForkCnt(): number {
         return this.forkService.getLatestForkCnt();
     }
+    //The first fork is the one that opens the channel
+    public isChannelOpen(): boolean {
+        return this.forkService.getNextForkIndex() > 0;
+    }
     public getNextBlockHeight(): number {
         return this.forkService.getNextBlockHeight();
     }
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 5bbf6b2..5f6cd8f 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -599,7 +599,7 @@ class StateManager {
     }
 
     private isChannelOpen(): boolean {
-        return this.getForkCnt() !== -1;
+        return this.agreementManager.isChannelOpen();
     }
 }
 
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 9fef8fe..97bbeac 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -293,7 +293,7 @@ export default class ValidationService {
         return this.agreementManager.getLatestForkCnt();
     }
     private isChannelOpen(): boolean {
-        return this.getForkCnt() >= 0;
+        return this.agreementManager.isChannelOpen();
     }
     private isPastFork(f: number): boolean {
         return f < this.getForkCnt();
-- 
2.43.0


From 7acf4df37987bf83c04bead43f58805fcbf34758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 32/60] fix: a fork can be disputed once the dispute of an
 earlier fork is over

Misbehaviour in a fork that starts while the previous dispute can still be
challenged left the node without a dispute, and unwilling to go on in the fork.
---
 src/DisputeHandler.ts | 57 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index db20d41..11e7389 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -6,7 +6,8 @@ import {
     DisputeStruct
 } from "@typechain-types/contracts/V1/DisputeTypes";
 import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
-import { EvmUtils, DebugProxy, retry } from "@/utils";
+import { EvmUtils, DebugProxy, retry, scheduleTask } from "@/utils";
+import Clock from "@/Clock";
 import P2pEventHooks from "@/P2pEventHooks";
 import ProofManager from "./ProofManager";
 
@@ -163,12 +164,27 @@ class DisputeHandler {
             // The known dispute is challenged with the new proofs
             this.disputes.delete(forkCntNumber);
         } else {
-            await this.createNewDispute(
-                forkCnt,
-                foldedParticipant,
-                foldedTransactionCnt,
-                proofs
-            );
+            try {
+                await this.createNewDispute(
+                    forkCnt,
+                    foldedParticipant,
+                    foldedTransactionCnt,
+                    proofs
+                );
+            } catch (error) {
+                const isScheduled = await this.scheduleAfterPriorDispute(
+                    forkCntNumber,
+                    () =>
+                        this.createDispute(
+                            forkCnt,
+                            foldedParticipant,
+                            foldedTransactionCnt,
+                            proofs
+                        )
+                );
+                if (isScheduled) return;
+                throw error;
+            }
         }
 
         const newDispute = await this.stateChannelManagerContract.getDispute(
@@ -183,6 +199,33 @@ class DisputeHandler {
         await this.rechallengeRecursive(newDispute);
     }
 
+    // A fork can't be disputed before the dispute of an earlier fork is over
+    private async scheduleAfterPriorDispute(
+        forkCnt: number,
+        dispute: () => Promise<void>
+    ): Promise<boolean> {
+        const priorDispute = await this.stateChannelManagerContract.getDispute(
+            this.channelId
+        );
+        const secondsLeft =
+            Number(priorDispute.deadlineTimestamp) +
+            1 -
+            Clock.getTimeInSeconds();
+        if (Number(priorDispute.forkCnt) >= forkCnt || secondsLeft <= 0)
+            return false;
+
+        scheduleTask(
+            async () => {
+                // Settled by a challenge of the earlier dispute?
+                if (forkCnt === this.agreementManager.getLatestForkCnt())
+                    await dispute();
+            },
+            secondsLeft * 1000,
+            "disputeAfterPriorDispute"
+        );
+        return true;
+    }
+
     private async createNewDispute(
         forkCnt: BigNumberish,
         foldedParticipant: AddressLike,
-- 
2.43.0


From 4d66c6c2aa992778e86ada8107d8db88580b1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 33/60] fix: only participants of a fork dispute it

The contracts refuse disputes and challenges of anybody else.
---
 src/DisputeHandler.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 11e7389..4a4c27a 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -164,6 +164,13 @@ class DisputeHandler {
             // The known dispute is challenged with the new proofs
             this.disputes.delete(forkCntNumber);
         } else {
+            // Only participants are heard
+            if (
+                !this.agreementManager.isParticipantInLatestFork(
+                    this.signerAddress
+                )
+            )
+                return;
             try {
                 await this.createNewDispute(
                     forkCnt,
@@ -352,6 +359,9 @@ class DisputeHandler {
 
     // Extracts dispute proofs to be tracked locally
     private extractProofs(dispute: DisputeStruct): ProofStruct[] {
+        // Only participants are heard
+        if (!dispute.participants.includes(this.signerAddress)) return [];
+
         const forkCnt = Number(dispute.forkCnt);
         const transactionCnt = Number(dispute.foldedTransactionCnt);
 
-- 
2.43.0


From c76c8ee0f326a04e2a91929e239a7845b3388269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 34/60] fix: confirmations that had to wait are passed on too

---
 src/stateManager/StateManager.ts | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 5f6cd8f..45e46a9 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -180,14 +180,21 @@ class StateManager {
         );
 
         for (const confirmation of confirmations) {
-            if (
-                (await this.onBlockConfirmation(
-                    confirmation.originalSignedBlock,
-                    confirmation.confirmationSignature as string
-                )) == ExecutionFlags.DISPUTE
-            ) {
+            const flag = await this.onBlockConfirmation(
+                confirmation.originalSignedBlock,
+                confirmation.confirmationSignature as string
+            );
+            if (flag == ExecutionFlags.DISPUTE) {
                 break;
             }
+            // Passed on like one that didn't have to wait
+            if (flag == ExecutionFlags.SUCCESS)
+                this.p2pManager.rpcProxy
+                    .onBlockConfirmation(
+                        confirmation.originalSignedBlock,
+                        confirmation.confirmationSignature as string
+                    )
+                    .broadcast();
         }
     }
     /**
-- 
2.43.0


From c6f6b09b2ff4341ff55f8aeab5a5bb473ce2e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 35/60] fix: different blocks that one author sends ahead are
 all kept and judged

---
 src/agreementManager/QueueService.ts | 35 ++++++++++++++++------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/agreementManager/QueueService.ts b/src/agreementManager/QueueService.ts
index eda6eb6..ade1234 100644
--- a/src/agreementManager/QueueService.ts
+++ b/src/agreementManager/QueueService.ts
@@ -7,15 +7,15 @@ import { BlockUtils, EvmUtils } from "@/utils";
 
 type ForkCnt = number;
 type Height = number;
-type Adr = string;
+type Key = string; // somebody can send different blocks for one height
 
-export type Queue<T> = Map<ForkCnt, Map<Height, Map<Adr, T>>>;
+export type Queue<T> = Map<ForkCnt, Map<Height, Map<Key, T>>>;
 
 function insertNestedMapWithOverwrite<T>(
     forkMap: Queue<T>,
     forkCnt: ForkCnt,
     height: Height,
-    address: Adr,
+    key: Key,
     element: T
 ) {
     if (!forkMap.has(forkCnt)) {
@@ -25,9 +25,9 @@ function insertNestedMapWithOverwrite<T>(
     if (!heightMap.has(height)) {
         heightMap.set(height, new Map());
     }
-    const addressMap = heightMap.get(height)!;
-
-    addressMap.set(address, element);
+    const elements = heightMap.get(height)!;
+    elements.delete(key); // the latest one comes last
+    elements.set(key, element);
 }
 
 export default class QueueService {
@@ -39,12 +39,11 @@ export default class QueueService {
     queueBlock(sb: SignedBlockStruct): void {
         const block = EvmUtils.decodeBlock(sb.encodedBlock);
         const { forkCnt, height } = BlockUtils.getCoordinates(block);
-        const participant = BlockUtils.getBlockAuthor(block);
         insertNestedMapWithOverwrite(
             this.blockQ,
             forkCnt,
             height,
-            participant,
+            EvmUtils.encodeBlock(block),
             sb
         );
     }
@@ -77,7 +76,7 @@ export default class QueueService {
             this.confQ,
             forkCnt,
             height,
-            confirmationSigner,
+            confirmationSigner + EvmUtils.encodeBlock(block),
             blockConfirmation
         );
     }
@@ -98,13 +97,19 @@ export default class QueueService {
         return blockConfirmations;
     }
 
+    /** Is it the latest block that its author has in the queue for this height */
     isBlockQueued(block: BlockStruct): boolean {
         const { forkCnt, height } = BlockUtils.getCoordinates(block);
-        const participant = BlockUtils.getBlockAuthor(block);
-
-        const stored = this.blockQ.get(forkCnt)?.get(height)?.get(participant);
-        return stored
-            ? stored.encodedBlock === EvmUtils.encodeBlock(block)
-            : false;
+        const author = BlockUtils.getBlockAuthor(block);
+
+        const queued = Array.from(
+            this.blockQ.get(forkCnt)?.get(height)?.keys() ?? []
+        ).filter(
+            (encodedBlock) =>
+                BlockUtils.getBlockAuthor(
+                    EvmUtils.decodeBlock(encodedBlock)
+                ) === author
+        );
+        return queued.pop() === EvmUtils.encodeBlock(block);
     }
 }
-- 
2.43.0


From 9ed834fd96bd0306b5b639885ff292f4641bba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 36/60] fix: calls to the local state machine run one at a time

---
 src/evm/ContractExecuter.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/evm/ContractExecuter.ts b/src/evm/ContractExecuter.ts
index 8c2f88e..ca9c4ae 100644
--- a/src/evm/ContractExecuter.ts
+++ b/src/evm/ContractExecuter.ts
@@ -1,10 +1,13 @@
 import { EVM, EVMResult, ExecResult } from "@ethereumjs/evm";
 import { Address } from "@ethereumjs/util";
 import { BytesLike, ethers } from "ethers";
+import { Mutex } from "@/utils";
 
 export default class ContractExecuter {
     private readonly evm: EVM;
     private readonly contractAddress: Address;
+    // All calls share one journaled state - overlapping runs would corrupt it
+    private readonly mutex = new Mutex();
 
     constructor(evm: EVM, contractAddress: Address) {
         this.evm = evm;
@@ -12,6 +15,15 @@ export default class ContractExecuter {
     }
 
     async executeCall(data: BytesLike): Promise<ExecResult> {
+        await this.mutex.lock();
+        try {
+            return await this.run(data);
+        } finally {
+            this.mutex.unlock();
+        }
+    }
+
+    private async run(data: BytesLike): Promise<ExecResult> {
         const result = await this.evm.runCall({
             data: ethers.getBytes(data),
             to: this.contractAddress
-- 
2.43.0


From 3d84bb9f9935d5f632aae03849e3a5908d752d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 37/60] fix: runView discards the state changes it makes

---
 src/evm/ContractExecuter.ts | 15 +++++++++++++++
 src/evm/EvmStateMachine.ts  |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/evm/ContractExecuter.ts b/src/evm/ContractExecuter.ts
index ca9c4ae..c513472 100644
--- a/src/evm/ContractExecuter.ts
+++ b/src/evm/ContractExecuter.ts
@@ -23,6 +23,21 @@ export default class ContractExecuter {
         }
     }
 
+    /** Executes a call and discards every state change it made */
+    async executeView(data: BytesLike): Promise<ExecResult> {
+        await this.mutex.lock();
+        try {
+            await this.evm.journal.checkpoint();
+            try {
+                return await this.run(data);
+            } finally {
+                await this.evm.journal.revert();
+            }
+        } finally {
+            this.mutex.unlock();
+        }
+    }
+
     private async run(data: BytesLike): Promise<ExecResult> {
         const result = await this.evm.runCall({
             data: ethers.getBytes(data),
diff --git a/src/evm/EvmStateMachine.ts b/src/evm/EvmStateMachine.ts
index bc2cd6e..ed95d19 100644
--- a/src/evm/EvmStateMachine.ts
+++ b/src/evm/EvmStateMachine.ts
@@ -101,7 +101,7 @@ class EvmStateMachine extends AStateMachine {
 
     async runView(tx: ethers.TransactionRequest): Promise<string> {
         try {
-            const result = await this.contractExecuter.executeCall(
+            const result = await this.contractExecuter.executeView(
                 tx.data as BytesLike
             );
             return hexlify(result.returnValue);
-- 
2.43.0


From b3ac01743130a24f61603d4dd8f58d37a821bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:59 +0000
Subject: [PATCH 38/60] fix: handshake signatures can't be used as signatures
 on blocks

---
 src/rpc/services/InitHandshakeService.ts | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 8450d8b..e14b599 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -51,10 +51,9 @@ class InitHandshakeService extends ARpcService {
         console.log(
             `onInitHandshakeRequest - localTime:${localTime} time:${time}`
         );
-        let challengeHashBytes = ethers.getBytes(challengeHash);
         let signature =
             await this.mainRpcService.p2pManager.p2pSigner.signMessage(
-                challengeHashBytes
+                this.getChallengeMessage(challengeHash)
             );
         console.log(`onInitHandshakeRequest - done`);
         this.mainRpcService.rpcProxy
@@ -99,8 +98,10 @@ class InitHandshakeService extends ARpcService {
             return;
         }
         //verify signature
-        let challengeHashBytes = ethers.getBytes(challenge.randomChallengeHash);
-        let signerAddress = ethers.verifyMessage(challengeHashBytes, signature);
+        let signerAddress = ethers.verifyMessage(
+            this.getChallengeMessage(challenge.randomChallengeHash),
+            signature
+        );
         // let p =
         //     this.p2pManager.profileManager.getProfileByEvmAddress(
         //         signerAddress
@@ -152,6 +153,16 @@ class InitHandshakeService extends ARpcService {
         //     .broadcast();
     }
 
+    // What is signed for a peer must be of no use as anything else, whatever challenge it sends (eg. the hash of a block)
+    private getChallengeMessage(challengeHash: string): Uint8Array {
+        return ethers.getBytes(
+            ethers.solidityPackedKeccak256(
+                ["string", "bytes"],
+                ["state-channels-plus handshake", challengeHash]
+            )
+        );
+    }
+
     private setChallenge(
         transport: ATransport,
         challenge: ConnectionChallenge
-- 
2.43.0


From 7035546b3cf936d71952001f9479612c7b15f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 39/60] fix: a handshake request is answered on the connection
 it came from

---
 src/rpc/services/InitHandshakeService.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index e14b599..73d859d 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -31,6 +31,8 @@ class InitHandshakeService extends ARpcService {
     }
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
+        // catch it here since async call below
+        let senderTransport = this.mainRpcService.senderTransport!;
         let localTime = Clock.getTimeInSeconds();
         if (
             Math.abs(time - localTime) >
@@ -62,7 +64,7 @@ class InitHandshakeService extends ARpcService {
                 localTime,
                 this.mainRpcService.p2pManager.preferredTransport
             )
-            .sendOne(this.mainRpcService.senderTransport!);
+            .sendOne(senderTransport);
     }
 
     public async onInitHandshakeResponse(
-- 
2.43.0


From dd5a0da7ed0b4600b1e79e1332a427e519297532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 40/60] fix: a handshake without a time is refused

---
 src/rpc/services/InitHandshakeService.ts | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 73d859d..19cbce1 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -35,8 +35,11 @@ class InitHandshakeService extends ARpcService {
         let senderTransport = this.mainRpcService.senderTransport!;
         let localTime = Clock.getTimeInSeconds();
         if (
-            Math.abs(time - localTime) >
-            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime
+            !(
+                Math.abs(time - localTime) <=
+                this.mainRpcService.p2pManager.stateManager.timeConfig
+                    .agreementTime
+            )
         ) {
             //TODO!
             //Disconnect & resolve(false)
@@ -92,8 +95,11 @@ class InitHandshakeService extends ARpcService {
             return;
         }
         if (
-            Math.abs(responseTime - challenge.initTime) >
-            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime
+            !(
+                Math.abs(responseTime - challenge.initTime) <=
+                this.mainRpcService.p2pManager.stateManager.timeConfig
+                    .agreementTime
+            )
         ) {
             // TODO! Disconnect
             this.mainRpcService.p2pManager.removeConnection(senderTransport);
-- 
2.43.0


From 032ed1eeb739aedfcc7afdc7a5a1eaec846b0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:22 +0000
Subject: [PATCH 41/60] fix: a handshake challenge can be answered only once

---
 src/rpc/services/InitHandshakeService.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 19cbce1..cee48ec 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -84,6 +84,8 @@ class InitHandshakeService extends ARpcService {
             this.mainRpcService.p2pManager.removeConnection(senderTransport);
             return;
         }
+        // A challenge can be answered only once
+        this.mapTransportToChallenge.delete(senderTransport);
         let localTime = Clock.getTimeInSeconds();
         let rtt = localTime - challenge.initTime;
         if (
-- 
2.43.0


From 1f4b860902f1381c4c41c3ea02b92d4950b7e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 42/60] fix: a connection that fails to send doesn't keep a
 broadcast from the others

---
 src/P2PManager.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index a636d19..feb461b 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -50,7 +50,12 @@ class P2PManager implements IOnMessage {
     public broadcastRpc(serializedRPC: string) {
         // BroadcastLocal.broadcast(serializedRPC);
         for (let transport of this.openConnections) {
-            transport.send(serializedRPC);
+            try {
+                transport.send(serializedRPC);
+            } catch (e) {
+                // a broken connection must not keep the others from being served
+                console.error(e);
+            }
         }
     }
     public async onRpc(serializedRpc: string) {
-- 
2.43.0


From 291534c0b86963cbb0084e858eef5995729dc1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:40 +0000
Subject: [PATCH 43/60] fix: removing a connection closes it, also before its
 handshake is completed

---
 src/P2PManager.ts               | 2 ++
 src/transport/LocalTransport.ts | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index feb461b..5404947 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -96,6 +96,8 @@ class P2PManager implements IOnMessage {
         );
         let profile = this.profileManager.getProfileByTransport(transport);
         profile && this.profileManager.removeTransport(transport);
+        // without a profile (handshake not completed), too
+        transport.close();
     }
     public disconnectAll() {
         for (let transport of this.openConnections) {
diff --git a/src/transport/LocalTransport.ts b/src/transport/LocalTransport.ts
index 0358cdc..5bb0c88 100644
--- a/src/transport/LocalTransport.ts
+++ b/src/transport/LocalTransport.ts
@@ -23,7 +23,7 @@ class LocalTransport extends ATransport {
         this.p2pManager.onRpc(serializedRPC);
     }
     _close(): void {
-        throw new Error("Method not implemented."); //TODO!S
+        this.ws.close();
     }
 }
 export default LocalTransport;
-- 
2.43.0


From 1e118014ec39350f81d878ee71967f3e14c1c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 44/60] fix: a profile forgets a removed transport, and keeps
 one that it is updated with again

---
 src/ProfileManager.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ProfileManager.ts b/src/ProfileManager.ts
index d47d212..75d76f7 100644
--- a/src/ProfileManager.ts
+++ b/src/ProfileManager.ts
@@ -37,6 +37,7 @@ class ProfileManager {
         let profile = this.mapEvmAddressToProfile.get(profileAddress);
         if (!profile) return;
         let oldTransport = profile.getTransport();
+        if (oldTransport === newTransport) return;
         if (oldTransport) this.removeTransport(oldTransport);
         profile.setTransport(newTransport);
         this.mapTransportToProfile.set(newTransport, profile);
@@ -45,6 +46,10 @@ class ProfileManager {
         let profile = this.mapTransportToProfile.get(transport);
         if (!profile) return;
         this.mapTransportToProfile.delete(transport);
+        if (profile.getTransport() === transport) {
+            profile.removeTransport();
+            profile.setIsHandshakeCompleted(false);
+        }
         transport.close();
     }
     public getProfileByTransport(
-- 
2.43.0


From 5d25c06798623f4e2ad4635a1207c3fd99115096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 45/60] fix: a connection that ends or fails is removed and
 doesn't end the process

---
 src/transport/HolepunchTransport.ts | 4 ++++
 src/transport/LocalTransport.ts     | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/transport/HolepunchTransport.ts b/src/transport/HolepunchTransport.ts
index 42e955a..22101eb 100644
--- a/src/transport/HolepunchTransport.ts
+++ b/src/transport/HolepunchTransport.ts
@@ -28,6 +28,10 @@ class HolepunchTransport extends ATransport {
         this.holepunchSocket.on("close", () => {
             this.close();
         });
+        // an error without a listener would end the process
+        this.holepunchSocket.on("error", () => {
+            this.close();
+        });
     }
     send(serializedRPC: string): void {
         console.log("SENDING RPC", serializedRPC);
diff --git a/src/transport/LocalTransport.ts b/src/transport/LocalTransport.ts
index 5bb0c88..f1669bb 100644
--- a/src/transport/LocalTransport.ts
+++ b/src/transport/LocalTransport.ts
@@ -13,6 +13,13 @@ class LocalTransport extends ATransport {
         this.ws.on("message", async (data: any) => {
             this.onMessage(data);
         });
+        this.ws.on("close", () => {
+            this.p2pManager.removeConnection(this);
+        });
+        // an error without a listener would end the process
+        this.ws.on("error", () => {
+            this.p2pManager.removeConnection(this);
+        });
     }
     send(serializedRPC: string): void {
         this.ws.send(serializedRPC);
-- 
2.43.0


From 3deba6ef02ff8c8ea9ca8b32290d621b52b75a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 46/60] fix: WebRTC candidates go to the peer that the
 connection is set up with

---
 src/rpc/services/WebRTCSetupService.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rpc/services/WebRTCSetupService.ts b/src/rpc/services/WebRTCSetupService.ts
index c6d88ce..e07efcb 100644
--- a/src/rpc/services/WebRTCSetupService.ts
+++ b/src/rpc/services/WebRTCSetupService.ts
@@ -15,6 +15,7 @@ class WebRTCSetupService extends ARpcService {
         //TODO! - require seccusfull init handshake (also on other methods)
         try {
             console.log("initiateWebRTC");
+            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let connection = new RTCPeerConnection();
             let channel = connection.createDataChannel("webRTC-DataChannel");
             let webRTCTransport = new WebRTCTransport(
@@ -28,11 +29,10 @@ class WebRTCSetupService extends ARpcService {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
-                        .sendOne(this.mainRpcService.senderTransport!);
+                        .sendOne(senderTransport!);
                 }
             };
 
-            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let offer = await connection.createOffer();
             connection.setLocalDescription(offer);
             let adr =
@@ -53,6 +53,7 @@ class WebRTCSetupService extends ARpcService {
     //Ran by the peer who is responding to the connection - this creates the answer
     public async onOfferWebRTC(serializedOffer: string) {
         try {
+            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let connection = new RTCPeerConnection();
             // Handle ICE candidates
             connection.onicecandidate = (event: any) => {
@@ -60,7 +61,7 @@ class WebRTCSetupService extends ARpcService {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
-                        .sendOne(this.mainRpcService.senderTransport!);
+                        .sendOne(senderTransport!);
                 }
             };
             connection.ondatachannel = (event: any) => {
@@ -70,7 +71,6 @@ class WebRTCSetupService extends ARpcService {
                     this.mainRpcService.p2pManager
                 );
             };
-            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let adr =
                 this.mainRpcService.p2pManager.profileManager.getProfileByTransport(
                     senderTransport!
-- 
2.43.0


From 89df1c741da9d1f16634ca41efaac256bd508336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 47/60] fix: a node's confirmation of a join request counts as
 its own

---
 src/rpc/services/JoinChannelService.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index c69272d..a58134f 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -43,7 +43,10 @@ class JoinChannelService extends ARpcService {
                     this.mainRpcService.p2pManager.p2pSigner
                 );
                 this.joinChannelMap.tryInsert(key, {
-                    signerAddress: jc.participant.toString(),
+                    signerAddress: EvmUtils.retrieveSignerAddressJoinChannel(
+                        jc,
+                        mySignedJC.signature as SignatureLike
+                    ),
                     signature: mySignedJC.signature as SignatureLike
                 });
                 this.mainRpcService.rpcProxy
-- 
2.43.0


From 48fc990904c6b50b58b5b3af3c8d2fddceba9dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 48/60] fix: the confirmation that a join request arrives with
 is not lost

---
 src/rpc/services/JoinChannelService.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index a58134f..a0d3f56 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -58,7 +58,7 @@ class JoinChannelService extends ARpcService {
                 setTimeout(() => {
                     this.joinChannelMap.delete(key); // prune expired
                 }, timeRemaining * 1000);
-                return;
+                // it may carry a confirmation already
             }
             //confirmation logic
             if (!confirmationSignature) return;
-- 
2.43.0


From 9821c0607e77524d21e00f345243a6052868b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 49/60] fix: a join request with a far deadline isn't forgotten
 at once (and confirmed for ever)

---
 src/rpc/services/JoinChannelService.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index a0d3f56..dd1f595 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -9,6 +9,9 @@ type JoinChanenelConfirmation = {
     confirmationSignatures: SignatureLike[];
 };
 
+// Longer timeouts fire at once
+const MAX_TIMEOUT = 2 ** 31 - 1;
+
 class JoinChannelService extends ARpcService {
     // **** part of joinChannel logic ****
     joinChannelMap = new SignatureCollectionMap();
@@ -55,9 +58,12 @@ class JoinChannelService extends ARpcService {
                         mySignedJC.signature as SignatureLike
                     )
                     .broadcast();
-                setTimeout(() => {
-                    this.joinChannelMap.delete(key); // prune expired
-                }, timeRemaining * 1000);
+                setTimeout(
+                    () => {
+                        this.joinChannelMap.delete(key); // prune expired
+                    },
+                    Math.min(timeRemaining * 1000, MAX_TIMEOUT)
+                );
                 // it may carry a confirmation already
             }
             //confirmation logic
-- 
2.43.0


From 18ee30bc2b5db5150a871e1e223e11610471b162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:13 +0000
Subject: [PATCH 50/60] fix: a confirmed join request is queued once, with the
 current participants' signatures only

---
 src/rpc/services/JoinChannelService.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index dd1f595..e3e04ee 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -82,12 +82,23 @@ class JoinChannelService extends ARpcService {
 
             if (!this.joinChannelMap.didEveryoneSign(key, currentParticipants))
                 return;
+            if (
+                this.joinChannelQueue.some(
+                    (x) =>
+                        x.signedJoinChannel.encodedJoinChannel.toString() ===
+                        key
+                )
+            )
+                return;
             this.joinChannelQueue.push({
                 signedJoinChannel,
                 confirmationSignatures: this.joinChannelMap
                     .get(key)
+                    .filter((x) =>
+                        currentParticipants.includes(x.signerAddress)
+                    )
                     .map((x) => x.signature)
-            }); //TODO! only pick signatures of current participants
+            });
         } catch (e) {
             console.log(e);
             return;
-- 
2.43.0


From cfc9e7f74e1b521a93ec030d0f828a8b8df59ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 51/60] fix: join requests and their confirmations are only
 accepted in the form the contracts accept

---
 src/rpc/services/JoinChannelService.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index e3e04ee..b788441 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -30,13 +30,15 @@ class JoinChannelService extends ARpcService {
             let jc = EvmUtils.decodeJoinChannel(
                 signedJoinChannel.encodedJoinChannel
             );
+            // Only the form that the contracts accept
+            if (EvmUtils.encodeJoinChannel(jc) !== key) return;
             if (!this.joinChannelMap.has(key)) {
                 let timeRemaining =
                     Number(jc.deadlineTimestamp) - Clock.getTimeInSeconds();
                 if (timeRemaining <= 0) return;
-                let retrivedAddress = EvmUtils.retrieveSignerAddressJoinChannel(
-                    jc,
-                    signedJoinChannel.signature as SignatureLike
+                let retrivedAddress = EvmUtils.tryRetrieveSigner(
+                    key,
+                    signedJoinChannel.signature
                 );
                 if (jc.participant != retrivedAddress) return; //TODO! Disconnect from peer
                 //TODO! - analyzie retrivedAddress and apply subjectivivity to decide if to proceed or not
@@ -68,10 +70,11 @@ class JoinChannelService extends ARpcService {
             }
             //confirmation logic
             if (!confirmationSignature) return;
-            let retrivedAddress = EvmUtils.retrieveSignerAddressJoinChannel(
-                jc,
+            let retrivedAddress = EvmUtils.tryRetrieveSigner(
+                key,
                 confirmationSignature
             );
+            if (!retrivedAddress) return;
             let currentParticipants =
                 await this.mainRpcService.p2pManager.stateManager.getParticipantsCurrent();
             if (!currentParticipants.includes(retrivedAddress)) return;
-- 
2.43.0


From ed1d281672d1dc8b1d622c3924c2d3f66e0e455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 52/60] fix: only join requests for the own channel are
 confirmed

---
 src/rpc/services/JoinChannelService.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index b788441..82b6ee1 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -1,4 +1,4 @@
-import { SignatureLike } from "ethers";
+import { ethers, SignatureLike } from "ethers";
 import { ARpcService, MainRpcService } from "@/rpc";
 import { SignedJoinChannelStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { EvmUtils, SignatureCollectionMap } from "@/utils";
@@ -32,6 +32,13 @@ class JoinChannelService extends ARpcService {
             );
             // Only the form that the contracts accept
             if (EvmUtils.encodeJoinChannel(jc) !== key) return;
+            if (
+                jc.channelId !==
+                ethers.hexlify(
+                    this.mainRpcService.p2pManager.stateManager.getChannelId()
+                )
+            )
+                return;
             if (!this.joinChannelMap.has(key)) {
                 let timeRemaining =
                     Number(jc.deadlineTimestamp) - Clock.getTimeInSeconds();
-- 
2.43.0


From 48eb3418bc0891183af893c1ab68f94de4e7b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 53/60] fix: signature and deadline of a join request are
 checked whenever it arrives

---
 src/rpc/services/JoinChannelService.ts | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index 82b6ee1..2073ee7 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -39,15 +39,15 @@ class JoinChannelService extends ARpcService {
                 )
             )
                 return;
+            let timeRemaining =
+                Number(jc.deadlineTimestamp) - Clock.getTimeInSeconds();
+            if (timeRemaining <= 0) return;
+            let joiner = EvmUtils.tryRetrieveSigner(
+                key,
+                signedJoinChannel.signature
+            );
+            if (jc.participant != joiner) return; //TODO! Disconnect from peer
             if (!this.joinChannelMap.has(key)) {
-                let timeRemaining =
-                    Number(jc.deadlineTimestamp) - Clock.getTimeInSeconds();
-                if (timeRemaining <= 0) return;
-                let retrivedAddress = EvmUtils.tryRetrieveSigner(
-                    key,
-                    signedJoinChannel.signature
-                );
-                if (jc.participant != retrivedAddress) return; //TODO! Disconnect from peer
                 //TODO! - analyzie retrivedAddress and apply subjectivivity to decide if to proceed or not
                 //TODO! StateObserver can be triggered for this subjectivity too
                 let mySignedJC = await EvmUtils.signJoinChannel(
-- 
2.43.0


From 07bd2348ae5ca6164da1304497fc932087f073d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 54/60] fix: a join request is confirmed once the node itself
 is the last to sign

---
 src/rpc/services/JoinChannelService.ts | 28 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index 2073ee7..4826def 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -76,21 +76,25 @@ class JoinChannelService extends ARpcService {
                 // it may carry a confirmation already
             }
             //confirmation logic
-            if (!confirmationSignature) return;
-            let retrivedAddress = EvmUtils.tryRetrieveSigner(
-                key,
-                confirmationSignature
-            );
-            if (!retrivedAddress) return;
             let currentParticipants =
                 await this.mainRpcService.p2pManager.stateManager.getParticipantsCurrent();
-            if (!currentParticipants.includes(retrivedAddress)) return;
-            this.joinChannelMap.tryInsert(key, {
-                signerAddress: retrivedAddress,
-                signature: confirmationSignature
-            });
+            if (confirmationSignature) {
+                let retrivedAddress = EvmUtils.tryRetrieveSigner(
+                    key,
+                    confirmationSignature
+                );
+                if (!retrivedAddress) return;
+                if (!currentParticipants.includes(retrivedAddress)) return;
+                this.joinChannelMap.tryInsert(key, {
+                    signerAddress: retrivedAddress,
+                    signature: confirmationSignature
+                });
+            }
 
-            if (!this.joinChannelMap.didEveryoneSign(key, currentParticipants))
+            if (
+                currentParticipants.length === 0 ||
+                !this.joinChannelMap.didEveryoneSign(key, currentParticipants)
+            )
                 return;
             if (
                 this.joinChannelQueue.some(
-- 
2.43.0


From a0e16c6f016daa140d6ccc4fc87bc47ece8c7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 55/60] fix: a node doesn't take itself for a peer when its own
 challenge is reflected

---
 src/rpc/services/InitHandshakeService.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index cee48ec..2d51cb5 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -112,6 +112,14 @@ class InitHandshakeService extends ARpcService {
             this.getChallengeMessage(challenge.randomChallengeHash),
             signature
         );
+        if (
+            signerAddress ===
+            this.mainRpcService.p2pManager.stateManager.getSignerAddress()
+        ) {
+            // Own challenge reflected
+            this.mainRpcService.p2pManager.removeConnection(senderTransport);
+            return;
+        }
         // let p =
         //     this.p2pManager.profileManager.getProfileByEvmAddress(
         //         signerAddress
-- 
2.43.0


From 34fa133f72569973548c20cb20f506395d1a9e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 56/60] fix: an answer that arrives after its connection was
 closed isn't accepted

---
 src/rpc/services/InitHandshakeService.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 2d51cb5..3eb9583 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -78,6 +78,8 @@ class InitHandshakeService extends ARpcService {
         console.log(`onInitHandshakeRESPONSE - start`);
         let senderTransport = this.mainRpcService.senderTransport;
         if (!senderTransport) throw new Error("senderTransport is undefined");
+        // what arrives after the connection was closed doesn't open it again
+        if (senderTransport.isClosed) return;
         let challenge = this.getChallenge(senderTransport);
         if (!challenge) {
             // TODO! Disconnect
-- 
2.43.0


From 2f372301f228809a12a965e9387f280d24e3fb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 57/60] fix: a connection that a newer one replaces isn't sent
 to any more

---
 src/rpc/services/InitHandshakeService.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 3eb9583..40bf769 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -143,6 +143,9 @@ class InitHandshakeService extends ARpcService {
                 profile
             );
         } else {
+            let oldTransport = profile.getTransport();
+            if (oldTransport && oldTransport !== senderTransport)
+                this.mainRpcService.p2pManager.removeConnection(oldTransport);
             this.mainRpcService.p2pManager.profileManager.updateTransport(
                 profile.getEvmAddress().toString(),
                 senderTransport
-- 
2.43.0


From e844e0c0b9d9a67d58f928b9c7169b80b9a6cb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 58/60] fix: a timeout that a post on chain puts off is looked
 at again

---
 src/stateManager/StateManager.ts | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 45e46a9..477a9b0 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -424,15 +424,6 @@ class StateManager {
             )
         )
             return;
-        if (
-            Clock.getTimeInSeconds() <
-            this.agreementManager.getChainLatestBlockTimestamp(
-                forkCnt,
-                transactionCnt
-            ) +
-                this.getTimeoutWaitTimeSeconds()
-        )
-            return;
         const response =
             await this.stateChannelManagerContract.getBlockCallData(
                 this.channelId,
@@ -445,7 +436,13 @@ class StateManager {
         const delayTimeSeconds =
             this.getTimeoutWaitTimeSeconds() -
             (Clock.getTimeInSeconds() -
-                this.agreementManager.getLatestBlockTimestamp(forkCnt));
+                Math.max(
+                    this.agreementManager.getLatestBlockTimestamp(forkCnt),
+                    this.agreementManager.getChainLatestBlockTimestamp(
+                        forkCnt,
+                        transactionCnt
+                    )
+                ));
         if (delayTimeSeconds > 0) {
             scheduleTask(
                 () =>
-- 
2.43.0


From f812bafe5930022fe280796dd8e90c45fa83944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 59/60] fix: hooks that are set later are called for posts on
 chain, too

---
 src/StateChannelEventListener.ts | 3 +++
 src/stateManager/StateManager.ts | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/StateChannelEventListener.ts b/src/StateChannelEventListener.ts
index a1b2400..1bfdba1 100644
--- a/src/StateChannelEventListener.ts
+++ b/src/StateChannelEventListener.ts
@@ -29,6 +29,9 @@ class StateChannelEventListener {
 
         // stateChannelManagerContract.off(stateChannelManagerContract.getEvent("GameCreated"));
     }
+    public setP2pEventHooks(p2pEventHooks: P2pEventHooks): void {
+        this.p2pEventHooks = p2pEventHooks;
+    }
     //Mark resources for garbage collection
     public dispose() {
         // this.stateChannelManagerContract.removeAllListeners();
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 477a9b0..5fe8c0b 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -97,6 +97,7 @@ class StateManager {
     public setP2pEventHooks(p2pEventHooks: P2pEventHooks) {
         this.p2pEventHooks = p2pEventHooks;
         this.disputeHandler.setP2pEventHooks(p2pEventHooks);
+        this.stateChannelEventListener.setP2pEventHooks(p2pEventHooks);
     }
     public setChannelId(channelId: BytesLike) {
         this.channelId = channelId;
-- 
2.43.0


From 484d53430ecc342d50958d9f8c14830ec3d08a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 60/60] fix: subscriptions of channels chosen right after one
 another don't mix

---
 src/StateChannelEventListener.ts | 38 +++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/StateChannelEventListener.ts b/src/StateChannelEventListener.ts
index 1bfdba1..06faa5d 100644
--- a/src/StateChannelEventListener.ts
+++ b/src/StateChannelEventListener.ts
@@ -4,6 +4,7 @@ import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { DisputeStruct } from "@typechain-types/contracts/V1/DisputeTypes";
 import StateManager from "@/stateManager";
 import P2pEventHooks from "@/P2pEventHooks";
+import { Mutex } from "@/utils";
 
 // Nobody awaits event listeners
 const logEventError = (error: unknown) =>
@@ -18,6 +19,8 @@ class StateChannelEventListener {
     setStateFilter: any;
     postedBlockCallDataFilter: any;
     disputeUpdateFilter: any;
+    // Nobody awaits a subscription before asking for the next one
+    private mutex: Mutex = new Mutex();
     constructor(
         stateManager: StateManager,
         stateChannelManagerContract: AStateChannelManagerProxy,
@@ -33,18 +36,33 @@ class StateChannelEventListener {
         this.p2pEventHooks = p2pEventHooks;
     }
     //Mark resources for garbage collection
-    public dispose() {
-        // this.stateChannelManagerContract.removeAllListeners();
-        if (this.setStateFilter)
-            this.stateChannelManagerContract.off(this.setStateFilter);
-        if (this.postedBlockCallDataFilter)
-            this.stateChannelManagerContract.off(
-                this.postedBlockCallDataFilter
-            );
-        if (this.disputeUpdateFilter)
-            this.stateChannelManagerContract.off(this.disputeUpdateFilter);
+    public async dispose() {
+        await this.mutex.lock();
+        try {
+            // this.stateChannelManagerContract.removeAllListeners();
+            if (this.setStateFilter)
+                await this.stateChannelManagerContract.off(this.setStateFilter);
+            if (this.postedBlockCallDataFilter)
+                await this.stateChannelManagerContract.off(
+                    this.postedBlockCallDataFilter
+                );
+            if (this.disputeUpdateFilter)
+                await this.stateChannelManagerContract.off(
+                    this.disputeUpdateFilter
+                );
+        } finally {
+            this.mutex.unlock();
+        }
     }
     public async setChannelId(channelId: BytesLike) {
+        await this.mutex.lock();
+        try {
+            await this.subscribe(channelId);
+        } finally {
+            this.mutex.unlock();
+        }
+    }
+    private async subscribe(channelId: BytesLike) {
         // --------- SetState event -------------
         if (this.setStateFilter)
             await this.stateChannelManagerContract.off(this.setStateFilter);
-- 
2.43.0

