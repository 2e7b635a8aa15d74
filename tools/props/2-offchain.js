"use strict";
const { prop, check, m } = require("../meta");
const SM = "src/stateManager/StateManager.ts", VS = "src/stateManager/ValidationService.ts", AM = "src/agreementManager/AgreementManager.ts", BV = "src/agreementManager/BlockValidator.ts", QS = "src/agreementManager/QueueService.ts", FS = "src/agreementManager/ForkService.ts", OCT = "src/agreementManager/OnChainTracker.ts", SGN = "src/evm/P2pSigner.ts", DH = "src/DisputeHandler.ts", PM = "src/ProofManager.ts", EU = "src/utils/EvmUtils.ts", BU = "src/utils/BlockUtils.ts", P2P = "src/P2PManager.ts", EL = "src/StateChannelEventListener.ts";
const DIRECT = "The real SDK (all of /repo/src, bundled from the working tree) runs as a node whose every input - message, chain event, timer, completion of an asynchronous operation, user action - is an explicit event, so an execution is a function of the event sequence; ";

prop("C12", "A node adopts and signs a block exactly if it is the valid next one",
    "A node adopts a block into its chain, and gives its signature on it to others, exactly if the block is of its channel and current undisputed fork, has the next height, is canonically encoded and signed by its author, a participant whose turn it is, is timestamped not before the last block and at most the p2p time after the last block or the last data posted, builds on the current state, and its transaction executes to exactly the claimed state. A block for a later height or fork is kept and judged when its turn comes; every other block leaves chain, state and signatures as they were. A confirmation is credited to the participant that made it and to nobody else, and only in the one form the contracts accept; a block counts as agreed once every participant's signature is held and not before.",
    ["inputs", "histories"], "12 situations of a node (1-3 participants, every role, 0-2 blocks adopted, first and second fork), the valid next block and all single and pairwise deviations from it (channel, author, signer, signature form, fork, height, time, data, state hashes, encoding), delivered as block and as confirmation with 14 kinds of confirmation signature, repeated, and followed by the valid block, a block ahead of its fork and that fork.",
    "No existing test runs the validation pipeline at all; whether some combination of defects slips through, poisons the state or blocks later valid blocks is a statement about all of them.",
    [SM, VS, AM, BV, QS, FS, SGN, EU], [m("validateSignedBlock / validateBlockConfirmation", VS), m("onSignedBlock, onBlockConfirmation, playTransaction", SM), m("check", BV), m("addBlock, confirmBlock, didEveryoneSignBlock", AM), m("confirmBlock", SGN)],
    { observe: ["adopted chain and signatures of the agreement manager", "state of the state machine", "messages sent", "signing requests"] });
check("C12", "exhaustive enumeration of bounded input sequences on the real node in lock-step with an executable model", DIRECT + "a reference model of a peer (lib/peer.js) is fed the same events and chain, states, signatures, finality and everything released must agree after each. The state machine is a JavaScript one with the semantics that C09 checks for the EVM-backed one.");
prop("C13", "However events race, a node acts as if it took them one at a time",
    "Whatever the order in which messages, chain events and the user's transactions arrive at a node while its own asynchronous steps (calls of the state machine, signing, timers) are still under way, the outcome - adopted chain, signatures held, state of the state machine, accusations made - is one that processing the same inputs one after the other in some order also gives. In particular it never gives away signatures on two blocks of one height of one fork, never answers for a block that it doesn't adopt, leaves no unhandled error, always comes to rest, and afterwards handles the next block and the next fork as if nothing had happened. This also holds if an operation fails.",
    ["schedules", "inputs", "fault_sequences"], "9 situations of a node (1-3 participants, every role, first and second fork), every pair (also twice the same) of 8-12 events - valid, conflicting, incorrect, out-of-turn and following blocks, confirmations by participants and outsiders, posts on-chain, own transactions, the next fork, the same fork again, a dispute - and every schedule of their arrival against the completion of the node's own operations (at most 2-3 overtakings; thorough: all, triples of events, one failing signature).",
    "The tests call components one at a time and await each call; an interleaving of two handlers inside the node never occurs in them.",
    [SM, VS, SGN, AM, "src/utils/Mutex.ts", DH], [m("onSignedBlock, onBlockConfirmation, playTransaction, setState, tryExecuteFromQueue", SM), m("validateSignedBlock, processStateTransition", VS), m("confirmBlock", SGN), m("Mutex", "src/utils/Mutex.ts")],
    { observe: ["adopted chain and signatures of the agreement manager", "state of the state machine", "messages sent", "calls of the contracts", "unhandled rejections"] });
check("C13", "stateless exploration of all schedules of the real node under a controlled scheduler, outcomes compared with all sequential orders of an executable model", DIRECT + "state-machine and signer operations are held and completed one by one by the explorer, due timers are choices too; every schedule with a bounded number of overtakings is a run of the real node from the start. Oracle: the set of outcomes of lib/peer.js over all orders of the same inputs, then a common continuation.");
const COURT = "an adversary holding the keys of all other participants and the executable specification of the contracts (which C01-C08 check against the compiled contracts) as the chain play against it: what the adversary may do is derived from the node's public state, every order of its actions and every bounded overtaking of the node's own operations, transactions, receipts and chain events is a run of the real node from the start.";
prop("C14", "A node's signatures never contradict the histories it submits",
    "Once a node has submitted a history of a fork to the chain - in a dispute or a challenge - no signature of its own on a block of that fork beyond that history, or on another block of a height that it contains, exists or ever comes to exist outside, and once it knows that a fork is disputed it releases no signature on it any more; otherwise the others could have it punished for withholding a newer state.",
    ["schedules", "histories"], "8 situations (2-3 participants, agreed and unagreed blocks) in which signing or the state machine or both are slow; up to 2 actions of the others with 2 overtakings, 3 with 1 (thorough 3/2, 4/1), and every schedule of them.",
    "Needs a signature, a dispute and a message in flight at once, in the one bad order; the tests stub the signer and never have two operations pending.",
    [DH, SM, SGN, AM, FS, PM], [m("createDispute, challengeDispute, onDispute", DH), m("getFinalizedAndLatestWithVotes, collectVirtualVotingBlocks", AM), m("confirmBlock, signBlock", SGN), m("setForkDisputed", FS)],
    { observe: ["signatures that leave the node", "calls of the contracts with their arguments"] });
check("C14", "stateless exploration of all bounded schedules of the real node against an adversary and a model chain", DIRECT + COURT);
prop("C16", "What a node submits in a dispute is what the contracts accept",
    "Every dispute and challenge that a node submits with up-to-date knowledge of the chain is accepted by the contracts: the history it commits to meets the agreement threshold and connects genesis, finalized and latest state, every proof it attaches is upheld, a timeout is claimed only for the participant whose turn it is, only after the time the contracts grant and never for itself, and only participants of the fork submit. What it doesn't submit with stale knowledge is not lost either: it ends up with no transaction failing for ever.",
    ["histories", "schedules"], "10 situations (2-3 participants, also of an onlooker, 0-3 blocks, agreed and unagreed); up to 3 actions of the others (4 with 2 participants) in every order, up to 2 with one overtaking (thorough: one more each).",
    "That evidence which the node gathers and the rules which the contracts apply agree concerns all histories; the tests cover a few proofs, with the calls of the contracts stubbed.",
    [DH, PM, SM, AM, OCT, EL], [m("createDispute, challengeDispute, tryTimeoutParticipant, extractProofs", DH), m("isXxxValid, createXxxProof", PM), m("getFinalizedAndLatestWithVotes", AM)],
    { observe: ["calls of the contracts with their arguments", "verdict of the contracts' rules"] });
check("C16", "stateless exploration of all bounded adversarial histories and schedules of the real node against a model chain", DIRECT + COURT);
prop("C17", "Provable misbehaviour is punished; an honest node never is",
    "If a participant double-signs, makes an incorrect block, or lets its turn pass, and an honest node holds the evidence, then a dispute of that fork comes to happen in which the offender is slashed or removed, even if others open disputes first, leave out blocks, challenge, or a transaction gets lost. An honest node itself is never slashed, and never removed if it made its move in time or it wasn't its turn, whatever the others submit. Afterwards the node is in the same fork and state as the chain.",
    ["histories", "fault_sequences", "schedules"], "7 situations (2-3 participants); up to 3 actions out of 14-30 (4 with 2 participants) - blocks, own transactions, double signing, incorrect blocks, posts, disputes with histories of every length, timeouts, challenges, time - in every order, up to 2 with one overtaking and one lost transaction (thorough: more).",
    "The guarantee that makes the channel safe concerns everything that the others may do on and off chain, in any order; the tests check single steps of the dispute handler with everything around it stubbed.",
    [DH, PM, SM, AM, EL, OCT], [m("createDispute, onDispute, rechallengeRecursive, shouldUpdateDispute, extractProofs", DH), m("tryTimeoutParticipant, setState", SM), m("createXxxProof", PM)],
    { observe: ["verdict of the model chain: slashed, timed out, participants, genesis of the next fork", "fork and state of the node", "unhandled rejections"] });
check("C17", "stateless exploration of all bounded adversarial histories and schedules of the real node against a model chain", DIRECT + COURT);
prop("C11", "Honest nodes that stay connected end up with the same agreed chain",
    "If the participants are honest and stay connected with each other, directly or through others, then whatever the order in which messages and the chain's events reach them, and even if links break while messages are under way: no two of them ever hold different blocks for a height, none takes a block for agreed without everybody's signature, none goes to the chain; the messages come to an end; and then every one of them is in the latest fork, holds all blocks made there, its state machine is in the last state, and every participant holds everybody's signature on every block. If one of them signs two blocks for a height and both reach honest nodes, one of these disputes.",
    ["schedules", "fault_sequences"], "2 nodes with up to 4 blocks and two forks, 3 nodes fully connected or in a line with 1-3 blocks, two forks, a participant that leaves, a breaking link, 4 nodes in a ring and in a triangle with a tail, 1-2 honest nodes with one that signs two blocks, 2-3 nodes that process their queues at any later time: every order of delivery, of the chain's events and of the moves.",
    "The tests never run two nodes against each other; which messages get through in which order is exactly what they can't choose.",
    [SM, "src/rpc/services/StateTransitionService.ts", SGN, QS, AM, P2P, "src/rpc/RpcHandler.ts"], [m("onSignedBlock, onBlockConfirmation", "src/rpc/services/StateTransitionService.ts"), m("tryConfirmFromQueue, tryExecuteFromQueue, setState", SM), m("confirmBlock, sendTransaction", SGN), m("broadcastRpc", P2P)],
    { observe: ["chains and signatures of all nodes", "messages under way", "calls of the contracts"] });
check("C11", "explicit-state exploration of several real nodes and the network between them, all orders of delivery", DIRECT + "the global states of 2-4 such nodes and the messages between them are explored exhaustively; each distinct local state of a node is reached by running the real node, local states with identical contents are merged, and a cycle of global states is a violation (messages without end).");
prop("C09", "A node's EVM executes the state machine exactly as its contract says",
    "The state machine inside a node does what its contract does: a transition succeeds exactly if the contract accepts it and then leads to the state that the contract computes from the state and the transaction; one that fails for whatever reason - refused, malformed, out of gas - and a call for reading, whatever function it calls, leave no trace; states, participants and the next writer read are the current ones. The events of a transaction, all of them in order with their values, reach the user when and only when the node has accepted the block. However calls overlap, they act as if made one at a time, and no call leaves the machine unusable.",
    ["inputs", "histories", "schedules"], "A state machine with payments, several events, changing participants and all kinds of failures; 5 start states; all sequences of 2 of 38 operations in 2 start states (thorough: of 3 in all 5), each followed by a probe; all ordered pairs of 14 operations with the second started after every 40th step of the first, all triples of 6 (thorough: every 3rd, 30th).",
    "A wrong local execution makes an honest node claim wrong states and lose its stake; overlapping calls occur only when the user reads while a block is being processed. The existing tests of the EVM classes make one call at a time.",
    ["src/evm/EvmStateMachine.ts", "src/evm/ContractExecuter.ts", "src/AStateMachine.ts", SGN], [m("stateTransition, runView, setState, getState, processLogs, createStandalone", "src/evm/EvmStateMachine.ts"), m("executeCall, executeView", "src/evm/ContractExecuter.ts")],
    { observe: ["results of the calls", "encoded state, participants, next writer", "events delivered"] });
check("C09", "exhaustive enumeration of operation sequences and overlaps on the real classes in lock-step with an executable model", "The real EvmStateMachine and ContractExecuter with the real EVM run the compiled contract contracts/VerifExecution.sol. Oracle: the executable model of that contract which the on-chain checks use too (lib/spec.js), extended by its further functions; overlapping calls must give what the model gives for some order of them, and the machine must go on working.");
