"use strict";
const { prop, check, m, MGR, FACET, COMMON, UTIL, STORE, ASM } = require("../meta");
const LOCKSTEP = "the real contracts, compiled from the working tree, run in an EVM (EDR, the engine hardhat uses); every operation is executed on them and on an independent executable model (lib/spec.js), and acceptance, complete observable state (through view functions), fund movements and event log must agree after each one. Assumes EDR executes EVM code as a chain does, and the wrapper contracts in /verif/contracts (a ledger-keeping state machine and channel manager) stand for any application.";

prop("C01", "A unanimity check passes only with a signature of every listed party",
    "The contract library's check that a payload is signed by everyone in a list of addresses succeeds exactly when all supplied signatures are well-formed and every entry of the list can be matched with a signature of its own by that address over that payload; a duplicate signature, a foreign signer, a signature over other data or a malformed signature never stands in for a missing one, and extra signatures or their order do not matter. Signer recovery itself never attributes a payload to an address that did not sign it under the personal-message prefix, and never yields the zero address as a signer.",
    ["inputs"], "Every list of participant addresses (up to 4, including repeated and zero ones) against every list of up to 4 signatures drawn from valid, foreign, malleable, truncated, unprefixed and otherwise malformed signatures, for several payloads.",
    "The unit tests sample a dozen lists; the guarantee is about all combinations of duplicates, omissions, order and malformed signatures an attacker may choose.",
    [UTIL], [m("verifyThresholdSigned", UTIL), m("retriveSignerAddress", UTIL), m("tryInsertAddressInThresholdSet", UTIL)],
    { observe: ["return value of the library functions"] });
check("C01", "exhaustive enumeration of bounded inputs on the real contract code against an executable oracle", "Every combination within the stated bounds is run through the real library, compiled from the working tree, in an EVM and compared with an oracle that recovers signers independently. ecrecover and keccak256 are trusted.");

prop("C03", "Posted block data is recorded and reported unchanged, for its author only",
    "Posting block calldata succeeds exactly if the block is submitted by its author, carries the author's signature over exactly the posted bytes, and its timestamp is not in the future and not older than the p2p, agreement and fallback times together. What an author last posted for a channel, fork and height is then reported unchanged, with the time of posting, by the record query, and the latest posted time up to a height is that of the last posting at or below it in that fork. Nothing but a new posting of the same author at the same place ever alters or removes a record: postings of one author, channel, fork or height never affect another's.",
    ["inputs", "histories"], "Every combination of up to three deviations (author, sender, signature, channel, fork, height, data, time ...) from a well-formed posting, and every sequence of postings up to the depth over two authors, two channels, two forks, several heights and conflicting blocks; all registers are read after each.",
    "The existing tests never post calldata; fidelity and non-interference are statements about every history of postings.",
    [MGR, COMMON, STORE], [m("postBlockCalldata", MGR), m("getBlockCallData", COMMON), m("getChainLatestBlockTimestamp", COMMON)],
    { observe: ["getBlockCallData", "getChainLatestBlockTimestamp", "BlockCalldataPosted event"] });
check("C03", "explicit-state exploration of the real contracts in lock-step with an executable model", LOCKSTEP.replace(/^/, "All deviations and all posting sequences within the bounds: "));

prop("C04", "A dispute is admitted only on an authentic, final and latest history",
    "A dispute is admitted only from a participant of the channel's current fork, while no other dispute's challenge window is open, and only on a submitted history that is an unbroken chain of blocks of that channel and fork - each signed by its author, a participant, with consecutive heights and linked state hashes, ending at the submitted latest state. The chain must start at the fork's genesis state, or start with the block that commits to the submitted finalized state and carry, over all its blocks together, a signature of every participant. Every submission of that kind with a justified reason is admitted, and a refused one changes nothing.",
    ["inputs", "histories"], "Channels of 1-3 participants, histories of up to 3 blocks, every subset of signatures on the blocks, every pair out of some 70 defects of a submission, and follow-up disputes at every boundary instant.",
    "The contract tests exercise one timeout scenario; which subset of votes, which defect or which pair of compensating defects an attacker picks is unbounded by them.",
    [FACET, MGR, COMMON], [m("createDispute", FACET), m("isFinalizedAndLatest", FACET), m("isGenesisState", COMMON)],
    { observe: ["transaction outcome", "getDispute", "DisputeUpdated event"] });
check("C04", "explicit-state exploration of the real contracts in lock-step with an executable model", LOCKSTEP);

prop("C05", "Only a participant who was to write, and stayed silent, is removed by timeout",
    "A timeout claim in a dispute removes a participant only if that participant is the next to write after the submitted history, the full p2p, agreement and chain-fallback time has passed since that history's last block (or the fork's start) and since the last data posted up to that height, and the participant has not posted the missing block's calldata in time; a claim about anyone else, any other height, or too early has no effect beyond being refused. Every justified claim does take effect, and no one else is removed by it.",
    ["inputs", "histories"], "2-3 participants, in the first fork and in one begun by a join, histories of 0-3 blocks, every claimed participant, height and submitter, every boundary instant within one second, with up to two calldata postings of any author and height before the claim.",
    "The one timeout test fixes who is claimed, when and after which history.",
    [FACET, MGR], [m("timeout handling in createDispute", FACET), m("applyFoldRechallengeProof", FACET), m("applyFoldPriorBlockProof", FACET)],
    { observe: ["getDispute", "participants of the resulting fork", "DisputeUpdated / SetState events"] });
check("C05", "explicit-state exploration of the real contracts in lock-step with an executable model", LOCKSTEP + " One known finding is listed (fold-prior-block).");

prop("C06", "Fraud evidence punishes exactly those it convicts",
    "Evidence attached to a dispute - double signing, incorrect data, a newer state, a block too far in the future, a rechallenge of or folding by a timeout, a joining agreement - is upheld exactly when it really establishes what it claims about this channel, fork and its participants, and its effect is exactly the corresponding penalty (or removal, or joining) of exactly the convicted author or disputer, once. A submission whose evidence is malformed, establishes nothing new, or convicts its own submitter is refused without punishing anyone. A participant who only ever signed what the protocol lets it sign is never slashed, whatever the other participants fabricate together.",
    ["inputs", "histories"], "3 participants and six dispute situations; every kind of evidence over a small alphabet of blocks, signers, heights, forks and states; pairs of evidence; and everything two colluding participants can present against the third.",
    "Contract-side evaluation of evidence is hardly tested; soundness against any fabrication by colluders cannot be sampled.",
    [FACET, UTIL], [m("applyProofs", FACET), m("applyDoubleSignProof", FACET), m("applyIncorrectDataProof", FACET), m("applyNewerStateProof", FACET), m("applyBlockTooFarInFutureProof", FACET), m("applyJoinChannelProof", FACET)],
    { observe: ["slashed participants of getDispute", "participants of the resulting fork", "events"] });
check("C06", "explicit-state exploration of the real contracts in lock-step with an executable model", LOCKSTEP + " One known finding is listed (predecessor forged by a colluder).");

prop("C07", "A dispute can be challenged only within its window and always moves forward",
    "A dispute accepts a challenge only while its challenge window is open, only from a participant not slashed in it who refers to its current fork and challenge count, and only with valid evidence together with an admissible history that does not finalize an earlier block than the disputed one. An accepted challenge replaces the disputed history, increments the count, reopens the window for the full challenge time, recomputes the outcome from the new history and appends it as a new fork. Slashes established in a dispute are never lost by a later challenge, and once the window has closed the next dispute starts clean on the outcome.",
    ["histories", "inputs"], "All sequences of three operations - dispute creations and challenges - where up to two operations' worth of deviations from a well-formed one (submitter, instant, evidence, history, fork, count) are combined per step.",
    "Existing tests make one dispute; the lifecycle is about arbitrary interleavings of disputes and challenges over time.",
    [FACET, MGR, STORE], [m("createDispute", FACET), m("challengeDispute", FACET), m("applyDisputeToLatestState", FACET)],
    { observe: ["getDispute", "getForkCnt, getParticipants", "DisputeUpdated / SetState events"] });
check("C07", "explicit-state exploration of operation sequences on the real contracts in lock-step with an executable model", LOCKSTEP);

prop("C08", "Fork history only grows, channels are isolated, privileged entries are closed",
    "A channel's sequence of forks is append-only: no operation ever alters the state or start of an earlier fork or lowers the fork count, and a new fork appears only through a dispute, challenge, join or leave that was accepted for that channel. An operation on one channel never changes anything another channel's participants can observe; entry points reserved for the manager itself refuse everyone else; and every change is announced by an event carrying exactly the new state and fork.",
    ["histories"], "All sequences of operations (disputes, challenges, timeouts, joins, leaves, postings, and 36 calls no participant is entitled to) over two channels up to the depth, with everything both channels expose compared after each operation.",
    "Isolation and monotonicity quantify over every operation sequence over several channels sharing one state machine; tests open one channel.",
    [MGR, FACET, COMMON, STORE, ASM], [m("setState", COMMON), m("onlySelf / delegatecall guards", MGR), m("_nonReentrant guard", ASM)],
    { observe: ["all view functions of both channels", "SetState / DisputeUpdated / BlockCalldataPosted events"] });
check("C08", "explicit-state exploration of operation sequences on the real contracts with invariant monitors and an executable model", LOCKSTEP);

prop("C10", "Joining and leaving need everybody's agreement and conserve funds",
    "A participant joins or leaves an open channel by agreement only if the joiner or leaver and every current participant signed exactly that agreement for the current fork and the submitted state, its deadline has not passed, and no dispute is in progress; then exactly that party is added or removed with exactly the agreed amount. Over any history of joins, leaves, disputes, removals and slashings, deposits equal the balances held in the channel plus what has been paid out, nobody is paid twice for one exit, and exits are paid only once no challenge can undo them.",
    ["inputs", "histories"], "Every pair of deviations of a join agreement (12 factors) and leave agreement (9 factors), every single one after a join and after a join and a leave, and every sequence of three joins, leaves, disputes, removals and payments, with full funds accounting.",
    "No existing test joins or leaves with agreement on chain, and conservation quantifies over every history.",
    [MGR, FACET, ASM], [m("joinChannelWithAgreement", MGR), m("leaveChannelWithAgreement", MGR), m("tryProcessOldExits", MGR), m("addParticipantComposable / removeParticipantComposable", MGR)],
    { observe: ["participants and balances", "deposits and payments made by the manager", "SetState event"] });
check("C10", "explicit-state exploration of the real contracts in lock-step with an executable model and a funds invariant", LOCKSTEP);
