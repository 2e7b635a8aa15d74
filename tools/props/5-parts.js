"use strict";
const { prop, check, m } = require("../meta");
const AM = "src/agreementManager/AgreementManager.ts", FS = "src/agreementManager/ForkService.ts", QS = "src/agreementManager/QueueService.ts", OT = "src/agreementManager/OnChainTracker.ts", BV = "src/agreementManager/BlockValidator.ts", SS = "src/agreementManager/SignatureService.ts", BU = "src/utils/BlockUtils.ts";
const U = "src/utils/";

prop("C15", "A node's record of a channel answers exactly from what was put into it",
    "Whatever forks, blocks, confirmations, posts on chain and waiting messages a node has put into its record, in whatever order: forks only follow one another and never change; a height of a fork holds the one block that was put there with the state it led to, and exactly the signatures added to it; adding a second block or a signature twice, for another or an unknown block is refused and changes nothing. Every answer is true of that: who has signed and who hasn't, in the threshold of that fork; the finalized and latest state and the shortest history that proves them; double signatures; first posts and latest times up to a height; how a further block relates to it all. What waits for a height comes back exactly once, none lost and none invented, whatever else is queued.",
    ["histories"], "From 6 records of up to 2 forks with different participants: every sequence of 2-3 operations of up to 104 kinds on blocks of 2 forks, 3 heights, 2 authors with conflicting variants, outsiders and forged signatures; in every state reached some 600 questions about all forks, heights, participants and blocks.",
    "The unit tests ask single questions of hand-made records; disputes, finality and accusations rest on answers about any record that a history of messages can lead to.",
    [AM, FS, QS, OT, BV, SS, BU], [m("getFinalizedAndLatestWithVotes, didEveryoneSignBlock, getDoubleSignedBlock, confirmBlock", AM), m("newFork, addBlock, agreementsIterator", FS), m("queueBlock, tryDequeueBlocks", QS), m("collect, latestTimestamp", OT), m("check, isBlockDuplicate", BV)],
    { observe: ["results of AgreementManager's public methods"] });
check("C15", "explicit-state exploration of operation sequences on the real class in lock-step with an executable model", "The real AgreementManager, bundled from the working tree, is driven through every sequence within the bounds; in each distinct state all its questions are compared with a model that is written from their meaning.");

prop("C23", "Locks exclude and are fair, retries and tasks happen exactly as asked",
    "A lock is held by one at a time and given to those who asked in the order they asked, nobody is forgotten, however sections end and interleave; a barrier lets exactly as many pass as it was told to, in order, whether told before or after they came; a retried operation is attempted until it succeeds, at most one more time than the retries allowed, after the delays configured, and ends with its result or last error; a scheduled task runs once, not before its time, and its failure harms nothing else; a collection of signatures holds one per signer and key, and set operations are those of mathematics and leave what they're given alone.",
    ["schedules", "inputs", "histories"], "Every interleaving of up to 3 tasks with 1-2 sections, every sequence of 9 calls of a lock and 10 of a barrier, every pattern of outcomes of up to 4 attempts under 120 configurations, every 3 of 12 scheduled tasks, every sequence of 5 of 9 operations on collections, every pair of subsets of 4 elements.",
    "Mutual exclusion and absence of lost wake-ups are statements about all interleavings; the node's signing and execution rely on them everywhere.",
    [U + "Mutex.ts", U + "BarrierLocal.ts", U + "retry.ts", U + "scheduler.ts", U + "SignatureCollectionMap.ts", U + "set.ts"], [m("lock, unlock", U + "Mutex.ts"), m("tryPass, allowOne", U + "BarrierLocal.ts"), m("retry", U + "retry.ts"), m("scheduleTask", U + "scheduler.ts"), m("tryInsert, didEveryoneSign", U + "SignatureCollectionMap.ts"), m("difference, excludeFromArray", U + "set.ts")],
    { observe: ["order and time of calls and resolved promises", "results"] });
check("C23", "stateless exploration of all interleavings, and exhaustive enumeration of operation sequences, on the real code in lock-step with a model", "The real utilities under a controlled clock and scheduler; all choices of which task goes on are explored.");
