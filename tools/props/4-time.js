"use strict";
const { prop, check, m } = require("../meta");
const SM = "src/stateManager/StateManager.ts", AM = "src/agreementManager/AgreementManager.ts", DH = "src/DisputeHandler.ts", BV = "src/agreementManager/BlockValidator.ts", SCH = "src/utils/scheduler.ts", CLK = "src/Clock.ts";
const DIRECT = "The real SDK (all of /repo/src, bundled from the working tree) runs as a node whose every input is an explicit event, so an execution is a function of the event sequence; ";

prop("C21", "A node posts its blocks, and claims timeouts, exactly when time demands it",
    "A block of its own that not everyone has signed when the agreement time is over is posted on chain, then and once; one that everyone signed by then is not, nor one of a fork that is over or disputed. When the participant whose turn it is lets the whole waiting time pass - since the latest block of the fork, the latest post on chain up to the missing one, and since the node came to expect the block - without the block arriving or being posted, every other participant of the fork claims this timeout, once, for this participant and height, not earlier than true and no later than that time after it last had a reason to wait; whether or not the clocks of the chain and of the node agree. Nothing is claimed of the node itself, by one who takes no part, in a fork disputed already, or where the block is on chain but not yet reported.",
    ["histories", "schedules"], "8 situations (place of the node, 2 or 3 participants, none; chain's clock up to 2 s ahead of or behind the node's): every history of 3 events of up to 11 kinds (own and others' blocks at different times, confirmations, posts, posts mined but not reported, disputes, next forks), each after one of the spans of time around which something changes (0, just before, at and after the agreement and waiting times), then silence; every event also while the chain's answer about a missing block is under way.",
    "Timers and what cancels or postpones them interact; the existing tests of timeouts aren't even among the reliable ones. A claim that is never made means that a channel whose participant went away is stuck with everyone's funds.",
    [SM, AM, BV, DH, SCH, CLK], [m("tryTimeoutParticipant, onSuccessCommon, getTimeoutWaitTimeSeconds, maybePostBlockOnChain", SM), m("getChainLatestBlockTimestamp, didParticipantPostOnChain, didEveryoneSignBlock", AM), m("createDispute", DH), m("scheduleTask", SCH)],
    { observe: ["transactions sent to the chain, and when", "hooks onPostingCalldata, onInitiatingDispute"] });
check("C21", "exhaustive enumeration of timed event sequences on the real node under a controlled clock, compared with when time demands it", DIRECT + "time passes only as an event and timers fire at their time; what it sends to the chain, and when, is compared with what the history demands.");

const SEL = "src/StateChannelEventListener.ts", ESM = "src/evm/EvmStateMachine.ts", PI = "src/evm/P2pInstance.ts", PS = "src/evm/P2pSigner.ts";
prop("C22", "An application sees and does exactly what happens in its channel",
    "An application that set up the SDK for its wallet and followed a channel gets that channel's life, no more, no less: each log of the manager contract for the channel chosen last is processed and reported to its hooks once with exactly its contents, those of other channels, other contracts and repeated forks change nothing; each event of an adopted transaction reaches the listeners of its contract instance once, in order, with its arguments, whoever wrote the block and however it arrived; calling a function of the contract plays it as its transaction in its turn, or is refused and leaves no trace; reading gives the current state and changes nothing; hooks set later replace the earlier ones everywhere; whose turn it is is reported whenever it changes. Times are the contracts', the clock follows the chain's, transactions to the chain come from its wallet, go to the manager and concern its channel. Choosing the channel again, or another one before it began, however quickly, leaves just one subscription; after disposal nothing reaches it any more.",
    ["histories", "inputs"], "3 situations of a node (place among two, clock late): every sequence of up to 3 of 26 kinds of events (choosing channels, also right after one another, logs of this and another channel and contract, repeated, messages, the application's calls good and bad, reading, other hooks, disposal), from several beginnings, then silence over all time spans.",
    "The application's side of the SDK isn't covered by the reliable tests; mixed or doubled subscriptions and stale hooks show only after particular sequences.",
    [SEL, ESM, PI, PS, SM, CLK, "src/P2pEventHooks.ts"], [m("setChannelId, dispose", SEL), m("p2pSetup, processLogs, runView", ESM), m("sendTransaction, call", PS), m("setHooks, dispose", PI), m("setP2pEventHooks, onDisputeUpdate, collectOnChainBlock, setState", SM)],
    { observe: ["listeners of the contract instance", "hooks", "results of the application's calls", "messages and transactions sent"] });
check("C22", "exhaustive enumeration of bounded event sequences on the real SDK set up as applications do, in lock-step with a model", "Everything from EvmStateMachine.p2pSetup on is real: ethers contracts, provider subscriptions, the EVM with a compiled contract; only the chain behind the provider is simulated. A model of the channel is compared after each event.");
