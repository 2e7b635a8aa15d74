"use strict";
// Per property: how it is decided and against which oracle; wall times (8 cores) of quick and thorough.
module.exports = {
    C01: { how: "All lists of addresses against all lists of signatures are passed to the real library. The oracle recovers each signature by itself and decides with a bipartite matching of list entries and signatures whether each entry has its own." },
    C03: { how: "Postings are well-formed ones with every combination of deviations, then all sequences. The oracle is a map from (author, channel, fork, height) to the last posting, all of whose entries are read back after each operation." },
    C04: { how: "Every signature subset on every short history, every pair of defects and every follow-up are submitted to the real facet and to `lib/spec.js`, which decides admission from the statement (chain of blocks, thresholds, genesis). Refused ones must leave everything as it was." },
    C05: { how: "Every claim (who, height, submitter, evidence of posting) at every boundary instant is submitted; oracle as C04. The clock of the EVM is set to the second." },
    C06: { how: "Evidence is built over a small alphabet of blocks (author, height, fork, state, time) and signers, including all that two colluders can fabricate; the oracle evaluates each kind of evidence from its meaning, and an invariant says that whoever signed only what the protocol allows is never punished." },
    C07: { how: "Sequences of disputes and challenges, with deviations from well-formed ones per step; complete lock-step with the specification including slashes, counts, windows and forks." },
    C08: { how: "Sequences of all operations over two channels that share one state machine, plus 36 calls nobody is entitled to. Invariant monitors: forks only append, the other channel's whole observable state is unchanged, one event per change with exactly its values; lock-step besides." },
    C09: { how: "The real `EvmStateMachine`/`ContractExecuter` with the real ethereumjs EVM; operations and their overlaps at step granularity; the reference is the same contract's JavaScript semantics as in `lib/spec.js`." },
    C10: { how: "All pairs of deviations of agreements, and sequences of joins, leaves, disputes and payments; the ledger of the wrapper manager yields the conservation invariant." },
    C11: { how: "Explicit-state search over networks of real nodes: a state is every node's contents and the messages under way, transitions deliver one message or chain event. Judged at every state (no conflicting blocks, no unsupported finality) and at every final state (all hold everything, messages end)." },
    C12: { how: "All pairs of deviations of a block (and of confirmations) at every situation, then the valid continuation, in lock-step with `lib/peer.js`, which says for each input what is adopted, signed, sent, submitted." },
    C13: { how: "Every schedule of racing events, completions of asynchronous operations and timers on one real node; the outcome must be one that the model reaches with some sequential order." },
    C14: { how: "Every bounded schedule of the node against the adversary with the completion of signing and state machine controlled; a monitor collects each signature that leaves the node and each history that it submits, and compares after each step." },
    C15: { how: "The real `AgreementManager` is driven through operation sequences; in each distinct state (everything that the object holds, hashed) all questions about all forks, heights, participants and blocks are compared with a model written from their meaning." },
    C16: { how: "Every bounded history of adversarial actions; each transaction that the node submits is executed by the model chain (the specification C01-C08 check the contracts against), which must accept it if the node could know the state it meets." },
    C17: { how: "As C16, and at rest it is judged who has been punished or removed, and whether the node is where the chain is." },
    C18: { how: "Each malformed message at each point of a history; the run must equal the run without it in everything observable (states, signatures, messages, transactions, errors). The alphabet is derived from the service's methods by reflection." },
    C19: { how: "All sequences of connection events and answers; a model of challenges decides to whom each connection belongs after each event." },
    C20: { how: "All sequences of socket events over real transports; states are hashed; a model of connections decides which are open, whose they are and what is sent over which." },
    C21: { how: "Timed histories: events after critical spans of time, then silence until nothing is due any more. The oracle computes from the history at which second which posting and claim are due." },
    C22: { how: "The SDK as `EvmStateMachine.p2pSetup` gives it to an application, with ethers' own contracts, event machinery and provider; after each event the application's view (events, hooks, reads, transactions) is compared with what happened." },
    C23: { how: "Tasks that use the real lock run step by step under a scheduler that explores every interleaving; locks, barriers, retries, scheduled tasks, collections and sets are driven through all operation sequences or outcomes under a controlled clock." },
    C24: { how: "All sequences of requests and confirmations in all forms, changes of participants and deadlines at one node; all schedules with slow signing; and networks of nodes with all delivery orders." }
};
