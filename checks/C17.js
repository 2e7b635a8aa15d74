"use strict";
// A court that punishes who provably misbehaved, and never the honest node.
const C = require("../lib/court");
const trials = require("../lib/trials");

exports.level = "model_checking";
exports.assumptions = [
    "the chain is the executable specification that C01-C08 check against the contracts",
    "time passes only when no transaction, receipt, event or due timer of the node is waiting (it is granted the times that the protocol grants)",
    "the others are one adversary with all their keys"
];
exports.bounds = {
    quick: "7 situations (2-3 participants); up to 4 actions out of 14-30 (blocks, confirmations, own transactions, double signing, incorrect blocks, posts, disputes with histories of every length, timeouts, challenges, time) in every order, one after the other; up to 2 actions overtaking what is under way; one lost transaction",
    thorough: "the same with up to 5 actions, 3 overtaking"
};
Object.assign(exports, trials({
    situations: () => [
        // evidence, dispute and challenge race each other
        { np: 4, me: 0, pre: 1, only: /^bad block|1 accuses|1 challenges/ }, { np: 3, me: 0, pre: 1, only: /^bad block|accuses|challenges/ }, { np: 3, me: 2, pre: 0, only: /^bad block|accuses|challenges|confirm|play/ },
        { np: 2, me: 1, pre: 1 }, { np: 2, me: 0, pre: 0 }, { np: 2, me: 0, pre: 2 }, { np: 2, me: 1, pre: 1, agreed: false }, { np: 3, me: 1, pre: 1 }, { np: 3, me: 2, pre: 2, agreed: false }, { np: 3, me: 0, pre: 1 }
    ].map((s) => ({ ...s, families: ["blocks", "faults", "chain", "time", "prior"] })),
    plans: (tier, s) => (s.only ? [{ depth: 3, bound: 2 }] : tier === "thorough" ? [{ depth: 1, bound: 2, faults: 1 }, { depth: 2, bound: 2, faults: 1 }, { depth: 3, bound: 1, faults: 0 }, { depth: 4, bound: 0, faults: 0 }, ...(s.np === 2 ? [{ depth: 5, bound: 0, faults: 0 }] : [])]
        : [{ depth: 1, bound: 1, faults: 1 }, { depth: 2, bound: 1, faults: 1 }, { depth: 3, bound: 0, faults: 0 }, ...(s.np === 2 ? [{ depth: 4, bound: 0, faults: 0 }] : [])]),
    judge: (ctx) => [...C.verdict(ctx), ...C.follows(ctx), ...ctx.errors],
    key: (b, ctx, c) => `${b}${ctx.log.some((l) => /prior block/.test(l)) ? " (after a challenge with a prior block)" : `: ${c.script.join(", ")}`}`
}));
exports.expect = ({ outcomes }) => (["no dispute", "somebody was slashed", "somebody was timed out"].every((k) => outcomes[k]) ? null : "some kind of outcome never occurred: " + JSON.stringify(outcomes));
