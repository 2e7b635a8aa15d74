"use strict";
// The signatures of a node never contradict the histories that it submits to the chain.
const C = require("../lib/court");
const trials = require("../lib/trials");

exports.level = "model_checking";
exports.assumptions = ["the chain is the executable specification that C01-C08 check against the contracts", "time passes only when nothing of the node is waiting"];
exports.bounds = {
    quick: "9 situations (2-3 participants), signer or state machine or both slow; up to 2 actions of the others, 2 of them (3 and 1) overtaking what is under way - messages, posts, disputes, challenges, time",
    thorough: "up to 3 actions with 2 overtaking, 4 with 1"
};
Object.assign(exports, trials({
    situations: () => [
        { np: 2, me: 1, pre: 0, hold: ["sign"] }, { np: 2, me: 0, pre: 0, hold: ["sign"] }, { np: 2, me: 0, pre: 2, agreed: false, hold: ["sign"] }, { np: 3, me: 1, pre: 1, hold: ["sign"] }, { np: 3, me: 2, pre: 1, hold: ["sign"] }, { np: 3, me: 2, pre: 0, hold: ["sm"] }, { np: 3, me: 0, pre: 0, hold: ["sm", "sign"] }, { np: 3, me: 2, pre: 1, agreed: false, hold: ["sm", "sign"] }
    ].map((s) => ({ ...s, families: ["blocks", "faults", "chain", "time"] })),
    plans: (tier, s) => (tier === "thorough" ? [{ depth: 3, bound: 2 }, { depth: 4, bound: 1 }] : [{ depth: 2, bound: s.hold.includes("sm") ? 1 : 2 }, { depth: 3, bound: s.hold.includes("sm") ? 0 : 1 }]),
    judge: (ctx) => C.signatures(ctx)
}));
exports.expect = ({ outcomes }) => (["no dispute", "somebody was slashed"].every((k) => outcomes[k]) ? null : "some kind of outcome never occurred: " + JSON.stringify(outcomes));
