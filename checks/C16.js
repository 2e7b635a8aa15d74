"use strict";
// What a node submits to the chain is what the contracts accept.
const C = require("../lib/court");
const trials = require("../lib/trials");

exports.level = "model_checking";
exports.assumptions = ["the chain is the executable specification that C01-C08 check against the contracts", "time passes only when nothing of the node is waiting", "a transaction that something else got ahead of (an event or a transaction that the node couldn't know yet) may be refused, and so may its repetition"];
exports.bounds = {
    quick: "10 situations (2-3 participants, once as an onlooker); up to 3 actions of the others (4 with 2 participants) in every order; up to 2 actions of which 1 overtakes what is under way",
    thorough: "up to 4 actions (5 with 2 participants), 3 with overtaking"
};
Object.assign(exports, trials({
    situations: () => [
        { np: 2, me: 1, pre: 1 }, { np: 2, me: 0, pre: 0 }, { np: 2, me: 0, pre: 2 }, { np: 2, me: 1, pre: 1, agreed: false }, { np: 2, me: 1, pre: 3 }, { np: 3, me: 1, pre: 1 }, { np: 3, me: 2, pre: 2, agreed: false }, { np: 3, me: 0, pre: 3 }, { np: 3, me: 0, pre: 2 }, { np: 2, me: 2, pre: 1 }
    ].map((s) => ({ ...s, families: ["blocks", "faults", "chain", "time"] })),
    plans: (tier, s) => (tier === "thorough" ? [{ depth: 2, bound: 2 }, { depth: 3, bound: 1 }, { depth: s.np === 2 ? 5 : 4, bound: 0 }] : [{ depth: 2, bound: 1 }, { depth: s.np === 2 ? 4 : 3, bound: 0 }]),
    judge: (ctx) => [...C.submissions(ctx), ...ctx.errors]
}));
exports.expect = ({ outcomes }) => (["no dispute", "somebody was slashed"].every((k) => outcomes[k]) ? null : "some kind of outcome never occurred: " + JSON.stringify(outcomes));
