"use strict";
const { ethers, enc, dec, H, W, sign, sb, conf, state, block, PROOF, Chain, expect, main, T0, ZERO } = require("./kit.js");
const [A, B, C, X, J] = W;
const ID = ethers.id("demo");
main(async () => {
    const c = await Chain.create();
    await c.send(A, "open", [ID, [A.address, B.address, C.address], [5, 6, 7]], T0);
    const s = [0, 1, 2].map((n) => state(n, [A, B, C], [5, 6, 7]));
    const two = (w, cnt) => [1, 2].map((ts) => sb(block({ id: ID, by: w, cnt, ts: T0 + ts, data: c.add(1), next: s[1], prev: s[0] }), w));
    const pair = ([block1, block2]) => ({ block1, block2 });
    const proof = { proofType: PROOF.DoubleSign, encodedProof: enc("DoubleSign", { doubleSigns: [pair(two(A, 0)), pair(two(B, 1))] }) };
    expect("dispute", await c.send(C, "createDispute", [ID, 0, s[0], s[0], [], ZERO, 0, [proof]], T0 + 5));
    const d = await c.call("getDispute", [ID]);
    expect("both slashed", d.slashedParticipants.length === 2);
    expect("only C is left", (await c.call("getParticipants", [ID, 1])).length === 1);
});
