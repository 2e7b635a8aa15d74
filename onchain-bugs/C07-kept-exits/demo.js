"use strict";
const { ethers, enc, dec, H, W, sign, sb, conf, state, block, PROOF, Chain, expect, main, T0, ZERO } = require("./kit.js");
const [A, B, C, X, J] = W;
const ID = ethers.id("demo");
main(async () => {
    const c = await Chain.create();
    await c.send(A, "open", [ID, [A.address, B.address, C.address], [5, 6, 7]], T0);
    const s = [0, 1, 2].map((n) => state(n, [A, B, C], [5, 6, 7]));
    const two = (w, cnt) => [1, 2].map((ts) => sb(block({ id: ID, by: w, cnt, ts: T0 + ts, data: c.add(1), next: s[1], prev: s[0] }), w));
    const proof = (w, cnt) => { const [block1, block2] = two(w, cnt); return { proofType: PROOF.DoubleSign, encodedProof: enc("DoubleSign", { doubleSigns: [{ block1, block2 }] }) }; };
    expect("dispute", await c.send(C, "createDispute", [ID, 0, s[0], s[0], [], A.address, 0, []], T0 + 30));
    expect("one exit", (await c.call("getDispute", [ID])).processExits.length === 1);
    expect("challenge", await c.send(C, "challengeDispute", [ID, 0, 0, [proof(B, 1)], [], s[0], s[0]], T0 + 31));
    expect("two exits", (await c.call("getDispute", [ID])).processExits.length === 2);
});
