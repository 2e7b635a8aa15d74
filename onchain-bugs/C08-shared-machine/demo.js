"use strict";
const { ethers, enc, dec, H, W, sign, sb, conf, state, block, PROOF, Chain, expect, main, T0, ZERO } = require("./kit.js");
const [A, B, C, X, J] = W;
const ID = ethers.id("demo");
const ID2 = ethers.id("other");
main(async () => {
    const c = await Chain.create();
    await c.send(A, "open", [ID, [A.address, B.address], [5, 6]], T0);
    await c.send(A, "open", [ID2, [C.address, X.address, J.address], [5, 6, 7]], T0);
    const s0 = state(0, [A, B], [5, 6]);
    expect("dispute", await c.send(B, "createDispute", [ID, 0, s0, s0, [], A.address, 0, []], T0 + 30));
    expect("first channel", String(await c.call("getParticipants", [ID, 1])) === String([B.address]));
    await c.send(A, "getParticipants", [ID2, 0], T0 + 31);
    expect("other channel", String(await c.call("getParticipants", [ID2, 0])) === String([C.address, X.address, J.address]));
    expect("first channel after the other was used", String(await c.call("getParticipants", [ID, 1])) === String([B.address]));
});
