"use strict";
const { ethers, enc, dec, H, W, sign, sb, conf, state, block, PROOF, Chain, expect, main, T0, ZERO } = require("./kit.js");
const [A, B, C, X, J] = W;
const ID = ethers.id("demo");
main(async () => {
    const c = await Chain.create();
    await c.send(A, "open", [ID, [A.address, B.address], [5, 6]], T0);
    const s = state(0, [A, B], [5, 6]);
    const post = (w, cnt, at) => c.send(w, "postBlockCalldata", [sb(block({ id: ID, by: w, cnt, ts: at, next: s, prev: s }), w)], at);
    expect("post height 2", await post(A, 2, T0 + 1));
    expect("post height 1", await post(B, 1, T0 + 2));
    expect("latest up to 2", (await c.call("getChainLatestBlockTimestamp", [ID, 0, 2])) === BigInt(T0 + 2));
    expect("latest up to 1", (await c.call("getChainLatestBlockTimestamp", [ID, 0, 1])) === BigInt(T0 + 2));
});
