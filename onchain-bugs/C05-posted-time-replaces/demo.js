"use strict";
const { ethers, enc, dec, H, W, sign, sb, conf, state, block, PROOF, Chain, expect, main, T0, ZERO } = require("./kit.js");
const [A, B, C, X, J] = W;
const ID = ethers.id("demo");
main(async () => {
    const c = await Chain.create();
    await c.send(A, "open", [ID, [A.address, B.address], [5, 6]], T0);
    const s = [0, 1, 2].map((n) => state(n, [A, B], [5, 6]));
    const b0 = block({ id: ID, by: A, cnt: 0, ts: T0 + 1, data: c.add(1), next: s[1], prev: s[0] });
    const b1 = block({ id: ID, by: B, cnt: 1, ts: T0 + 10, data: c.add(1), next: s[2], prev: s[1] });
    expect("block 0 posted", await c.send(A, "postBlockCalldata", [sb(b0, A)], T0 + 2));
    const dispute = (at) => c.send(B, "createDispute", [ID, 0, s[0], s[2], [conf(b0, [A]), conf(b1, [B])], A.address, 2, []], at);
    expect("claim before the time since block 1 has passed", !(await dispute(T0 + 22)));
    expect("claim after it", await dispute(T0 + 28));
});
