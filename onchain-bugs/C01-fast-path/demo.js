"use strict";
const { ethers, enc, dec, H, W, sign, sb, conf, state, block, PROOF, Chain, expect, main, T0, ZERO } = require("./kit.js");
const [A, B, C, X, J] = W;
const ID = ethers.id("demo");
main(async () => {
    const c = await Chain.create();
    const data = "0x1234";
    const v = async (l, s) => (await c.call("verifyThresholdSigned", [l.map((x) => x.address), data, s.map((x) => sign(x, data))], c.lib))[0];
    expect("both signed", await v([A, B], [A, B]));
    expect("both signed, other order", await v([A, B], [B, A]));
    expect("B twice, A missing", !(await v([A, B], [B, B])));
    expect("A and C, one of them twice", !(await v([A, B, C], [C, A, C])));
});
