"use strict";
const { ethers, enc, dec, H, W, sign, sb, conf, state, block, PROOF, Chain, expect, main, T0, ZERO } = require("./kit.js");
const [A, B, C, X, J] = W;
const ID = ethers.id("demo");
main(async () => {
    const c = await Chain.create();
    await c.send(A, "open", [ID, [A.address, B.address, C.address], [5, 6, 7]], T0);
    const s0 = state(0, [A, B, C], [5, 6, 7]);
    expect("dispute removes A", await c.send(B, "createDispute", [ID, 0, s0, s0, [], A.address, 0, []], T0 + 30));
    const join = async (w, amount, fork, at) => {
        const st = await c.call("getLatestState", [ID]);
        const ps = W.filter((x) => dec("State", st).participants.includes(x.address));
        const jc = enc("JoinChannel", { channelId: ID, participant: w.address, amount, deadlineTimestamp: at + 50, data: "0x" });
        const a = enc("JoinChannelAgreement", { signedJoinChannel: { encodedJoinChannel: jc, signature: sign(w, jc) }, submitter: B.address, forkCnt: fork, transactionCnt: 0, previousStateHash: H(st) });
        return c.send(B, "joinChannelWithAgreement", [{ encodedJoinChannelAgreement: a, signatures: ps.map((p) => sign(p, a)) }, st], at);
    };
    expect("X joins", await join(X, 9, 1, T0 + 50));
    expect("A's deposit paid", (await c.call("withdrawn", [ID])) === 5n);
    expect("J joins", await join(J, 8, 2, T0 + 51));
    expect("A's deposit paid once", (await c.call("withdrawn", [ID])) === 5n);
});
