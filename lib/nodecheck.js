"use strict";
// A real node next to its reference model: same inputs, compared after each one.
const { bundle, ethers, verifyMessage } = require("./ts");
const { compile } = require("./solc");
const N = require("./node");
const { Peer, signer } = require("./peer");
const Ty = require("./types");
const { H, enc } = Ty;

async function prepare() {
    const art = await compile(["verif/VerifManager.sol:VerifManager"]);
    return { file: await bundle(), abi: art.VerifManager.abi };
}
const ifaces = new Map();
const ifaceOf = (prep) => {
    if (!ifaces.has(prep.file)) ifaces.set(prep.file, new ethers.Interface(prep.abi));
    return ifaces.get(prep.file);
};
/** all signatures by `me` that left the node: [{hash}] of blocks (in messages and in calls to the chain) */
function released(out, me) {
    const r = new Set();
    const see = (bytes, sig) => {
        try {
            if (verifyMessage(ethers.getBytes(H(bytes)), sig) === me) r.add(bytes.toLowerCase());
        } catch {}
    };
    for (const m of out.sent) {
        const x = JSON.parse(m.data);
        const [sb, conf] = x.params;
        if (x.method === "onSignedBlock" || x.method === "onBlockConfirmation") {
            see(sb.encodedBlock, sb.signature);
            if (conf) see(sb.encodedBlock, conf);
        }
    }
    for (const c of out.calls) {
        if (c.name === "postBlockCalldata") see(c.args[0].encodedBlock, c.args[0].signature);
        const blocks = c.name === "createDispute" ? c.args[4] : c.name === "challengeDispute" ? c.args[4] : [];
        for (const b of blocks) for (const s of b.signatures) see(b.encodedBlock, s);
    }
    return r;
}
/** differences between a node and its model, [] if none */
function compare(n, model, { mine = true, signatures = true } = {}) {
    const bad = [];
    const nf = model.forks.length;
    for (let f = 0; f < nf; f++) {
        const got = n.chainOf(f), want = model.forks[f].blocks;
        if (got.length !== want.length) bad.push(`fork ${f}: ${got.length} blocks adopted, expected ${want.length}`);
        for (let h = 0; h < Math.min(got.length, want.length); h++) {
            if (got[h].bytes !== want[h].bytes) bad.push(`fork ${f} height ${h}: another block`);
            if (got[h].state !== want[h].state) bad.push(`fork ${f} height ${h}: another state`);
            if (!signatures) continue;
            const s = new Set(got[h].sigs.map((x) => signer(want[h].bytes, x)));
            const who = model.forks[f].participants.filter((p) => mine || p !== model.me); // mine: is the node's own signature compared?
            const ps = who.filter((p) => s.has(p)), pw = who.filter((p) => want[h].signers.has(p));
            if (ps.join() !== pw.join()) bad.push(`fork ${f} height ${h}: ${ps.length} participants' signatures held (${ps.map((x) => x.slice(2, 6))}), expected ${pw.length} (${pw.map((x) => x.slice(2, 6))})`);
            const odd = [...s].filter((p) => p !== model.me && !model.forks[f].participants.includes(p));
            if (odd.length) bad.push(`fork ${f} height ${h}: a signature that is no participant's is held`);
            const fin = n.ag.didEveryoneSignBlock(Ty.dec("Block", want[h].bytes));
            if (mine && fin !== model.final(f, h)) bad.push(`fork ${f} height ${h}: final=${fin}`);
        }
    }
    if (nf && n.sm.state !== model.state) bad.push("the state machine is not in the state after the last adopted block");
    return bad;
}
const setState = (state, fork, ts) => ({ t: "chain", name: "SetState", args: { channelId: N.CH, encodedState: state, forkCnt: BigInt(fork), timestamp: BigInt(ts) } });
const msgBlock = (b, from = "x") => ({ t: "msg", from, data: N.rpc("onSignedBlock", { encodedBlock: b.bytes, signature: b.sig }) });
const msgConf = (b, conf, from = "x") => ({ t: "msg", from, data: N.rpc("onBlockConfirmation", { encodedBlock: b.bytes, signature: b.sig }, conf) });
module.exports = { prepare, ifaceOf, released, compare, setState, msgBlock, msgConf };
