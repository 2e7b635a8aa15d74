"use strict";
// Histories of a channel as one node gets to know them, in every order: blocks and confirmations of several
// heights and two forks, the start of both forks, and what outsiders send.
const K = require("./nodecheck");
const N = require("./node");
const { Peer } = require("./peer");
const { genesis, wOf } = require("./situ");
const { W, X, build } = require("./blocks");
const { VerifSM, T, T0, CH, add, signBytes } = N;
const { ethers } = require("./ts");
const { H } = require("./types");

const confSig = (w, b) => signBytes(w, ethers.getBytes(H(b.canon)));
/**
 * o: {np, me, np2, heights, heights2}: np participants in fork 0, np2 in fork 1, so many blocks in each.
 * Returns all the messages by name: "0/1" the block of height 1 in fork 0, "0/1~2" participant 2's confirmation of it,
 * "fork 0", "fork 1", "0/1 outsider", "0/1 early" (an unfounded block by its right author)
 */
function history(o) {
    const me = W[o.me];
    const m = new Peer({ me: me.address, channel: CH, times: T });
    const msgs = {};
    for (const [f, np, hs] of [[0, o.np, o.heights], [1, o.np2, o.heights2]]) {
        const g = genesis(np, BigInt(7 * f) + BigInt(o.shift || 0)), t0 = T0 + 10 * f;
        msgs["fork " + f] = { ev: K.setState(g, f, t0), apply: (x) => (x.newFork(g, f, t0) ? "forked" : "ignored") };
        m.newFork(g, f, t0);
        for (let h = 0; h < hs; h++) {
            const st = m.state, a = wOf(VerifSM.next(st)), name = `${f}/${h}`;
            let b;
            if (a === me) {
                const bytes = m.play(add(1), T0);
                b = { bytes, canon: bytes, sig: signBytes(a, ethers.getBytes(H(bytes))), state: m.state };
            } else {
                b = build({ author: a, fork: f, height: h, ts: m.latestTs + 1, data: add(1), state: st });
                m.block(b.bytes, b.sig);
                msgs[name] = { ev: K.msgBlock(b), apply: (x) => x.block(b.bytes, b.sig), bytes: b.bytes };
                msgs[name + " posted"] = { ev: { t: "chain", name: "BlockCalldataPosted", args: { channelId: CH, signedBlock: { encodedBlock: b.bytes, signature: b.sig }, timestamp: BigInt(m.latestTs + 1) } }, apply: ((ts) => (x) => x.posted(b.bytes, b.sig, ts))(m.latestTs + 1), bytes: b.bytes };
                const other = build({ author: a, fork: f, height: h, ts: m.latestTs, data: add(2), state: st });
                msgs[name + " other"] = { ev: K.msgBlock(other), apply: (x) => x.block(other.bytes, other.sig) };
                const forged = { ...b, sig: signBytes(X, ethers.getBytes(H(b.bytes))) };
                msgs[name + " forged"] = { ev: K.msgBlock(forged), apply: (x) => x.block(forged.bytes, forged.sig) };
            }
            for (const w of [...W.slice(0, 3), X]) msgs[`${name}~${W.indexOf(w)}`] = { ev: K.msgConf(b, confSig(w, b)), apply: (x) => x.confirmation(b.bytes, b.sig, confSig(w, b)), bytes: b.bytes, own: a === me };
            const out = build({ author: X, fork: f, height: h, ts: m.latestTs, data: add(1), state: st });
            msgs[name + " outsider"] = { ev: K.msgBlock(out), apply: (x) => x.block(out.bytes, out.sig) };
        }
    }
    return { msgs, final: m };
}
/** all orders of k of the items */
function* orders(items, k = items.length) {
    if (!k) return yield [];
    for (let i = 0; i < items.length; i++) for (const r of orders([...items.slice(0, i), ...items.slice(i + 1)], k - 1)) yield [items[i], ...r];
}
async function fresh(prep, o, opts = {}) {
    const me = W[o.me];
    const n = await new N.Node({ file: prep.file, iface: K.ifaceOf(prep), wallet: me, peers: ["x"], hold: ["write"], now: T0 * 1000, ...opts }).start();
    return { n, model: new Peer({ me: me.address, channel: CH, times: T, disputes: true }), me };
}
module.exports = { history, orders, fresh };
