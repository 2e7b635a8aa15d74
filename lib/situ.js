"use strict";
// Situations of a node: who it is, how many participants, what it has adopted already, which fork.
const K = require("./nodecheck");
const N = require("./node");
const { Peer } = require("./peer");
const { VerifSM, T, T0, CH, add } = N;
const { W, X, build } = require("./blocks");
const genesis = (n, number = 0n) => VerifSM.encode({ number, participants: W.slice(0, n).map((w) => w.address), balances: W.slice(0, n).map((_, i) => BigInt(100 + i)) });
const wOf = (a) => [...W].find((w) => w.address === a);
/** s: {np, me, pre, fork, now?, chainTs?, peers?, opts?} -> {n, model, me, past} */
async function setup(prep, s) {
    const me = W[s.me];
    const chainTs = s.chainTs ? T0 + s.chainTs : 0;
    const answer = (name, args, kind) => (name === "getChainLatestBlockTimestamp" ? BigInt(chainTs) : N.defaultAnswer(name, args, kind));
    const n = await new N.Node({ file: prep.file, iface: K.ifaceOf(prep), wallet: me, peers: s.peers || ["x"], hold: ["write"], answer, now: (T0 + (s.now || 0)) * 1000, ...(s.opts || {}) }).start();
    const model = new Peer({ me: me.address, channel: CH, times: T, chainTs: () => chainTs });
    const feed = async (state, f, ts) => {
        await n.step(K.setState(state, f, ts));
        model.newFork(state, f, ts);
    };
    const past = [];
    const blockBy = async (fork, height, ts) => {
        const st = model.state, a = wOf(VerifSM.next(st));
        if (a === me) {
            await n.step({ t: "play", data: add(1) });
            const bytes = model.play(add(1), Math.floor(n.now / 1000));
            past.push({ bytes, canon: bytes, author: a, own: true, sig: N.signBytes(a, require("./ts").ethers.getBytes(require("./types").H(bytes))) });
        } else {
            const b = build({ author: a, fork, height, ts, data: add(1), state: st });
            await n.step(K.msgBlock(b));
            model.block(b.bytes, b.sig);
            past.push({ ...b, author: a });
        }
    };
    await feed(genesis(s.np), 0, T0);
    for (let f = 0; f < s.fork; f++) {
        // one block in each earlier fork (if somebody else writes it), then the next one starts
        if (wOf(VerifSM.next(model.state)) !== me) await blockBy(f, 0, T0 + 3 * f + 1);
        await feed(genesis(s.np, 7n * BigInt(f + 1)), f + 1, T0 + 3 * f + 3);
    }
    for (let i = 0; i < s.pre; i++) await blockBy(s.fork, i, model.latestTs + 1);
    return { n, model, me, past };
}
module.exports = { setup, genesis, wOf };
