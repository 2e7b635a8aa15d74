"use strict";
// C03: data availability. Every deviation (up to 3 at once) of one posting, and all sequences of postings up
// to a depth, against a model of what was posted, by whom and when.
const Wd = require("../lib/world");
const { World, A, B, X, sb, block, sign, ethers, W, norm } = Wd;
const { probe, explore, follow, deviations, show } = require("../lib/onchain");
const ID = ethers.id("c03");
const ID2 = ethers.id("c03-other");
const T0 = 1_000_000_000;
const Z = ethers.id("zzz");
const FORKS = 3, CNTS = 4;
const nm = (s) => "ABCXJ"[W.indexOf(s)];
const WHO = [A, B, X];

async function setup(art) {
    const w = await World.create(art);
    await w.open(ID, [A, B].map((p) => p.address), [100, 101], T0);
    await w.open(ID2, [A, B].map((p) => p.address), [5, 6], T0);
    return w;
}
async function differs(w, id) {
    const r = await w.chain.call(w.m, "posted", [id, FORKS, CNTS, WHO.map((x) => x.address)]);
    const [p, latest] = r.ret;
    let k = 0;
    for (let f = 0; f < FORKS; f++)
        for (let c = 0; c < CNTS; c++)
            for (const who of WHO) {
                const m = w.spec.postedBy(id, f, c, who.address);
                const g = p[k++];
                const want = m ? [true, m.sb.encodedBlock, m.sb.signature, m.ts] : [false, "0x", "0x", 0n];
                if (show([g.found, g.encodedBlock, g.signature, g.timestamp]) !== show(want))
                    return { field: `calldata fork ${f} height ${c} by ${nm(who)}`, impl: show([...g]).slice(0, 80), model: show(want).slice(0, 80) };
            }
    k = 0;
    for (let f = 0; f < FORKS; f++)
        for (const c of [...Array(CNTS).keys(), (1n << 256n) - 1n]) {
            const want = w.spec.latestPostedTime(id, f, c);
            if (latest[k++] !== want) return { field: `latest posting on fork ${f} up to height ${c}`, impl: String(latest[k - 1]), model: String(want) };
        }
    return null;
}
const win = 5 + 6 + 7;
function* single(w, k) {
    const now = w.time + 1;
    for (const o of deviations({
        author: [A, B, X], from: ["author", A, B, X], signer: ["author", A, B, X], fork: [0, 1, 2], cnt: [0, 1, 3], ch: [0, 1],
        ts: [0, 1, -1, -5, -(win - 1), -win, -(win + 1), -100000, "zero", "huge"], data: ["0x", "0x01", "junk block", "trailing"], sig: ["ok", "malformed", "empty", "other block"]
    }, k)) {
        const author = o.author;
        const from = o.from === "author" ? author : o.from;
        const signer = o.signer === "author" ? author : o.signer;
        const ts = o.ts === "zero" ? 0 : o.ts === "huge" ? (1n << 256n) - 1n : now + o.ts;
        let b = block({ channelId: o.ch ? ID2 : ID, participant: author.address, fork: o.fork, cnt: o.cnt, ts, data: o.data.startsWith("0x") ? o.data : "0x", stateHash: Z, prev: Z });
        if (o.data === "junk block") b = "0x1234";
        if (o.data === "trailing") b += "00".repeat(32);
        let s = sign(signer, b);
        if (o.sig === "malformed") s = s.slice(0, 130);
        if (o.sig === "empty") s = "0x";
        if (o.sig === "other block") s = sign(signer, b + "00");
        yield [JSON.stringify({ ...o, author: nm(author), from: nm(from), signer: nm(signer) }), { op: "post", id: ID, sb: sb(b, s), from: from.address, at: now }];
    }
}
function* seq(w) {
    const now = w.time + 3;
    for (const who of [A, B])
        for (const ch of [ID, ID2])
            for (const fork of [0, 1])
                for (const cnt of [0, 1, 2])
                    for (const data of fork || ch === ID2 ? ["0x"] : ["0x", "0x01"]) {
                        // the header time is what an author claims, the posting time is the chain's
                        const b = block({ channelId: ch, participant: who.address, fork, cnt, ts: now - (cnt % 2 ? 0 : 10), data, stateHash: Z, prev: Z });
                        yield [`${nm(who)} posts ${data} at height ${cnt} of fork ${fork} of channel ${ch === ID ? 1 : 2}`, { op: "post", id: ch, sb: sb(b, who), from: who.address, at: now }];
                    }
}
const monitor = (rec) => ({
    async before() {},
    async after(w, _, r, path) {
        rec.add("registers_compared", 2 * FORKS * (CNTS * WHO.length + CNTS + 1));
        for (const id of [ID, ID2]) {
            const d = await differs(w, id);
            if (d) rec.violation(`${d.field} after ${path.map((x) => x[0]).join(" ; ")}`, `the chain reports ${d.impl}, posted was ${d.model}`, { path: path.map((x) => x[0]) });
        }
        rec.state(show([ID, ID2].map((i) => w.spec.c(i).posted.map((p) => [p.fork, p.cnt, p.sender, p.ts, p.sb.encodedBlock]))));
    }
});
module.exports = {
    level: "model_checking",
    bounds: {
        quick: "one posting: all combinations of <=3 deviations in 9 fields; all posting sequences of length 2 (2 authors, 2 channels, 2 forks, 3 heights, 2 conflicting blocks), every register of both channels read after each",
        thorough: "<=4 deviations, sequences of length 3"
    },
    assumptions: ["EDR executes EVM code as the chain does"],
    async prepare() {
        return { art: await World.prepare() };
    },
    async run({ opt, prep, shard, shards, rec }) {
        const big = opt.tier === "thorough";
        let w = await setup(prep.art);
        let base = await w.snap();
        let i = 0;
        for (const [label, op] of single(w, big ? 4 : 3)) {
            if (i++ % shards !== shard) continue;
            const s0 = { spec: w.spec, time: w.time };
            const r = await probe(w, rec, op, label, { keep: true, ids: [], replay: () => ({ single: label }) });
            rec.add("traces");
            if (r.impl.ok || r.model.ok) {
                for (const id of [ID, ID2]) {
                    const d = await differs(w, id);
                    if (d) rec.violation(`${d.field} after ${label}`, `the chain reports ${d.impl}, posted was ${d.model}`, { single: label });
                }
                await w.back(base);
                base = await w.snap();
                base.spec = s0.spec;
            }
            w.spec = s0.spec;
            w.time = s0.time;
        }
        w = await setup(prep.art);
        await explore(w, rec, { depth: big ? 3 : 2, ops: seq, ids: [], shard, shards, monitor: monitor(rec) });
    },
    async replay(v, rec, prep) {
        const w = await setup(prep.art);
        if (v.single) {
            for (const [l, op] of single(w, 4))
                if (l === v.single) {
                    await probe(w, rec, op, l, { keep: true, ids: [] });
                    for (const id of [ID, ID2]) {
                        const d = await differs(w, id);
                        if (d) rec.violation(d.field, `the chain reports ${d.impl}, posted was ${d.model}`, v);
                    }
                    return;
                }
        } else await follow(w, rec, { path: v.path, ops: seq, ids: [], monitor: monitor(rec) });
    },
    expect({ outcomes }) {
        if (!(outcomes.accept > 300)) return "outcomes " + JSON.stringify(outcomes);
    }
};
