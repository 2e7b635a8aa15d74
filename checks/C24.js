"use strict";
// Join requests: who gets a node's confirmation, and when a request counts as confirmed by everybody.
const K = require("../lib/nodecheck");
const N = require("../lib/node");
const I = require("../lib/interleave");
const Sw = require("../lib/swarm");
const Ty = require("../lib/types");
const { ethers, verifyMessage, rq } = require("../lib/ts");
const { W, X, malleate } = require("../lib/blocks");
const { genesis } = require("../lib/situ");
const { rpc, T0, CH, signBytes, VerifSM } = N;
const { H, enc } = Ty;

exports.level = "model_checking";
exports.bounds = {
    quick: "one node (a participant of 2 or 3, or not one): every sequence of 3 arrivals/changes out of 37 (requests in 17 forms, confirmations by everybody in 7 forms, deadlines passing, participants changing) and every sequence of 4 of 10; 3 arrivals with signing and reading of participants slow in every order of completion with up to 2 overtakings; 3 nodes that pass on what they get, all orders of delivery",
    thorough: "every sequence of 4 of 37 and of 5 of 10; 4 arrivals with 3 overtakings; two requests at once among 3 nodes"
};
exports.prepare = K.prepare;

const Y = W[4];
const hash = (bytes) => ethers.getBytes(H(bytes));
const jc = (o = {}) => enc("JoinChannel", { channelId: CH, participant: X.address, amount: 5n, deadlineTimestamp: BigInt(T0 + 50), data: "0x", ...o });
/** {bytes, sig, ok, until, canon} */
const form = (o = {}) => {
    const bytes = o.bytes || jc(o.jc);
    return { bytes, sig: o.sig ? o.sig(bytes) : signBytes(o.by || X, hash(bytes)), ok: !!o.ok, until: Number((o.jc && o.jc.deadlineTimestamp) || T0 + 50) };
};
const FORMS = {
    J: form({ ok: true }),
    "another amount": form({ ok: true, jc: { amount: 6n } }),
    "another joiner": form({ ok: true, by: Y, jc: { participant: Y.address } }),
    "by a participant": form({ ok: true, by: W[1], jc: { participant: W[1].address } }),
    "deadline in 60 days": form({ ok: true, jc: { deadlineTimestamp: BigInt(T0 + 60 * 86400) } }),
    "deadline in 2^200": form({ ok: true, jc: { deadlineTimestamp: 2n ** 200n } }),
    "deadline now": form({ jc: { deadlineTimestamp: BigInt(T0) } }),
    "deadline in a second": form({ ok: true, jc: { deadlineTimestamp: BigInt(T0 + 1) } }),
    "deadline past": form({ jc: { deadlineTimestamp: BigInt(T0 - 1) } }),
    "deadline 0": form({ jc: { deadlineTimestamp: 0n } }),
    "other channel": form({ jc: { channelId: ethers.id("other") } }),
    "signed by another": form({ by: Y }),
    "signed by a participant": form({ by: W[1] }),
    "signature malformed": form({ sig: () => "0x12" }),
    "with more behind": form({ bytes: jc() + "00".repeat(32) }),
    "in upper case": form({ bytes: "0x" + jc().slice(2).toUpperCase() }),
    "no request": form({ bytes: "0x1234" })
};
for (const [k, f] of Object.entries(FORMS)) f.name = k;
// signature of the lower-case form, so that only the form differs
FORMS["in upper case"].sig = FORMS.J.sig;
/** another signature of the same by the same, as good as the first */
const again = (w, b) => {
    const { secp256k1 } = require("module").createRequire(rq.resolve("ethers"))("@noble/curves/secp256k1");
    const s = secp256k1.sign(ethers.hashMessage(hash(b)).slice(2), w.privateKey.slice(2), { lowS: true, extraEntropy: new Uint8Array(32).fill(7) });
    return ethers.Signature.from({ r: ethers.toBeHex(s.r, 32), s: ethers.toBeHex(s.s, 32), v: 27 + s.recovery }).serialized;
};
const GOOD = ["good", "anew"];
const CONFS = {
    good: (w, b) => signBytes(w, hash(b)),
    anew: again,
    malformed: () => "0x55",
    compact: (w, b) => ethers.Signature.from(signBytes(w, hash(b))).compactSerialized,
    malleated: (w, b) => malleate(signBytes(w, hash(b))),
    object: (w, b) => (({ r, s, v }) => ({ r, s, v }))(ethers.Signature.from(signBytes(w, hash(b)))),
    "of another request": (w) => signBytes(w, hash(FORMS["another amount"].bytes))
};
const msg = (f, conf) => ({ t: "msg", from: "x", data: rpc("onJoinChannelRequest", { encodedJoinChannel: f.bytes, signature: f.sig }, ...(conf === undefined ? [] : [conf])) });
function alphabet() {
    const ev = [];
    for (const k in FORMS) ev.push({ f: k });
    for (const w of [0, 1, 2, 3]) ev.push({ f: "J", w, c: "good" });
    ev.push({ f: "J", w: 0, c: "anew" });
    for (const c in CONFS) if (c !== "good") ev.push({ f: "J", w: 1, c });
    ev.push({ f: "another amount", w: 1, c: "good" }, { f: "signed by another", w: 1, c: "good" }, { f: "deadline in 60 days", w: 1, c: "good" }, { f: "deadline in a second", w: 1, c: "good" });
    ev.push({ time: 1 }, { time: 50 }, { parts: [0, 1] }, { parts: [1, 2] }, { parts: [] });
    return ev;
}
const CORE = [{ f: "J" }, { f: "J", w: 0, c: "good" }, { f: "J", w: 1, c: "good" }, { f: "J", w: 2, c: "good" }, { f: "J", w: 3, c: "good" }, { f: "J", w: 1, c: "anew" }, { f: "another amount", w: 1, c: "good" }, { time: 50 }, { parts: [0, 1] }, { parts: [0, 1, 2] }];
const label = (e) => (e.f ? e.f + (e.c ? ` with ${e.w}'s confirmation` + (e.c === "good" ? "" : " " + e.c) : "") : e.time ? `${e.time}s pass` : "participants " + e.parts);

const withParticipants = (ps) => VerifSM.encode({ number: 0n, participants: ps.map((i) => W[i].address), balances: ps.map(() => 1n) });
async function make(prep, s, o = {}) {
    const n = await new N.Node({ file: prep.file, iface: K.ifaceOf(prep), wallet: W[s.me], peers: ["x", "y"], ...o }).start();
    await n.step(K.setState(withParticipants(s.parts), 0, T0));
    return n;
}
const queue = (n) => n.p2p.localRpcService.joinChannelService.joinChannelQueue;

class Model {
    constructor(s) {
        this.me = W[s.me].address;
        this.parts = s.parts.map((i) => W[i].address);
        this.known = new Map(); // bytes -> {confs}
        this.queued = [];
    }
    /** -> does the node confirm? */
    arrive(e, now) {
        const f = FORMS[e.f];
        if (!f.ok || f.until <= now) return false;
        const fresh = !this.known.has(f.bytes);
        if (fresh) this.known.set(f.bytes, { confs: new Set([this.me]), until: f.until });
        const { confs } = this.known.get(f.bytes);
        if (GOOD.includes(e.c)) {
            const a = W[e.w].address;
            // whoever isn't a participant isn't asked
            if (this.parts.includes(a)) confs.add(a);
            else return fresh;
        } else if (e.c) return fresh;
        if (this.parts.length && this.parts.every((p) => confs.has(p)) && !this.queued.some((q) => q.bytes === f.bytes)) this.queued.push({ bytes: f.bytes, sig: f.sig, by: [...this.parts] });
        return fresh;
    }
    expire(now) {
        for (const [b, k] of this.known) if (k.until <= now) this.known.delete(b);
    }
}
/** the queue as it should be */
function compareQueue(q, want) {
    const bad = [];
    if (q.length !== want.length) return [`${q.length} requests count as confirmed, expected ${want.length}`];
    q.forEach((x, i) => {
        const w = want[i], b = x.signedJoinChannel.encodedJoinChannel;
        if (b !== w.bytes || x.signedJoinChannel.signature !== w.sig) return bad.push("another request counts as confirmed");
        const by = x.confirmationSignatures.map((s) => {
            try {
                return ethers.isHexString(s, 65) && verifyMessage(hash(b), s);
            } catch {}
        });
        if (by.length !== w.by.length || w.by.some((p) => !by.includes(p))) bad.push(`signatures by ${by.map((a) => W.findIndex((w) => w.address === a))} are queued`);
    });
    return bad;
}
/** what was sent and signed, given what had to be */
function compareOut(out, confirms, me, f, peers) {
    const bad = [];
    const sent = out.sent.map((m) => ({ to: m.to, ...JSON.parse(m.data) }));
    if (out.signed.length !== (confirms ? 1 : 0)) bad.push(`signed ${out.signed.length} times`);
    if (confirms && out.signed[0] !== H(f.bytes)) bad.push("signed something else");
    if (sent.length !== (confirms ? peers : 0)) bad.push(`${sent.length} messages`);
    for (const m of sent) {
        const [r, c] = m.params;
        let by;
        try {
            by = verifyMessage(hash(f.bytes), c);
        } catch {}
        if (m.method !== "onJoinChannelRequest" || r.encodedJoinChannel !== f.bytes || r.signature !== f.sig || by !== me) bad.push("sent something else");
    }
    if (new Set(sent.map((m) => m.to)).size !== sent.length) bad.push("sent twice to one");
    if (out.calls.length) bad.push("called the chain");
    bad.push(...out.errors);
    return bad;
}
const SITS = [{ me: 0, parts: [0, 1] }, { me: 0, parts: [0, 1, 2] }, { me: 0, parts: [0] }, { me: 2, parts: [0, 1] }];
async function sequence(prep, s, events, rec) {
    const n = await make(prep, s), m = new Model(s);
    const trouble = [];
    for (const e of events) {
        const at = (x) => trouble.push(`${label(e)}: ${x}`);
        let out, f, confirms = false;
        if (e.time) {
            out = await n.step({ t: "time", at: n.now + e.time * 1000 });
            m.expire(Math.floor(n.now / 1000));
        } else if (e.parts) {
            out = await n.step({ t: "do", f: (n) => (n.sm.state = withParticipants(e.parts)) });
            m.parts = e.parts.map((i) => W[i].address);
        } else {
            f = FORMS[e.f];
            confirms = m.arrive(e, Math.floor(n.now / 1000));
            out = await n.step(msg(f, e.c && CONFS[e.c](W[e.w], f.bytes)));
        }
        compareOut(out, confirms, m.me, f, 2).forEach(at);
        compareQueue(queue(n), m.queued).forEach(at);
        rec.transition();
        rec.outcome(e.f ? (confirms ? "confirmed" : FORMS[e.f].ok ? "not confirmed again" : "not confirmed") : "change");
        if (trouble.length) break;
    }
    if (m.queued.length) rec.outcome("queued");
    rec.add("traces");
    rec.state([s, [...m.known].map(([b, k]) => [b, [...k.confs]]), m.queued, m.parts, n.now]);
    if (trouble.length) rec.violation(trouble[0], `${JSON.stringify(s)}: ${events.map(label).join(", ")}: ${trouble.join(" | ")}`, { s, events });
    else if (m.queued.length) rec.sample({ s, events: events.map(label) });
}
// --- slow signing and reading, every order of completion ---
async function slow(prep, s, events, bound, rec) {
    const evs = events.map((e) => ({ name: label(e), ev: msg(FORMS[e.f], e.c && CONFS[e.c](W[e.w], FORMS[e.f].bytes)) }));
    const mk = async () => ({ n: await make(prep, s) });
    const visit = async (r) => {
        const m = new Model(s);
        for (const e of events) m.arrive(e, T0);
        const names = r.trail.map((t) => t.label);
        const trouble = [...r.log.errors];
        const got = queue(r.ctx.n), key = (x) => x.bytes || x.signedJoinChannel.encodedJoinChannel;
        // once each, in whatever order
        const want = [...m.queued].sort((a, b) => got.findIndex((x) => key(x) === a.bytes) - got.findIndex((x) => key(x) === b.bytes));
        trouble.push(...compareQueue(got, want));
        for (const h of new Set(r.log.signed.map((x) => x.hash))) if (![...m.known.keys()].some((b) => H(b) === h)) trouble.push("signed something else");
        for (const b of m.known.keys()) if (!r.log.sent.some((x) => JSON.parse(x.data).params[0].encodedJoinChannel === b)) trouble.push("a request wasn't confirmed");
        rec.add("schedules");
        rec.transition(r.trail.length);
        rec.outcome("slow: " + (m.queued.length ? "queued" : "not queued"));
        if (trouble.length) rec.violation("slow: " + trouble[0], `${JSON.stringify(s)}: ${names.join(", ")}: ${trouble.join(" | ")}`, { s, slow: events, bound, prefix: r.trail.map((t) => t.pick) });
    };
    return { mk, events: evs, hold: ["sign", "sm"], bound, visit };
}
// --- several nodes ---
const first = (f, c) => msg(FORMS[f], c).data;
const NETS = (tier) => [
    { name: "request sent to everybody", net: { "3>0": [first("J")], "3>1": [first("J")], "3>2": [first("J")] }, all: ["J"] },
    { name: "request sent to one", net: { "3>1": [first("J")] }, all: ["J"] },
    { name: "request sent to two, and by an outsider with its own confirmation", net: { "3>0": [first("J"), first("J", CONFS.good(Y, FORMS.J.bytes))], "3>1": [first("J")] }, all: ["J"] },
    { name: "two nodes", np: 2, net: { "3>0": [first("J"), first("another amount")], "3>1": [first("J")] }, all: ["J", "another amount"] },
    ...(tier === "thorough" ? [{ name: "two requests", net: { "3>0": [first("J")], "3>1": [first("another amount")] }, all: ["J", "another amount"], ordered: true }] : [])
];
async function swarm(prep, c, rec, replay) {
    const np = c.np || 3;
    const parts = [...Array(np).keys()];
    const opt = {
        np: 4, who: parts, start: [{ fork: 0, state: withParticipants(parts), ts: T0 }], ready: true, heights: { 0: 0 }, net: c.net, bag: !c.ordered, maxDepth: 60,
        look: (n) => JSON.parse(JSON.stringify(queue(n)))
    };
    const bad = (what, at) => rec.violation(c.name + ": " + what, `${c.name}: ${what}: ${at().trace.join(", ")}`, { swarm: c.name, choices: at().choices });
    const r = await Sw.explore(prep, opt, {
        rec, replay,
        alarm: bad,
        state: (g, en, at) => {
            rec.state(c.name + JSON.stringify(parts.map((i) => g.loc[i].id)) + en.length + [...g.net].map(([k, q]) => k + q.length));
            for (const i of parts) {
                const q = g.loc[i].seen;
                if (q.length > c.all.length) bad("a request counts as confirmed twice", at);
                for (const x of q) for (const t of compareQueue([x], [{ bytes: x.signedJoinChannel.encodedJoinChannel, sig: x.signedJoinChannel.signature, by: parts.map((k) => W[k].address) }])) bad(t, at);
                if (!en.length) for (const f of c.all) if (!q.some((x) => x.signedJoinChannel.encodedJoinChannel === FORMS[f].bytes)) bad(`at node ${i} a request never counts as confirmed`, at);
            }
            if (!en.length) rec.outcome("all nodes done");
        }
    });
    if (r.states) rec.add("swarm states", r.states);
}
exports.run = async ({ opt, prep, rec, mine }) => {
    const deep = opt.tier === "thorough" ? 1 : 0;
    let i = 0;
    for (const c of NETS(opt.tier)) if (await mine(i++)) await swarm(prep, c, rec);
    const all = alphabet();
    const go = async (s, evs, pre, depth) => {
        if (pre.length === depth) return sequence(prep, s, pre, rec);
        for (const e of evs) await go(s, evs, [...pre, e], depth);
    };
    for (const s of SITS) {
        for (const e of CORE) for (const f of CORE) if (await mine(i++)) await go(s, CORE, [e, f], 4 + deep);
        // the first one is a request that's taken, or anything, then anything
        for (const e of all) for (const f of all) if (await mine(i++)) await ((deep || s === SITS[0]) && (e.f || deep) ? go(s, all, [e, f], 3 + deep) : go(s, all, [e, f], 2));
    }
    const RACE = [{ f: "J" }, { f: "J", w: 1, c: "good" }, { f: "J", w: 2, c: "good" }, { f: "J", w: 3, c: "good" }, { f: "another amount", w: 1, c: "good" }, { f: "signed by another", w: 1, c: "good" }];
    for (const s of SITS) for (let a = 0; a < RACE.length; a++) for (let b = a; b < RACE.length; b++) for (let c = b; c < RACE.length; c++) if (await mine(i++)) {
        const o = await slow(prep, s, [a, b, c].map((x) => RACE[x]), 2 + deep, rec);
        await I.explore(o, o.visit);
    }
};
exports.replay = async (v, rec, prep) => {
    if (v.swarm) return swarm(prep, NETS("thorough").find((c) => c.name === v.swarm), rec, v.choices);
    if (v.slow) {
        const o = await slow(prep, v.s, v.slow, v.bound, rec);
        return o.visit(await I.runOne({ ...o, prefix: v.prefix }));
    }
    return sequence(prep, v.s, v.events, rec);
};
exports.expect = ({ outcomes }) => (["confirmed", "not confirmed", "not confirmed again", "queued", "slow: queued", "all nodes done"].some((x) => !outcomes[x]) ? "some outcome never occurred: " + JSON.stringify(outcomes) : null);
