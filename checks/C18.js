"use strict";
// Whatever a peer sends, the node isn't brought down by it, gives nothing away, and goes on as if it hadn't come.
const K = require("../lib/nodecheck");
const N = require("../lib/node");
const I = require("../lib/interleave");
const Ty = require("../lib/types");
const { ethers } = require("../lib/ts");
const { W, X, build } = require("../lib/blocks");
const { genesis } = require("../lib/situ");
const { rpc, T, T0, CH, add, signBytes, VerifSM } = N;
const { H, enc } = Ty;

exports.level = "model_checking";
exports.assumptions = ["messages that a well-behaved peer could send as well are left to the other properties"];
exports.bounds = {
    quick: "some 400 malformed messages (everything but JSON, envelopes, all names of members of the service and of every object, every part of the parameters of all 11 methods replaced by 17 other values, left out or added to, every word of an encoded block replaced by 8 values, signed again or not) at each of 8 points of a history of 7 events, in 3 situations; each kind of them arriving while the history's events are being processed, every schedule with up to 2 overtakings",
    thorough: "also every pair of 60 malformed messages at 4 points; schedules with 3 overtakings"
};
exports.prepare = K.prepare;

// --- malformed messages ---
const ODD = { null: null, true: true, "0": 0, "-1": -1, "1e308": 1e308, "0.5": 0.5, '""': "", '"0x"': "0x", '"0x00"': "0x00", '"zz"': "zz", '"0xzz"': "0xzz", '"__proto__"': "__proto__", "[]": [], "[[]]": [[[]]], "{}": {}, "{toString}": { toString: null, length: -1 }, "long": "0x" + "ff".repeat(3000) };
/** all ways to replace one part of a value */
function* mutants(v, path = "") {
    for (const k in ODD) if (JSON.stringify(ODD[k]) !== JSON.stringify(v)) yield [`${path || "it"} = ${k}`, ODD[k]];
    if (v && typeof v === "object") {
        const at = (k, x) => (Array.isArray(v) ? Object.assign([...v], { [k]: x }) : { ...v, [k]: x });
        for (const k of Object.keys(v)) {
            const without = Array.isArray(v) ? v.filter((_, i) => i !== +k) : Object.fromEntries(Object.entries(v).filter(([x]) => x !== k));
            yield [`${path}.${k} left out`, without];
            for (const [n, x] of mutants(v[k], path + "." + k)) yield [n, at(k, x)];
        }
    }
}
const gen = genesis(3);
const WORDS = { zero: 0n, one: 1n, "0x20": 32n, "2^64": 2n ** 64n, "2^255": 2n ** 255n, max: 2n ** 256n - 1n };
function messages(life) {
    const r = [];
    const raw = (name, data, o) => r.push({ name, data, kind: name.split(":")[0], ...o });
    for (const [k, x] of Object.entries({ nothing: "", "no JSON": "{", "a word": "hello", null: "null", "a number": "7", "a string": '"onSignedBlock"', "a list": '["onSignedBlock"]', "binary": "\u0000\uffff", deep: "[".repeat(3000) + "]".repeat(3000) })) raw("no message: " + k, x);
    for (const [k, x] of Object.entries({ "no method": { params: [] }, "no params": { method: "onSignedBlock" }, "method a number": { method: 5, params: [] }, "method a list": { method: ["onSignedBlock"], params: [] }, "method unknown": { method: "nothing", params: [] } })) raw("envelope: " + k, JSON.stringify(x));
    for (const p of ["", "x", 0, 5, true, {}, { length: 2 }, [], [null]]) for (const m of ["onSignedBlock", "onBlockConfirmation"]) raw(`envelope: params of ${m} = ${JSON.stringify(p)}`, JSON.stringify({ method: m, params: p }));
    const names = new Set(["self", "p2pManager", "rpcProxy", "senderTransport", "initHandshakeService", "stateTransitionService"]);
    for (const k of Object.getOwnPropertyNames(Object.prototype)) names.add(k);
    for (const k of names) for (const p of [[], ["onSignedBlock", {}], [{}], [null]]) raw(`member: ${k}(${JSON.stringify(p)})`, JSON.stringify({ method: k, params: p }));
    const bad = signBytes(X, ethers.getBytes(ethers.id("bad")));
    const b = life.next; // the history's next block: by the right author, not sent before
    const base = {
        onSignedBlock: [[{ encodedBlock: b.bytes, signature: bad }]],
        onBlockConfirmation: [[{ encodedBlock: b.bytes, signature: bad }, bad], [{ encodedBlock: b.bytes, signature: b.sig }, null]],
        onJoinChannelRequest: [[{ encodedJoinChannel: enc("JoinChannel", { channelId: CH, participant: X.address, amount: 1n, deadlineTimestamp: BigInt(T0 + 1000), data: "0x" }), signature: bad }, bad]],
        onInitHandshakeRequest: [[ethers.id("c"), 5]],
        onInitHandshakeResponse: [[bad, 5, 0]],
        onOfferWebRTC: [['{"type":"offer"}']],
        onAnswerWebRTC: [['{"type":"answer"}']],
        onIceCandidate: [['{"candidate":"x"}']],
        onCanJoinLeaderRequest: [[]],
        onCanJoinLeaderResponse: [[CH, [X.address]]],
        onSignJoinChannelTEST: [["0x", "0x"]]
    };
    for (const m in base)
        for (const ps of base[m]) {
            if (ps[1] !== null) raw(`${m}: as it is, signed wrongly`, rpc(m, ...ps));
            raw(`${m}: one more`, rpc(m, ...ps, "x"));
            for (const [k, x] of mutants(ps)) raw(`${m}: ${k}`, JSON.stringify({ method: m, params: x }));
        }
    // JSON in strings
    for (const m of ["onOfferWebRTC", "onAnswerWebRTC", "onIceCandidate"]) for (const x of ["null", "[]", "{", '{"__proto__":{"x":1}}']) raw(`${m}: ${x}`, rpc(m, x));
    // encodings of blocks, word by word; by a participant who signs anything
    const n = (b.bytes.length - 2) / 64;
    for (let i = 0; i < n; i++) {
        const at = 2 + 64 * i, old = BigInt("0x" + b.bytes.slice(at, at + 64));
        for (const [k, v] of Object.entries({ ...WORDS, more: (old + 32n) % 2n ** 256n, less: old >= 32n ? old - 32n : 5n })) {
            if (v === old) continue;
            const bytes = b.bytes.slice(0, at) + v.toString(16).padStart(64, "0") + b.bytes.slice(at + 64);
            const sig = signBytes(life.author, ethers.getBytes(H(bytes)));
            raw(`word ${i} of a block: ${k}`, rpc("onSignedBlock", { encodedBlock: bytes, signature: sig }), { kind: "word", signed: true });
            if (i % 3 === 0) raw(`word ${i} of a confirmed block: ${k}`, rpc("onBlockConfirmation", { encodedBlock: bytes, signature: sig }, signBytes(W[2], ethers.getBytes(H(bytes)))), { kind: "word", signed: true });
        }
    }
    return r;
}
// --- the history ---
const SITS = [
    { name: "first of three", me: 0, np: 3 },
    { name: "last of three", me: 2, np: 3 },
    { name: "second of two", me: 1, np: 2 }
];
/** events of a quiet history; knows which block comes next */
function life(s) {
    const ps = W.slice(0, s.np), me = W[s.me];
    let state = genesis(s.np);
    const ev = [], sigs = (b, but) => ps.filter((w) => w !== me && w !== but).map((w) => K.msgConf(b, signBytes(w, ethers.getBytes(H(b.bytes)))));
    ev.push(K.setState(state, 0, T0));
    let next, author;
    for (let h = 0; h < s.np; h++) {
        const a = ps.find((w) => w.address === VerifSM.next(state));
        const b = build({ author: a, fork: 0, height: h, ts: T0 + 1, data: add(1), state });
        if (a === me) ev.push({ t: "play", data: add(1) });
        else {
            ev.push(K.msgBlock(b));
            next = next || b;
            author = author || a;
        }
        ev.push(...sigs(b, a));
        state = b.state;
    }
    ev.push(K.setState(genesis(s.np, 7n), 1, T0 + 2));
    return { ev: ev.slice(0, 8), next, author };
}
const make = async (prep, s) => {
    const n = await new N.Node({ file: prep.file, iface: K.ifaceOf(prep), wallet: W[s.me], peers: ["x", "y", "z"], now: (T0 + 1) * 1000, hold: ["write"] }).start();
    return n;
};
const essence = (out) => ({ sent: out.sent.filter((m) => m.to !== "z").map((m) => m.to + m.data).sort(), signed: [...out.signed].sort(), calls: out.calls.map((c) => c.name), events: out.events, errors: out.errors });
const finalOf = (n) => JSON.stringify([n.sm.state, [0, 1].map((f) => n.chainOf(f).map((b) => [b.bytes, b.state, b.sigs.map(String).sort()]))]);
const plain = new Map();
async function reference(prep, s) {
    if (!plain.has(s.name)) {
        const n = await make(prep, s), outs = [];
        for (const e of life(s).ev) outs.push(essence(await n.step(e)));
        plain.set(s.name, { outs, final: finalOf(n), n: life(s).ev.length });
    }
    return plain.get(s.name);
}
/** at: [{i, m}] malformed messages before event i */
async function trial(prep, s, at, rec) {
    const ref = await reference(prep, s), { ev } = life(s);
    const n = await make(prep, s);
    const trouble = [];
    let acted = false;
    for (let i = 0; i <= ev.length; i++) {
        for (const { m } of at.filter((x) => x.i === i)) {
            const o = essence(await n.step({ t: "msg", from: "z", data: m.data }));
            rec.transition();
            trouble.push(...o.errors);
            // a participant who signs what he shouldn't is dealt with; nothing else is to be seen of the others
            if (o.sent.length || o.signed.length || o.calls.length) {
                if (m.signed) acted = true;
                else trouble.push(`the node ${o.calls.length ? "calls " + o.calls : o.signed.length ? "signs" : "sends"} something`);
            } else if (!o.errors.length && o.events.length) trouble.push("reported: " + o.events);
        }
        if (i === ev.length) break;
        const o = essence(await n.step(ev[i]));
        rec.transition();
        trouble.push(...o.errors);
        if (!acted && JSON.stringify(o) !== JSON.stringify(ref.outs[i])) {
            // what he signed may have been kept until the fork it belongs to began
            if (at.some((x) => x.m.signed)) acted = true;
            else trouble.push(`afterwards event ${i} has another outcome`);
        }
    }
    if (!acted && finalOf(n) !== ref.final) trouble.push("the history ends otherwise");
    rec.add("traces");
    rec.outcome(acted ? "acted upon" : "ignored");
    rec.state([s.name, at.map((x) => [x.i, x.m.name])]);
    if (trouble.length) rec.violation(`${at.map((x) => x.m.name).join(" and ")}: ${trouble[0]}`, `${s.name}, before event ${at.map((x) => x.i)}: ${trouble.join(" | ")}`, { s, at: at.map((x) => ({ i: x.i, name: x.m.name })) });
}
/** the message arrives while the history is being processed */
async function race(prep, s, m, bound, rec, prefix) {
    const ref = await reference(prep, s), { ev } = life(s);
    const o = {
        mk: async () => {
            const n = await make(prep, s);
            for (const e of ev.slice(0, 1)) await n.step(e);
            return { n };
        },
        events: [...ev.slice(1, 3).map((e, i) => ({ name: "event " + (i + 1), ev: e, after: i ? i - 1 : undefined })), { name: "malformed", ev: { t: "msg", from: "z", data: m.data } }],
        hold: ["sm", "sign"], bound
    };
    const visit = async (r) => {
        const trouble = [...r.log.errors], n = r.ctx.n;
        const out = await I.settle(n);
        trouble.push(...out.errors);
        // the rest of the history
        for (const e of ev.slice(3)) trouble.push(...(await n.step(e)).errors);
        if (finalOf(n) !== ref.final) trouble.push("the history ends otherwise");
        rec.add("schedules");
        rec.transition(r.trail.length);
        rec.outcome("raced");
        if (trouble.length) rec.violation(`${m.kind} while busy: ${trouble[0]}`, `${s.name}, ${m.name}: ${r.trail.map((t) => t.label).join(", ")}: ${trouble.join(" | ")}`, { s, race: m.name, bound, prefix: r.trail.map((t) => t.pick) });
    };
    if (prefix) return visit(await I.runOne({ ...o, prefix }));
    await I.explore(o, visit);
}
const byKind = (ms) => {
    const k = new Map();
    for (const m of ms) if (!m.signed && !k.has(m.kind)) k.set(m.kind, m);
    return [...k.values()];
};
exports.run = async ({ opt, prep, rec, mine }) => {
    let i = 0;
    const deep = opt.tier === "thorough" ? 1 : 0;
    for (const s of SITS) {
        const l = life(s), ms = messages(l);
        for (const m of byKind(ms)) if (await mine(i++)) await race(prep, s, m, 2 + deep, rec);
        for (const m of ms) if (await mine(i++)) for (let k = 0; k <= l.ev.length; k++) await trial(prep, s, [{ i: k, m }], rec);
        if (deep) {
            const some = ms.filter((_, j) => j % Math.ceil(ms.length / 60) === 0);
            for (const a of some) if (await mine(i++)) for (const b of some) for (let k = 1; k < l.ev.length; k += 2) await trial(prep, s, [{ i: k, m: a }, { i: k, m: b }], rec);
        }
    }
};
exports.replay = async (v, rec, prep) => {
    const s = SITS.find((x) => x.name === v.s.name), ms = messages(life(s)), of = (name) => ms.find((m) => m.name === name);
    if (v.race) return race(prep, s, of(v.race), v.bound, rec, v.prefix);
    return trial(prep, s, v.at.map((x) => ({ i: x.i, m: of(x.name) })), rec);
};
exports.expect = ({ outcomes }) => (["ignored", "raced"].some((x) => !outcomes[x]) ? "some outcome never occurred: " + JSON.stringify(outcomes) : null);
