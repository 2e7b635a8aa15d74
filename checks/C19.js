"use strict";
// A connection is attributed to an address only if its holder answered this connection's challenge, and
// answering challenges gives nothing else away.
const K = require("../lib/nodecheck");
const N = require("../lib/node");
const Ty = require("../lib/types");
const { ethers } = require("../lib/ts");
const { W, X, build } = require("../lib/blocks");
const { genesis } = require("../lib/situ");
const { answer } = require("../lib/handshake");
const { rpc, T, T0, CH, add, signBytes, VerifSM } = N;
const { H, enc } = Ty;
const A = T.agreementTime;

exports.level = "model_checking";
exports.assumptions = ["an adversary that relays challenges and answers between two honest nodes only forwards messages (it can't be told from a slow network)"];
exports.bounds = {
    quick: "two connections, both opened or none: every sequence of 3 events out of 21 and every sequence of 2 out of 46: opening, closing, reopening, passing of time, answers by two peers' keys and by reflection to this, the other and the previous challenge, 9 defective answers, 18 requests (times, shapes, hashes of blocks and of other things signed in the protocol), each followed by a valid answer; requests and answers with the signing slow in every order",
    thorough: "every sequence of 4 events out of 21 and of 3 out of 46"
};
exports.prepare = K.prepare;
const quiet = { hold: [], peers: [], handshake: true };
const node = (prep, o) => new N.Node({ file: prep.file, iface: K.ifaceOf(prep), wallet: W[0], ...quiet, ...o }).start();
const methodOf = (m) => JSON.parse(m.data).method;
// --- what else is signed in the protocol: hashes that must never be signed for a peer ---
const gen = genesis(3);
const own = build({ author: W[0], fork: 0, height: 0, ts: T0 + 1, data: add(1), state: gen });
const join = enc("JoinChannel", { channelId: CH, participant: X.address, amount: 1n, deadlineTimestamp: BigInt(T0 + 100), data: "0x" });
const VALUABLE = { "a block": own.bytes, "a join request": join, "a state": gen };
/** is the signature one by `me` on anything valuable? */
function misuse(sig, challenge, me) {
    const bad = [];
    const see = (name, bytes) => {
        try {
            if (ethers.verifyMessage(bytes, sig) === me) bad.push(name);
        } catch {}
    };
    for (const k in VALUABLE) {
        see("the hash of " + k, ethers.getBytes(H(VALUABLE[k])));
        see(k, ethers.getBytes(VALUABLE[k]));
    }
    if (ethers.isHexString(challenge) && challenge.length % 2 === 0) {
        see("exactly what was sent", ethers.getBytes(challenge));
        see("the hash of what was sent", ethers.getBytes(H(challenge)));
    }
    see("the text that was sent", String(challenge));
    return bad;
}
const REQUESTS = {
    "random": [ethers.id("r"), 0, true],
    "hash of a block": [H(own.bytes), 0, true],
    "hash of a join request": [H(join), 0, true],
    "hash of a state": [H(gen), 0, true],
    "a block": [own.bytes, 0, true],
    "empty": ["0x", 0, null],
    "short": ["0x01", 0, null],
    "long": ["0x" + "ab".repeat(64), 0, null],
    "no hex": ["hello", 0, null],
    "odd hex": ["0x123", 0, null],
    "number": [7, 0, null],
    "nothing": [undefined, 0, null],
    "list": [[ethers.id("r")], 0, null],
    "late": [ethers.id("r"), -A, true],
    "early": [ethers.id("r"), A, true],
    "too late": [ethers.id("r"), -A - 1, false],
    "too early": [ethers.id("r"), A + 1, false],
    "without a time": [ethers.id("r"), undefined, false],
    "time no number": [ethers.id("r"), "x", false]
};
const DEFECTS = {
    "too late by its time": { dt: A + 1 },
    "too early by its time": { dt: -A - 1 },
    "latest time": { dt: A, valid: true },
    "earliest time": { dt: -A, valid: true },
    "without a time": { dt: undefined },
    "malformed": { sig: () => "0x1234" },
    "truncated": { sig: (s) => s.slice(0, -4) },
    "no signature": { sig: () => undefined },
    "raw": { raw: true }
};
const KNOWN = [...W.map((w) => w.address), X.address];
function alphabet() {
    const ev = [];
    for (const t of ["a", "b"]) {
        ev.push({ k: "open", t }, { k: "close", t });
        for (const to of ["own", "other", "previous"]) for (const by of [1, 2]) ev.push({ k: "answer", t, to, by });
        ev.push({ k: "answer", t, to: "own", by: 0 }); // reflection
    }
    for (const d in DEFECTS) ev.push({ k: "answer", t: "a", to: "own", by: 1, d });
    for (const r in REQUESTS) ev.push({ k: "request", t: "a", r });
    ev.push({ k: "time", s: A }, { k: "time", s: 1 });
    return ev;
}
const special = (e) => e.d || e.k === "request";
const label = (e) => [e.k, e.t, e.to === "own" ? "" : e.to, e.by === undefined ? "" : "by " + e.by, e.d, e.r, e.s].filter((x) => x !== undefined && x !== "").join(" ");

/** one execution; the model is kept alongside */
class Run {
    constructor(prep) {
        this.prep = prep;
        this.trouble = [];
        this.trace = [];
        // per connection: {tr, challenge, at, dirty, who}; per key: connection
        this.c = {};
        this.previous = {};
        this.who = {};
    }
    async start(o) {
        this.n = await node(this.prep, o);
        return this;
    }
    sec() {
        return Math.floor(this.n.now / 1000);
    }
    enabled(e) {
        if (e.k === "open") return !this.c[e.t];
        if (e.k === "time") return true;
        if (!this.c[e.t]) return false;
        if (e.k === "answer") return !!this.challengeFor(e);
        return true;
    }
    challengeFor(e) {
        if (e.to === "own") return this.c[e.t].challenge;
        if (e.to === "other") return (this.c[e.t === "a" ? "b" : "a"] || {}).challenge;
        return this.previous[e.t];
    }
    drop(t) {
        const c = this.c[t];
        if (!c) return;
        delete this.c[t];
        this.previous[t] = c.challenge;
        if (c.who && this.who[c.who] === c) delete this.who[c.who];
    }
    async event(e) {
        const { n, prep } = this;
        const bad = (x) => this.trouble.push(`${label(e)}: ${x}`);
        let out, verdict = "";
        if (e.k === "open") {
            out = await n.step({ t: "connect", name: e.t });
            const m = out.sent.filter((x) => methodOf(x) === "onInitHandshakeRequest");
            if (m.length !== 1 || m[0].to !== e.t) bad("no challenge sent");
            else {
                const [challenge, time] = JSON.parse(m[0].data).params;
                if (Object.values({ ...this.c, x: null }).some((c) => c && c.challenge === challenge) || Object.values(this.previous).includes(challenge)) bad("a challenge was used twice");
                if (time !== this.sec()) bad("a challenge with a wrong time");
                this.c[e.t] = { tr: n.transports[e.t], challenge, at: this.sec() };
            }
            verdict = "open";
        } else if (e.k === "close") {
            out = await n.step({ t: "disconnect", name: e.t });
            this.drop(e.t);
            verdict = "close";
        } else if (e.k === "time") {
            out = await n.step({ t: "time", at: n.now + 1000 * e.s });
            verdict = "time";
        } else if (e.k === "request") {
            const [challenge, dt, ok] = REQUESTS[e.r];
            const time = dt === undefined ? undefined : typeof dt === "string" ? dt : this.sec() + dt;
            out = await n.step({ t: "msg", from: e.t, data: rpc("onInitHandshakeRequest", challenge, time) });
            const m = out.sent.filter((x) => methodOf(x) === "onInitHandshakeResponse");
            if (m.some((x) => x.to !== e.t)) bad("answered on another connection");
            if (ok === true && m.length !== 1) bad(m.length + " answers");
            if (ok === false && (m.length || out.signed.length)) bad("answered");
            for (const x of m) {
                const [sig, t] = JSON.parse(x.data).params;
                if (t !== this.sec()) bad("answered with a wrong time");
                for (const y of misuse(sig, challenge, W[0].address)) bad("signed " + y);
                if (ok === true && sig !== (await answer(prep, W[0], challenge))) bad("another answer than that of another node");
            }
            verdict = m.length ? "answers" : "refuses";
        } else {
            const c = this.c[e.t], ch = this.challengeFor(e), by = W[e.by], d = DEFECTS[e.d] || {};
            let sig;
            if (e.by === 0) {
                // the node itself is asked for the answer, over a third connection
                n.connect("m");
                const o = await n.step({ t: "msg", from: "m", data: rpc("onInitHandshakeRequest", ch, this.sec()) });
                const m = o.sent.filter((x) => methodOf(x) === "onInitHandshakeResponse" && x.to === "m");
                sig = m.length ? JSON.parse(m[0].data).params[0] : "0x";
                await n.step({ t: "disconnect", name: "m" });
            } else sig = d.raw ? signBytes(by, ethers.getBytes(ch)) : await answer(prep, by, ch);
            if (d.sig) sig = d.sig(sig);
            const time = "dt" in d ? (d.dt === undefined ? undefined : c.at + d.dt) : c.challenge ? c.at : this.sec();
            out = await n.step({ t: "msg", from: e.t, data: rpc("onInitHandshakeResponse", sig, time, 0) });
            const timely = this.sec() - c.at <= A;
            const valid = e.to === "own" && e.by !== 0 && timely && c.challenge && (!e.d || d.valid);
            const p = n.p2p.profileManager.getProfileByTransport(c.tr);
            const got = p && p.evmAddress;
            const events = out.events.filter((x) => x.startsWith("onConnection"));
            if (valid && !c.used) {
                // must be taken (unless a wrong answer came before it)
                const taken = got === by.address && events.join() === "onConnection " + by.address;
                if (!taken && !c.dirty) bad("a valid answer wasn't accepted");
                if (taken) {
                    const old = this.who[by.address];
                    c.used = true;
                    c.who = by.address;
                    if (old && old !== c) for (const t of ["a", "b"]) if (this.c[t] === old) this.drop(t);
                    this.who[by.address] = c;
                }
                verdict = taken ? "accepted" : "not accepted";
            } else {
                // a signature on something else recovers an address that nobody has the key of; it may be taken for that one
                const nobody = got !== c.who && !c.used && got && !KNOWN.includes(got) && (!e.d || d.raw);
                if (nobody && events.join() === "onConnection " + got) c.who = got, c.used = true, (this.who[got] = c);
                else if (events.length) bad("reported as a connection of " + events.join());
                c.dirty = true;
                if (n.p2p.openConnections.includes(c.tr) && got !== c.who) bad("attributed to " + got);
                verdict = "not accepted";
            }
        }
        if (out.errors.length) bad(out.errors.join());
        this.trace.push(label(e) + (verdict ? " -> " + verdict : ""));
        this.observe(bad);
        return verdict;
    }
    /** connections that the node dropped by itself; attributions */
    observe(bad) {
        const { n } = this, pm = n.p2p.profileManager;
        for (const t of ["a", "b"]) {
            const c = this.c[t];
            if (!c) continue;
            if (!n.p2p.openConnections.includes(c.tr)) {
                // only connections on which something was wrong are dropped
                if (!c.dirty) bad("an innocent connection was dropped");
                this.drop(t);
                continue;
            }
            const p = pm.getProfileByTransport(c.tr), got = p && p.evmAddress;
            if (got !== c.who) bad(`connection ${t} is attributed to ${got}`);
        }
        for (const w of [W[0], W[1], W[2], X]) {
            const p = pm.getProfileByEvmAddress(w.address), tr = p && p.getTransport();
            const want = this.who[w.address];
            if (want ? tr !== want.tr : tr && !tr.isClosed) bad(`${w.address.slice(0, 6)} is connected over something else`);
            if (want && !p.getIsHandshakeCompleted()) bad("handshake not marked as completed");
        }
    }
}
async function sequence(prep, open, events, rec) {
    const r = await new Run(prep).start();
    for (const t of open) await r.event({ k: "open", t });
    const out = [];
    for (const e of events) {
        if (!r.enabled(e)) return;
        out.push(await r.event(e));
        rec.transition();
        rec.outcome(e.k + " " + out[out.length - 1]);
    }
    // afterwards a new connection of a third peer is made as ever
    await r.event(r.c.b ? { k: "close", t: "b" } : { k: "time", s: 0 });
    await r.event({ k: "open", t: "b" });
    await r.event({ k: "answer", t: "b", to: "own", by: 2 });
    rec.add("traces");
    rec.state([Object.entries(r.c).map(([t, c]) => [t, c.who, !!c.dirty, r.sec() - c.at]), Object.keys(r.who), out, open]);
    if (r.trouble.length) rec.violation(r.trouble[0].replace(/0x[0-9a-f]+/gi, ""), `${r.trace.join(", ")}: ${r.trouble.join(" | ")}`, { open, events });
    else rec.sample({ trace: r.trace });
}
/** requests and answers on two connections while signing takes its time; every order of completion */
async function slow(prep, order, rec) {
    const n = await node(prep, { peers: ["a", "b"], hold: ["sign"] });
    const ch = { a: H(own.bytes), b: ethers.id("q") };
    const trouble = [];
    const pending = [];
    for (const s of order) {
        let out;
        if (s[0] === "?") {
            out = await n.step({ t: "msg", from: s[1], data: rpc("onInitHandshakeRequest", ch[s[1]], Math.floor(n.now / 1000)) });
            pending.push([s[1], out.held[0] && out.held[0].id]);
        } else if (s[0] === "=") {
            out = await n.step({ t: "msg", from: s[1], data: rpc("onInitHandshakeResponse", "0x", 0, 0) });
        } else {
            const i = pending.findIndex((x) => x[0] === s[1]);
            const [[t, id]] = pending.splice(i, 1);
            out = await n.step({ t: "ans", id });
            const m = out.sent.filter((x) => methodOf(x) === "onInitHandshakeResponse");
            const closed = n.transports[t].isClosed;
            if (!closed && (m.length !== 1 || m[0].to !== t)) trouble.push(`the answer for ${t} goes to ${m.map((x) => x.to)}`);
            for (const x of m) if (JSON.parse(x.data).params[0] !== (await answer(prep, W[0], ch[t])) && !closed) trouble.push(`${t} gets the answer for another challenge`);
            rec.outcome("slow answer");
        }
        if (out.errors.length) trouble.push(out.errors.join());
        rec.transition();
    }
    rec.add("traces");
    rec.state(["slow", order]);
    if (trouble.length) rec.violation("slow signing: " + trouble[0], `${order.join(" ")}: ${trouble.join(" | ")}`, { slow: order });
}
function slowOrders() {
    const res = [];
    const go = (o, open) => {
        if (o.length >= 2 && !open.length) res.push(o);
        if (o.length === 6) return;
        for (const t of ["a", "b"]) {
            if (o.filter((x) => x === "?" + t).length < 1) go([...o, "?" + t], [...open, t]);
            if (o.filter((x) => x === "=" + t).length < 1) go([...o, "=" + t], open);
            if (open.includes(t)) go([...o, "!" + t], open.filter((x) => x !== t));
        }
    };
    go([], []);
    return res.filter((o) => o.some((x) => x[0] === "?"));
}
exports.run = async ({ opt, prep, rec, mine }) => {
    const all = alphabet(), core = all.filter((e) => !special(e) || e.r === "hash of a block" || e.d === "too late by its time");
    const deep = opt.tier === "thorough" ? 4 : 3;
    let i = 0;
    // only sequences of which each event can happen
    const go = async (open, evs, pre, depth) => {
        if (pre.length === depth) return sequence(prep, open, pre, rec);
        for (const e of evs) if (possible(open, [...pre, e])) await go(open, evs, [...pre, e], depth);
    };
    for (const [evs, depth] of [[core, deep], [all, deep - 1]]) for (const open of [["a", "b"], []]) for (const e of evs) for (const f of evs) if (possible(open, [e, f]) && (await mine(i++))) await go(open, evs, [e, f], depth);
    for (const o of slowOrders()) if (await mine(i++)) await slow(prep, o, rec);
};
/** rough: what's open */
function possible(open, events) {
    const o = new Set(open), was = new Set();
    for (const e of events) {
        if (e.k === "open") {
            if (o.has(e.t)) return false;
            o.add(e.t);
        } else if (e.k === "close") {
            if (!o.has(e.t)) return false;
            o.delete(e.t);
            was.add(e.t);
        } else if (e.k !== "time") {
            if (!o.has(e.t)) return false;
            if (e.to === "other" && !o.has(e.t === "a" ? "b" : "a")) return false;
            if (e.to === "previous" && !was.has(e.t)) return false;
        }
    }
    return true;
}
exports.replay = async (v, rec, prep) => (v.slow ? slow(prep, v.slow, rec) : sequence(prep, v.open, v.events, rec));
exports.expect = ({ outcomes }) => (["answer accepted", "answer not accepted", "request answers", "request refuses", "slow answer"].some((x) => !outcomes[x]) ? "some outcome never occurred: " + JSON.stringify(outcomes) : null);
