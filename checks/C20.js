"use strict";
// Connections: which ones are open, whose they are, what is sent over them, and what ending one of them does.
const { EventEmitter } = require("events");
const K = require("../lib/nodecheck");
const N = require("../lib/node");
const { contents } = require("../lib/swarm");
const { answer } = require("../lib/handshake");
const { ethers } = require("../lib/ts");
const { W } = require("../lib/blocks");
const { rpc, T0 } = N;

exports.level = "model_checking";
exports.assumptions = ["sockets behave as those of hyperswarm, ws and WebRTC do: after they were ended they report so at some later time; one that fails to send throws"];
exports.bounds = {
    quick: "two peers, up to three sockets (hyperswarm, ws, WebRTC channels set up over another connection) in 8 combinations, each opened up to twice; every order of opening, answers to the challenge (right, defective, late), hanging up, failing, failing to send, being removed, broadcasts, WebRTC offers, answers, candidates and channels, disconnecting from all and being disposed of: all states up to 4 events deep (after the connections that WebRTC needs, if two are wanted)",
    thorough: "up to 5 events deep"
};
exports.prepare = K.prepare;
// the node has the smallest address, so that it is the one to set up WebRTC
const [ME, P1, P2] = [...W.slice(0, 3)].sort((a, b) => (a.address < b.address ? -1 : 1));
const PEERS = { 1: P1, 2: P2 };
const WEBRTC = 1;

// --- sockets ---
class Sock extends EventEmitter {
    constructor(w, name) {
        super();
        Object.assign(this, { w, name, ended: 0, sent: [], gone: false, broken: false });
    }
    put(x) {
        if (this.broken) throw new Error("can't send");
        this.sent.push(x);
    }
    stop() {
        this.ended++;
    }
}
const KINDS = {
    hp: {
        make(w, name) {
            const s = new Sock(w, name);
            s.write = (x) => s.put(x);
            s.end = () => s.stop();
            w.n.p2p.holepunch.swarm.h.connection[0](s, { ban() {} });
            return s;
        },
        data: (s, x) => s.emit("data", Buffer.from(x)),
        close: (s) => s.emit("close"),
        fail: (s) => (s.emit("error", new Error("reset")), s.emit("close"))
    },
    ws: {
        make(w, name) {
            const s = new Sock(w, name);
            s.send = (x) => s.put(x);
            s.close = () => s.stop();
            const t = new w.n.S.transport.LocalTransport(s, w.n.p2p);
            w.n.p2p.addConnection(t);
            return s;
        },
        data: (s, x) => s.emit("message", Buffer.from(x)),
        close: (s) => s.emit("close"),
        fail: (s) => (s.emit("error", new Error("reset")), s.emit("close"))
    },
    rtc: {
        data: (s, x) => s.onmessage({ data: x }),
        close: (s) => s.onclose(),
        fail: (s) => (s.onerror && s.onerror(new Error("reset")), s.onclose())
    }
};
function channel(w, name) {
    const s = new Sock(w, name);
    s.send = (x) => s.put(x);
    s.close = () => s.stop();
    return s;
}
const CONFIGS = {
    "two by hyperswarm": { a: "hp", b: "hp" },
    "two by ws": { a: "ws", b: "ws" },
    "hyperswarm and ws": { a: "hp", b: "ws" },
    "WebRTC offered by a peer": { a: "hp", c: "rtc", offers: ["a"], given: ["a1"] },
    "WebRTC offered by two peers": { a: "hp", b: "hp", offers: ["a", "b"], given: ["a1", "b2"] },
    "WebRTC wanted by a peer": { a: "hp", wants: ["a"] },
    "WebRTC wanted by two peers": { a: "hp", b: "hp", wants: ["a", "b"], given: ["a1w", "b2w"] },
    "WebRTC wanted by two peers at once": { a: "hp", b: "hp", wants: ["a", "b"], given: ["a", "b"] }
};

class World {
    constructor(prep, cfg) {
        Object.assign(this, { prep, cfg });
        this.c = {}; // slot -> connection {kind, s, open, challenge, who}
        this.all = [];
        this.latest = {}; // peer -> connection
        this.rtc = []; // set up so far: {slot, peer, conn, by}
        this.topics = 0;
        this.disposed = false;
        this.made = {};
        this.trace = [];
        this.trouble = [];
    }
    async start() {
        this.n = await new N.Node({ file: this.prep.file, iface: K.ifaceOf(this.prep), wallet: ME, peers: [], handshake: true }).start();
        return this;
    }
    slots() {
        return ["a", "b"].filter((s) => this.cfg[s]);
    }
    enabled() {
        const r = [], { cfg } = this;
        if (this.disposed) return r;
        for (const s of this.slots()) {
            const c = this.c[s];
            if ((!c || !c.open) && (this.made[s] || 0) < 2) r.push({ k: "open", s });
        }
        for (const s of Object.keys(this.c)) {
            const c = this.c[s];
            for (const p of [1, 2]) if (c.challenge && (s === "a" || s === "b" || c.peer === p)) r.push({ k: "answer", s, p }, ...((cfg.wants || []).includes(s) ? [{ k: "answer", s, p, wants: true }] : []));
            if (c.open) {
                r.push({ k: "defective", s }, { k: "remove", s });
                if (!c.s.broken) r.push({ k: "break", s });
                if ((cfg.offers || []).includes(s) && (c.offered || 0) < 2) r.push({ k: "offer", s });
            }
            if (!c.s.gone) r.push({ k: "hang up", s }, { k: "fail", s });
        }
        this.rtc.forEach((x, i) => {
            if (!x.channel || (x.by === "us" && !x.opened && !x.over)) r.push({ k: "channel", i });
            if (x.by === "us" && !x.answered) r.push({ k: "rtc answer", i });
            if (!x.cand) r.push({ k: "candidate", i });
            if (!x.local) r.push({ k: "own candidate", i });
        });
        const un = (cfg.wants || []).filter((s) => this.c[s] && this.c[s].open && this.c[s].challenge && !this.c[s].used);
        if (un.length === 2) r.push({ k: "answers at once" });
        if ((cfg.offers || []).filter((s) => this.c[s] && this.c[s].open && !this.c[s].offered).length === 2) r.push({ k: "offers at once" });
        r.push({ k: "broadcast" }, { k: "disconnect all" }, { k: "dispose" });
        if (!this.topics) r.push({ k: "join" });
        return r;
    }
    closed(c) {
        c.open = false;
        for (const p of [1, 2]) if (this.latest[p] === c) delete this.latest[p];
    }
    drop(c) {
        if (c.open) c.byUs = true;
        this.closed(c);
    }
    take(slot, kind, s, peer) {
        const n = this.n.p2p.openConnections;
        const c = { slot, kind, s, open: true, who: null, peer, t: n[n.length - 1] };
        this.c[slot] = c;
        this.all.push(c);
        const m = s.sent.map((x) => JSON.parse(x));
        if (m.length !== 1 || m[0].method !== "onInitHandshakeRequest") this.bad("a new connection isn't challenged");
        else c.challenge = m[0].params[0];
        return c;
    }
    bad(x) {
        this.trouble.push(x);
    }
    async step(f) {
        this.out = await this.n.step({ t: "do", f });
        for (const e of this.out.errors) this.bad(e);
        return this.out;
    }
    data(c, x) {
        return this.step(() => void KINDS[c.kind].data(c.s, x));
    }
    async event(e) {
        const { n } = this, c = e.s && this.c[e.s];
        const before = new Map(this.all.map((x) => [x, x.s.sent.length]));
        const rtcs = [];
        globalThis.__rtc = (x) => rtcs.push(x);
        globalThis.RTCIceCandidate = class { constructor(x) { Object.assign(this, x); } };
        let expectSent = new Map(); // connection -> what must have been sent: [predicate]
        const sec = Math.floor(n.now / 1000);
        this.trace.push(label(e));
        switch (e.k) {
            case "open": {
                let s;
                await this.step(() => void (s = KINDS[this.cfg[e.s]].make(this, e.s)));
                this.made[e.s] = (this.made[e.s] || 0) + 1;
                this.take(e.s, this.cfg[e.s], s);
                break;
            }
            case "answer": {
                const sig = await answer(this.prep, PEERS[e.p], c.challenge);
                const out = await this.data(c, rpc("onInitHandshakeResponse", sig, sec, e.wants ? WEBRTC : 0));
                const reported = out.events.filter((x) => x.startsWith("onConnection"));
                if (c.open && !c.used) {
                    const old = this.latest[e.p];
                    if (old && old !== c) this.drop(old);
                    c.who = e.p;
                    this.latest[e.p] = c;
                    if (reported.join() !== "onConnection " + PEERS[e.p].address) this.bad("the connection isn't reported: " + reported);
                    if (e.wants && c.kind !== "rtc") {
                        expectSent.set(c, [(m) => m.method === "onOfferWebRTC" && m.params[0] === '{"type":"offer"}']);
                        if (rtcs.length !== 1) this.bad("WebRTC isn't set up");
                        else this.rtc.push({ slot: e.s, via: c, peer: e.p, conn: rtcs[0], by: "us" });
                    }
                } else {
                    if (reported.length) this.bad("a connection is reported");
                    if (c.open) this.drop(c); // answered twice
                }
                c.used = true;
                break;
            }
            case "defective":
                await this.data(c, rpc("onInitHandshakeResponse", "0x12", sec, 0));
                if (c.used) this.drop(c);
                c.used = true;
                break;
            case "remove":
                await this.step(() => n.p2p.removeConnection(c.t));
                this.drop(c);
                break;
            case "hang up":
            case "fail":
                c.s.gone = true;
                await this.step(() => void KINDS[c.kind][e.k === "fail" ? "fail" : "close"](c.s));
                this.closed(c);
                break;
            case "break":
                c.s.broken = true;
                break;
            case "broadcast": {
                await this.step(() => n.p2p.broadcastRpc(rpc("hello")));
                for (const x of this.all) if (x.open) expectSent.set(x, [(m) => m.method === "hello"]);
                break;
            }
            case "disconnect all":
                await this.step(() => n.p2p.disconnectAll());
                for (const x of this.all) this.drop(x);
                break;
            case "dispose":
                await this.step(() => n.mgr.dispose());
                for (const x of this.all) this.drop(x);
                this.disposed = true;
                if (n.p2p.holepunch.swarm.topics.length) this.bad("still in " + n.p2p.holepunch.swarm.topics.length + " topics");
                if (n.contract.listeners.length) this.bad("still listening to the chain");
                break;
            case "join":
                await this.step(() => n.p2p.tryOpenConnectionToChannel(N.CH));
                this.topics = 1;
                if (n.p2p.holepunch.swarm.topics.length !== 1) this.bad("topic not joined");
                break;
            case "offer": {
                c.offered = (c.offered || 0) + 1;
                const known = c.who !== null && c.open && this.latest[c.who] === c;
                await this.data(c, rpc("onOfferWebRTC", JSON.stringify({ type: "offer", of: e.s })));
                if (known) {
                    const x = rtcs[0];
                    if (!x || x.remote.length !== 1 || x.remote[0].of !== e.s) this.bad("the offer isn't taken");
                    expectSent.set(c, [(m) => m.method === "onAnswerWebRTC" && m.params[0] === '{"type":"answer"}']);
                    if (x) this.rtc.push({ slot: e.s, via: c, peer: c.who, conn: x, by: "them" });
                }
                break;
            }
            case "answers at once": {
                const cs = this.cfg.wants.map((s) => this.c[s]), sigs = [];
                for (const [i, c] of cs.entries()) sigs.push(await answer(this.prep, PEERS[i + 1], c.challenge));
                const out = await this.step(() => void cs.forEach((c, i) => KINDS[c.kind].data(c.s, rpc("onInitHandshakeResponse", sigs[i], sec, WEBRTC))));
                cs.forEach((c, i) => {
                    const old = this.latest[i + 1];
                    if (old && old !== c) this.drop(old);
                    c.who = i + 1;
                    c.used = true;
                    this.latest[i + 1] = c;
                    if (!out.events.includes("onConnection " + PEERS[i + 1].address)) this.bad("the connection isn't reported");
                    expectSent.set(c, [(m) => m.method === "onOfferWebRTC" && m.params[0] === '{"type":"offer"}']);
                    if (rtcs[i]) this.rtc.push({ slot: c.slot, via: c, peer: i + 1, conn: rtcs[i], by: "us" });
                });
                if (rtcs.length !== 2) this.bad("WebRTC isn't set up");
                break;
            }
            case "offers at once": {
                const cs = cfg2(this).map((s) => this.c[s]);
                await this.step(() => void cs.forEach((c) => KINDS[c.kind].data(c.s, rpc("onOfferWebRTC", JSON.stringify({ type: "offer", of: c.slot })))));
                for (const c of cs) {
                    c.offered = 1;
                    if (c.who === null || this.latest[c.who] !== c) continue;
                    const x = rtcs.find((x) => x.remote.some((r) => r.of === c.slot));
                    if (!x || x.remote.length !== 1) this.bad("the offer isn't taken");
                    expectSent.set(c, [(m) => m.method === "onAnswerWebRTC" && m.params[0] === '{"type":"answer"}']);
                    if (x) this.rtc.push({ slot: c.slot, via: c, peer: c.who, conn: x, by: "them" });
                }
                break;
            }
            case "rtc answer": {
                const x = this.rtc[e.i];
                x.answered = true;
                const latest = this.current(x);
                await this.data(x.via, rpc("onAnswerWebRTC", JSON.stringify({ type: "answer", n: e.i })));
                for (const y of this.rtc) if (y.conn.remote.some((r) => r.n === e.i) !== (y === latest)) this.bad("an answer went " + (y === latest ? "nowhere" : "to another peer's WebRTC connection"));
                break;
            }
            case "candidate": {
                const x = this.rtc[e.i];
                x.cand = true;
                const latest = this.current(x);
                await this.data(x.via, rpc("onIceCandidate", JSON.stringify({ n: e.i })));
                for (const y of this.rtc) if (y.conn.ice.some((r) => r.n === e.i) !== (y === latest)) this.bad("a candidate went " + (y === latest ? "nowhere" : "to another peer's WebRTC connection"));
                break;
            }
            case "own candidate": {
                const x = this.rtc[e.i];
                x.local = true;
                const c = x.via;
                await this.step(() => { try { x.conn.onicecandidate({ candidate: { n: e.i } }); x.conn.onicecandidate({ candidate: null }); } catch (err) { if (!c.s.broken) throw err; } });
                expectSent.set(c, [(m) => m.method === "onIceCandidate" && m.params[0] === JSON.stringify({ n: e.i })]);
                expectSent.loose = true;
                break;
            }
            case "channel": {
                const x = this.rtc[e.i], slot = "r" + e.i;
                let s = channel(this, slot);
                if (x.by === "us") {
                    // the node's own channel opens
                    s = Object.assign(x.conn.channel, { ended: 0, sent: [], broken: false, gone: false, name: slot, put: Sock.prototype.put, stop: Sock.prototype.stop });
                    s.send = (d) => s.put(d);
                    s.close = () => s.stop();
                } else await this.step(() => x.conn.ondatachannel({ channel: s }));
                x.channel = x.opened = true;
                await this.step(() => void s.onopen());
                this.take(slot, "rtc", s, x.peer);
                break;
            }
        }
        // what was sent over which connection
        for (const c of this.all) {
            const got = c.s.sent.slice(before.get(c) ?? 1), want = c.s.broken ? [] : expectSent.get(c) || [];
            if (expectSent.loose && !c.open) continue;
            const ms = got.map((x) => JSON.parse(x));
            if (ms.length !== want.length || want.some((w) => !ms.some(w))) this.bad(`over ${c.slot} went ${ms.map((m) => m.method) || "nothing"}`);
        }
        this.observe();
    }
    /** the latest WebRTC set-up with the peer, if it's still known by the connection */
    current(x) {
        const c = x.via;
        if (c.who === null || !c.open || this.latest[c.who] !== c) return null;
        return [...this.rtc].reverse().find((y) => y.peer === x.peer);
    }
    observe() {
        const { n } = this, pm = n.p2p.profileManager, open = n.p2p.openConnections;
        const want = this.all.filter((c) => c.open);
        if (new Set(open).size !== open.length) this.bad("a connection counts twice");
        for (const c of this.all) {
            const is = open.includes(c.t) && !c.t.isClosed;
            if (is !== c.open) this.bad(`connection ${c.slot} is ${is ? "" : "not "}open`);
            if (!c.open && open.includes(c.t)) this.bad(`connection ${c.slot} still counts`);
            const most = 1, least = c.byUs ? 1 : 0;
            if (c.s.ended > most || (c.open && c.s.ended) || c.s.ended < least) this.bad(`the socket of ${c.slot} was ended ${c.s.ended} times`);
            const p = pm.getProfileByTransport(c.t), who = p && p.getEvmAddress();
            if (c.open && (who || null) !== (c.who && PEERS[c.who].address)) this.bad(`connection ${c.slot} is ${who ? "attributed to another peer" : "not attributed"}`);
            if (!c.open && p) this.bad(`the closed connection ${c.slot} is attributed`);
        }
        if (open.length !== want.length) this.bad(`${open.length} connections, expected ${want.length}`);
        for (const k of [1, 2]) {
            const p = pm.getProfileByEvmAddress(PEERS[k].address), t = p && p.getTransport(), w = this.latest[k];
            if (w ? t !== w.t : t) this.bad(`peer ${k} is ${w ? (t ? "reached over another connection" : "not reached") : "still reached"}`);
            if (p && p.getIsHandshakeCompleted() !== !!w) this.bad(`handshake with peer ${k} ${w ? "not " : ""}completed`);
        }
    }
    digest() {
        const n = this.n;
        const socks = this.all.map((c) => [c.slot, c.kind, c.open, c.who, c.used, c.byUs, c.s.ended, c.s.gone, c.s.broken, c.offered, n.p2p.openConnections.indexOf(c.t), n.p2p.profileManager.getProfileByTransport(c.t)?.getEvmAddress()]).filter((x) => x[2] || !x[7] || this.rtc.some((r) => r.slot === x[0]));
        const rtc = this.rtc.map((x) => [x.slot, x.peer, x.by, x.channel, x.opened, x.answered, x.cand, x.local, this.all.indexOf(x.via)]);
        const prof = [1, 2].map((k) => { const p = n.p2p.profileManager.getProfileByEvmAddress(PEERS[k].address); return p && [this.all.findIndex((c) => c.t === p.getTransport()), p.getIsHandshakeCompleted()]; });
        return JSON.stringify([socks, rtc, prof, this.made, this.topics, this.disposed, Object.fromEntries(Object.entries(this.c).map(([k, c]) => [k, this.all.indexOf(c)]))]);
    }
}
const cfg2 = (w) => w.cfg.offers;
const label = (e) => [e.k, e.s, e.p && "by " + e.p, e.wants && "wanting WebRTC", e.i].filter((x) => x !== undefined && x !== false).join(" ");
/** what has happened before the exploration starts */
function given(cfg) {
    return (cfg.given || []).flatMap((x) => [{ k: "open", s: x[0] }, ...(x[1] ? [{ k: "answer", s: x[0], p: +x[1], wants: x[2] === "w" }] : [])]);
}
async function run(prep, name, path) {
    const w = await new World(prep, CONFIGS[name]).start();
    for (const e of [...given(w.cfg), ...path]) {
        await w.event(e);
        if (w.trouble.length) break;
    }
    return w;
}
const hash = (s) => [...s].reduce((h, c) => (h * 31 + c.charCodeAt(0)) >>> 0, 7);
const PARTS = 4;
/** all states up to a depth: each is reached once and every event tried in it; the last step is shared among parts */
async function explore(prep, name, depth, rec, part) {
    const seen = new Set();
    let level = [[]];
    for (let d = 0; level.length; d++) {
        const next = [];
        for (const path of level) {
            const w = await run(prep, name, path);
            const counts = d === depth || part === 0;
            if (counts) {
                rec.add("traces");
                rec.transition();
                rec.outcome(path.length ? path[path.length - 1].k : "start");
            }
            if (w.trouble.length) {
                rec.violation(w.trouble[0].replace(/ [abr]\d? /g, " ").replace(/\d/g, ""), `${name}: ${w.trace.join(", ")}: ${w.trouble.join(" | ")}`, { name, path });
                continue;
            }
            const g = w.digest();
            if (counts) rec.state(name + g);
            if (seen.has(g)) continue;
            seen.add(g);
            if (d < depth) for (const e of w.enabled()) (d < depth - 1 || hash(g) % PARTS === part) && next.push([...path, e]);
            else rec.sample({ name, trace: w.trace }, 1);
        }
        level = next;
    }
}
exports.run = async ({ opt, prep, rec, mine }) => {
    let i = 0;
    const depth = opt.tier === "thorough" ? 5 : 4;
    for (const name of Object.keys(CONFIGS)) for (let part = 0; part < PARTS; part++) if (await mine(i++)) await explore(prep, name, depth, rec, part);
};
exports.replay = async (v, rec, prep) => {
    const w = await run(prep, v.name, v.path);
    if (w.trouble.length) rec.violation(w.trouble[0], `${v.name}: ${w.trace.join(", ")}: ${w.trouble.join(" | ")}`, v);
};
exports.expect = ({ outcomes }) => (["open", "answer", "defective", "remove", "hang up", "fail", "break", "broadcast", "disconnect all", "dispose", "join", "offer", "rtc answer", "candidate", "own candidate", "channel"].some((x) => !outcomes[x]) ? "some event never occurred: " + JSON.stringify(outcomes) : null);
