"use strict";
// Several real nodes and the network between them. A global state is the local state of every node and the
// messages under way; every transition is one event at one node, executed by the real code. Local states
// that can't be told apart (same contents of everything the node holds) are one state.
const K = require("./nodecheck");
const N = require("./node");
const { ethers } = require("./ts");
const { W } = require("./blocks");
const { signer } = require("./peer");
const Ty = require("./types");
const { VerifSM, T0, add } = N;
const sha = (s) => require("crypto").createHash("sha1").update(s).digest("base64");

/** canonical contents of everything reachable, functions and foreign objects by name only */
function contents(root, skip = new Set()) {
    const seen = new Map();
    const go = (v) => {
        switch (typeof v) {
            case "string": return JSON.stringify(v);
            case "bigint": return v + "n";
            case "function": return "f:" + v.name;
            case "object": break;
            default: return String(v);
        }
        if (v === null) return "null";
        if (skip.has(v)) return "-";
        if (seen.has(v)) return "#" + seen.get(v);
        seen.set(v, seen.size);
        if (Array.isArray(v)) return "[" + Array.from(v, go).join() + "]";
        const tag = Object.prototype.toString.call(v);
        if (tag === "[object Map]") return "M{" + [...v].map(([k, x]) => go(k) + ":" + go(x)).join() + "}";
        if (tag === "[object Set]") return "S{" + [...v].map(go).join() + "}";
        if (tag === "[object Promise]" || tag === "[object WeakMap]") return tag;
        if (ArrayBuffer.isView(v)) return "B" + ethers.hexlify(v);
        return (v.constructor ? v.constructor.name : "") + "{" + Object.keys(v).map((k) => k + ":" + go(v[k])).join() + "}";
    };
    return go(root);
}

class Local {
    constructor(parent, ev) {
        this.parent = parent;
        this.ev = ev;
        this.next = new Map();
    }
    path() {
        return this.parent ? [...this.parent.path(), this.ev] : [];
    }
}
/** one participant: explores its local states on demand */
class Member {
    constructor(prep, i, o) {
        Object.assign(this, { prep, i, o });
        this.byDigest = new Map();
        this.runs = this.steps = 0;
    }
    async spawn() {
        const n = await new N.Node({ file: this.prep.file, iface: K.ifaceOf(this.prep), wallet: W[this.i], peers: this.o.links(this.i).map(String), now: (T0 + 1) * 1000, holdTimers: this.o.lazy }).start();
        this.skip = new Set([n, n.contract, n.signer, ...Object.values(n.transports)]);
        this.runs++;
        return n;
    }
    event(ev) {
        if (ev.t === "chain") return ev.ev;
        if (ev.t === "tick") return ev;
        if (ev.t === "play") return { t: "play", data: add(1), id: "own" };
        if (ev.t === "gone") return { t: "disconnect", name: String(ev.from) };
        return { t: "msg", from: String(ev.from), data: ev.data };
    }
    look(l, n, out) {
        this.steps++;
        l.sent = out.sent.map((m) => ({ to: +m.to, data: m.data }));
        l.calls = [...(l.parent ? l.parent.calls : []), ...out.calls.map((c) => c.name)];
        l.errors = [...out.errors, ...out.events.filter((e) => /^refused/.test(e))];
        l.forks = n.ag.forkService.getNextForkIndex();
        l.chains = [];
        for (let f = 0; f < l.forks; f++)
            l.chains.push(
                n.chainOf(f).map((b) => ({ bytes: b.bytes, state: b.state, by: W.filter((w) => b.sigs.some((s) => signer(b.bytes, s) === w.address)).map((w) => W.indexOf(w)), final: n.ag.didEveryoneSignBlock(Ty.dec("Block", b.bytes)) }))
            );
        l.state = n.sm.state;
        if (this.o.look) l.seen = this.o.look(n, out);
        l.due = !!(this.o.lazy && n.due().length);
        l.turn = l.forks > 0 && VerifSM.next(n.sm.state) === W[this.i].address;
        l.digest = sha(contents([n.mgr, n.sm.state, n.timers.map((t) => t.at), l.calls, Object.keys(n.transports).map((k) => n.p2p.openConnections.includes(n.transports[k]))], this.skip));
    }
    async root() {
        const n = await this.spawn();
        const l = new Local(null, null);
        this.look(l, n, n.fresh());
        this.byDigest.set(l.digest, l);
        this.live = { at: l, n };
        l.id = 0;
        return l;
    }
    async step(l, ev) {
        const k = ev.t + (ev.from ?? "") + (ev.data ?? ev.id ?? "");
        const known = l.next.get(k);
        if (known) return known;
        let n;
        if (this.live && this.live.at === l) n = this.live.n;
        else {
            n = await this.spawn();
            for (const e of l.path()) await n.step(this.event(e));
        }
        this.live = null;
        const c = new Local(l, ev);
        this.look(c, n, await n.step(this.event(ev)));
        const r = { sent: c.sent, errors: c.errors };
        const same = this.byDigest.get(c.digest);
        if (same) r.to = same;
        else {
            c.id = this.byDigest.size;
            this.byDigest.set(c.digest, c);
            this.live = { at: c, n };
            r.to = c;
        }
        l.next.set(k, r);
        return r;
    }
}
function describe(data) {
    const m = JSON.parse(data);
    if (!m.params[0] || !m.params[0].encodedBlock) return m.method + (m.params[1] ? " confirmed" : "");
    const h = Ty.dec("Block", m.params[0].encodedBlock).transaction.header;
    const at = `${h.forkCnt}/${h.transactionCnt}`;
    if (m.method !== "onBlockConfirmation") return "block " + at;
    const who = signer(m.params[0].encodedBlock, m.params[1]);
    return `${W.findIndex((w) => w.address === who)}'s confirmation of ${at}`;
}
/**
 * o: {np: participants; who: indices of the real nodes (the others only send what o.net says); start: [{fork, state, ts}];
 *  heights: {fork: blocks to make}; cut: [[a,b]] links that don't exist; breaks: [[a,b]] links that break at some time;
 *  ready: the start has been seen by all; net: {"0>1": [message]}; bag: links don't keep the order; eager: what changes nothing is delivered at once;
 *  lazy: what a node puts off (queues) happens at some time later}
 * Explores every order; calls state(g, enabled, trace) on each new global state and alarm(what, trace) for errors.
 */
async function explore(prep, o, { state, alarm, rec, limit = Infinity, replay }) {
    const cut = new Set((o.cut || []).flatMap(([a, b]) => [a + "-" + b, b + "-" + a]));
    const ids = o.who || [...Array(o.np).keys()];
    const members = {};
    for (const i of ids) members[i] = new Member(prep, i, { look: o.look, lazy: o.lazy, links: (a) => [...Array(o.np).keys()].filter((b) => b !== a && !cut.has(a + "-" + b)) });
    const loc = {};
    for (const i of ids) loc[i] = await members[i].root();
    const keys = new Map();
    const short = (s) => (keys.has(s) || keys.set(s, keys.size), keys.get(s));
    const msg = (from, data) => ({ t: "msg", from, data, key: short(data) });
    const start = { loc, net: new Map(), broken: 0 };
    const starts = o.start.map((s) => ({ t: "chain", id: "fork " + s.fork, key: "f" + s.fork, ev: K.setState(s.state, s.fork, s.ts) }));
    // ready: everybody has seen the start already
    if (o.ready) for (const i of ids) for (const s of starts) loc[i] = (await members[i].step(loc[i], s)).to;
    else for (const i of ids) start.net.set("c>" + i, starts);
    for (const k in o.net || {}) start.net.set(k, o.net[k].map((d) => msg(+k.split(">")[0], d)));
    const ordered = (k) => !o.bag || k[0] === "c";
    const keyOf = (g) =>
        ids.map((i) => g.loc[i].id).join() + "|" + g.broken + "|" +
        [...g.net].filter(([, q]) => q.length).map(([k, q]) => k + ":" + (ordered(k) ? q : [...q].sort((a, b) => (a.key < b.key ? -1 : 1))).map((m) => m.key).join("/")).sort().join(";");
    const dead = (g, a, b) => (o.breaks || []).some(([x, y], i) => (g.broken >> i) & 1 && ((x === a && y === b) || (x === b && y === a)));
    const enabled = (g) => {
        const r = [];
        for (const i of ids) {
            for (const [k, q] of g.net) {
                if (!q.length || !k.endsWith(">" + i)) continue;
                if (ordered(k)) r.push({ i, k, at: 0 });
                else {
                    const seen = new Set();
                    q.forEach((m, at) => !seen.has(m.key) && (seen.add(m.key), r.push({ i, k, at })));
                }
            }
            const l = g.loc[i];
            if (l.due) r.push({ i, k: "tick", at: 0 });
            if (l.turn && l.chains[l.forks - 1].length < (o.heights[l.forks - 1] ?? 0)) r.push({ i, k: "play", at: 0 });
        }
        (o.breaks || []).forEach((_, i) => !((g.broken >> i) & 1) && r.push({ k: "break", i }));
        return r;
    };
    const apply = async (g, a) => {
        const net = new Map(g.net);
        if (a.k === "break") {
            const [x, y] = o.breaks[a.i];
            net.set(x + ">" + y, [{ t: "gone", from: x, key: "gone" }]);
            net.set(y + ">" + x, [{ t: "gone", from: y, key: "gone" }]);
            return { g: { loc: g.loc, net, broken: g.broken | (1 << a.i) }, errors: [] };
        }
        let ev;
        if (a.k === "play" || a.k === "tick") ev = { t: a.k };
        else {
            const q = [...net.get(a.k)];
            ev = q.splice(a.at, 1)[0];
            net.set(a.k, q);
        }
        const r = await members[a.i].step(g.loc[a.i], ev);
        for (const m of r.sent) {
            const k = a.i + ">" + m.to;
            if (members[m.to] && !dead(g, a.i, m.to)) net.set(k, [...(net.get(k) || []), msg(a.i, m.data)]);
        }
        return { g: { loc: { ...g.loc, [a.i]: r.to }, net, broken: g.broken }, errors: r.errors, silent: ev.t === "msg" && r.to === g.loc[a.i] && !r.sent.length };
    };
    const name = (g, a) => {
        if (a.k === "break") return "link " + o.breaks[a.i].join("-") + " breaks";
        if (a.k === "play") return a.i + " plays";
        if (a.k === "tick") return a.i + " does what it put off";
        const m = g.net.get(a.k)[a.at];
        return m.t === "gone" ? `${a.i} notices that ${m.from} is gone` : `${a.i} gets ${m.t === "chain" ? m.id : describe(m.data) + " from " + m.from}`;
    };
    const traceOf = (x) => (x.up ? [...traceOf(x.up), x.name] : []);
    const choicesOf = (x) => (x.up ? [...choicesOf(x.up), x.c] : []);
    const T = (x) => ({ trace: traceOf(x), choices: choicesOf(x) });
    const color = new Map(); // 1 on the way, 2 done
    const expand = async (x) => {
        const en = enabled(x.g);
        rec.add("schedules", en.length ? 0 : 1);
        state(x.g, en, () => T(x));
        let next = [];
        for (let c = 0; c < en.length; c++) {
            const r = await apply(x.g, en[c]);
            rec.transition();
            const y = { g: r.g, up: x, c, name: name(x.g, en[c]), depth: x.depth + 1 };
            for (const e of r.errors) alarm(e, () => T(y));
            if (o.eager && r.silent) {
                next = [y];
                break;
            }
            next.push(y);
        }
        return next.reverse();
    };
    const root = { g: start, depth: 0 };
    if (replay) {
        let x = root;
        for (const c of replay) {
            const en = enabled(x.g);
            state(x.g, en, () => T(x));
            if (!en[c]) break;
            const r = await apply(x.g, en[c]);
            const y = { g: r.g, up: x, c, name: name(x.g, en[c]), depth: x.depth + 1 };
            for (const e of r.errors) alarm(e, () => T(y));
            x = y;
        }
        state(x.g, enabled(x.g), () => T(x));
        return {};
    }
    const stack = [root];
    let states = 0, deepest = 0, complete = true;
    root.key = sha(keyOf(start));
    while (stack.length) {
        const x = stack[stack.length - 1];
        if (x.todo === undefined) {
            color.set(x.key, 1);
            states++;
            deepest = Math.max(deepest, x.depth);
            x.todo = x.depth > (o.maxDepth || 400) ? (alarm("messages never stop", () => T(x)), []) : await expand(x);
        }
        const y = x.todo.pop();
        if (!y) {
            color.set(x.key, 2);
            stack.pop();
            continue;
        }
        y.key = sha(keyOf(y.g));
        const c = color.get(y.key);
        if (c === 1) alarm("messages go round in circles", () => T(y));
        if (!c) stack.push(y);
        if (states >= limit) {
            complete = false;
            break;
        }
    }
    return { states, deepest, complete, members };
}
module.exports = { explore, contents };
