"use strict";
// When a node posts a block of its own, and when it claims a timeout: exactly when time demands it.
const K = require("../lib/nodecheck");
const N = require("../lib/node");
const R = require("../lib/races");
const Ty = require("../lib/types");
const { ethers } = require("../lib/ts");
const { W, build } = require("../lib/blocks");
const { genesis, wOf } = require("../lib/situ");
const { T, T0, CH, add, signBytes, VerifSM, NO_CALLDATA } = N;
const { H } = Ty;
const A = T.agreementTime, WAIT = T.p2pTime + T.agreementTime + T.chainFallbackTime;

exports.level = "model_checking";
exports.assumptions = ["reads of the chain succeed", "timers fire at their time; a second is the unit of time"];
exports.bounds = {
    quick: "8 situations (2 or 3 participants, clocks ahead of or behind the chain's by up to 2 s): every history of 3 events out of up to 11 (own and others' blocks, confirmations, posts, posts mined but not reported yet, disputes, next forks), the first two after 5 and the third after 4 critical spans of time each, then silence; each event also between the question to the chain about a missing block and its answer",
    thorough: "every history of 3 events after 9 critical spans of time each, and of 4 after 3, 3, 2 and 1"
};
exports.prepare = K.prepare;
const SITS = [
    { np: 2, me: 0, lag: 0 }, { np: 2, me: 1, lag: 0 }, { np: 3, me: 1, lag: 0 }, { np: 3, me: 2, lag: 0 },
    { np: 2, me: 1, lag: 2 }, { np: 2, me: 1, lag: -2 }, { np: 2, me: 0, lag: 2 }, { np: 2, me: 2, lag: 0 }
].map((s) => ({ ...s, name: `${s.np} participants, node ${s.me}${s.lag ? `, the chain's clock ${Math.abs(s.lag)} s ${s.lag > 0 ? "ahead" : "behind"}` : ""}` }));
const SPANS = { all: [0, 1, A - 1, A, A + 1, WAIT - A, WAIT - 1, WAIT, WAIT + 1], quick: [0, A - 1, A, WAIT - 1, WAIT], last: [0, A, WAIT - 1, WAIT], few: [0, A, WAIT] };

class World {
    constructor(prep, s) {
        Object.assign(this, { prep, s, trouble: [], trace: [], chainPosts: [], seen: [] });
        this.me = W[s.me];
        this.fork = -1;
        this.own = []; // blocks to be posted: {fork, h, due, bytes}
        this.toMine = [];
        this.late = []; // mined, not reported
    }
    sec() {
        return Math.floor(this.n.now / 1000);
    }
    bad(x) {
        this.trouble.push(x);
    }
    async start() {
        const of = (f, h) => this.chainPosts.filter((p) => p.fork === f && p.h <= h);
        const answer = (name, args, kind) => {
            if (name === "getChainLatestBlockTimestamp") return BigInt(Math.max(0, ...of(Number(args[1]), Number(args[2])).map((p) => p.ts)));
            if (name === "getBlockCallData") {
                const p = this.chainPosts.find((p) => p.fork === Number(args[1]) && p.h === Number(args[2]) && p.p === args[3]);
                return p ? [true, { signedBlock: { encodedBlock: p.b.bytes, signature: p.b.sig }, timestamp: BigInt(p.ts) }] : [false, NO_CALLDATA];
            }
            return N.defaultAnswer(name, args, kind);
        };
        this.n = await new N.Node({ file: this.prep.file, iface: K.ifaceOf(this.prep), wallet: this.me, peers: ["x"], now: T0 * 1000, answer }).start();
        await this.newFork();
        return this;
    }
    async newFork() {
        this.fork++;
        this.gts = this.sec() + this.s.lag;
        this.state = genesis(this.s.np, BigInt(10 * this.fork));
        this.participants = VerifSM.participants(this.state);
        Object.assign(this, { blocks: [], posts: [], since: this.sec(), disputed: false });
        await this.feed(K.setState(this.state, this.fork, this.gts));
    }
    /** feeds an event; calls that it causes are looked at like those that time causes */
    async feed(ev) {
        const out = await this.n.step(ev);
        this.take(out);
        return out;
    }
    take(out) {
        for (const e of out.errors) this.bad(e);
        for (const c of out.calls) this.seen.push({ at: this.sec(), name: c.name, args: c.args });
        const h = out.events.filter((e) => e === "onPostingCalldata").length, p = out.calls.filter((c) => c.name === "postBlockCalldata").length;
        if (h !== p) this.bad(`posting was announced ${h} times, done ${p} times`);
    }
    latest() {
        return Math.max(this.gts, this.blocks.length ? this.blocks[this.blocks.length - 1].ts : 0);
    }
    writer() {
        return VerifSM.next(this.state);
    }
    /** time passes; what the node does of itself is compared with what it should */
    async advance(span) {
        const from = this.sec(), to = from + span;
        for (;;) {
            const t = this.n.nextTimer();
            if (t === null || t > to * 1000) break;
            this.take(await this.n.step({ t: "time", at: Math.max(t, this.n.now) }));
        }
        this.take(await this.n.step({ t: "time", at: to * 1000 }));
        this.judge(to);
    }
    judge(to) {
        const calls = this.seen;
        this.seen = [];
        // the timeout
        const h = this.blocks.length, p = this.writer();
        const claims = calls.filter((c) => c.name === "createDispute");
        const known = this.posts.filter((x) => x.h <= h), relevant = this.chainPosts.filter((x) => x.fork === this.fork && x.h <= h);
        const base = Math.max(this.latest(), ...relevant.map((x) => x.ts));
        const posted = relevant.some((x) => x.h === h && x.p === p);
        const may = !this.disputed && this.participants.includes(this.me.address) && p !== this.me.address && !posted;
        const must = Math.max(this.since, base, ...known.map((x) => x.at)) + WAIT;
        // a post that the node doesn't know of may have it come too early - the contracts would tell
        const least = Math.max(this.latest(), ...known.map((x) => x.ts)) + WAIT;
        for (const c of claims) {
            const what = `claims at ${c.at - T0} that ${this.nameOf(c.args[5])} missed block ${c.args[6]} of fork ${c.args[1]}`;
            if (c.args[5] === ethers.ZeroAddress) this.bad("disputes without a reason");
            else if (!may || Number(c.args[1]) !== this.fork || c.args[5] !== p || Number(c.args[6]) !== h) this.bad(what + ", which isn't so");
            else if (c.at < least) this.bad(what + `, before ${least - T0}`);
            else if (c.at > must) this.bad(what + `, after ${must - T0}`);
        }
        if (claims.length > 1) this.bad("claimed twice");
        if (may && to >= must && !claims.length && !this.slow) this.bad(`no claim by ${to - T0} that ${this.nameOf(p)} missed block ${h}`);
        if (claims.length) {
            this.disputed = true;
            this.claimedAt = claims[0].at;
            this.trace.push(`(timeout claimed at ${claims[0].at - T0})`);
        }
        // own blocks
        const posts = calls.filter((c) => c.name === "postBlockCalldata");
        for (const o of this.own.filter((o) => !o.done && o.due <= to)) {
            o.done = true;
            const cs = posts.filter((c) => c.args[0].encodedBlock === o.bytes);
            const all = this.signed(o);
            const quiet = o.fork !== this.fork || (this.disputed && !(this.claimedAt > o.due));
            if (all && cs.length) this.bad("a block that everybody signed is posted");
            if (!all && cs.length !== 1 && !(quiet && !cs.length)) this.bad(`a block of its own is posted ${cs.length} times by ${o.due - T0}`);
            for (const c of cs) {
                if (c.at !== o.due) this.bad(`posted at ${c.at - T0} instead of ${o.due - T0}`);
                if (c.args[0].signature !== o.sig) this.bad("posted with another signature");
                posts.splice(posts.indexOf(c), 1);
                if (!quiet) this.toMine.push(o);
                this.trace.push(`(posts at ${c.at - T0})`);
            }
        }
        if (posts.length) this.bad("posts something else");
        for (const c of calls) if (c.name !== "createDispute" && c.name !== "postBlockCalldata") this.bad("calls " + c.name);
    }
    nameOf(a) {
        const i = W.findIndex((w) => w.address === a);
        return i < 0 ? a : "W" + i;
    }
    signed(o) {
        const b = o.block;
        return o.participants.every((p) => b.sigs.has(p));
    }
    /** the next block by its (other) author */
    nextBlock(ts) {
        const a = wOf(this.writer());
        const b = build({ author: a, fork: this.fork, height: this.blocks.length, ts, data: add(1), state: this.state });
        return { ...b, author: a, ts };
    }
    adopt(b) {
        this.blocks.push({ ...b, sigs: new Set([b.author.address, ...(this.participants.includes(this.me.address) || true ? [this.me.address] : [])]) });
        this.state = b.state;
        this.since = this.sec();
    }
    enabled() {
        const r = [];
        if (this.future) return r; // (a block that nobody can build on, waiting for its turn)
        const p = this.writer(), h = this.blocks.length, now = this.sec();
        if (!this.disputed) {
            const free = !this.chainPosts.some((x) => x.fork === this.fork && x.h === h);
            if (p === this.me.address) r.push("play");
            else if (free) {
                const ref = Math.max(this.latest(), ...this.chainPosts.filter((x) => x.fork === this.fork && x.h <= h).map((x) => x.ts)) + T.p2pTime;
                const ts = [Math.min(ref, Math.max(now, this.latest()))];
                if (ref !== ts[0] && ref <= now + 5) ts.push(ref);
                for (const t of ts) r.push("block@" + (t - now));
                r.push(`post@${ts[0] - now}`, `mined@${ts[0] - now}`, "post of a later block");
            }
            const last = this.blocks[h - 1];
            const own = [...this.blocks].reverse().find((b) => b.author === this.me);
            for (const b of [own]) if (b) for (const q of this.participants) if (!b.sigs.has(q)) r.push(`conf ${this.blocks.indexOf(b)} by ${this.nameOf(q)}`);
            if (last && last.author !== this.me && !this.posts.some((x) => x.h === h - 1)) r.push("post of the last block");
            r.push("disputed");
        }
        if (this.late.length) r.push("reported");
        if (this.toMine.length) r.push("own post mined");
        if (this.fork < 2) r.push("next fork");
        return r;
    }
    mine(b, h, fork = this.fork) {
        const p = { fork, h, p: b.author.address, ts: this.sec() + this.s.lag, b };
        this.chainPosts.push(p);
        return p;
    }
    async report(p) {
        if (p.fork === this.fork) this.posts.push({ ...p, at: this.sec() });
        await this.feed({ t: "chain", name: "BlockCalldataPosted", args: { channelId: CH, signedBlock: { encodedBlock: p.b.bytes, signature: p.b.sig }, timestamp: BigInt(p.ts) } });
        if (p.fork === this.fork && !this.disputed && p.h === this.blocks.length) this.adopt(p.b);
    }
    /** time passes until the node asks the chain for a block that it misses; the answer takes a while */
    async ask() {
        this.trace.push("(slow answer)");
        this.slow = true;
        this.n.hold.add("getBlockCallData");
        for (let t; !this.n.pending.size && (t = this.n.nextTimer()) !== null && t <= this.n.now + 3 * WAIT * 1000; ) this.take(await this.n.step({ t: "time", at: Math.max(t, this.n.now) }));
        this.n.hold.delete("getBlockCallData");
        this.judge(this.sec());
    }
    async answers() {
        this.slow = false;
        for (const [id, p] of [...this.n.pending]) this.take(await this.n.step({ t: "ans", id, value: this.n.o.answer(p.name, p.args, p.kind) }));
        this.judge(this.sec());
    }
    async event(e) {
        if (e === "~") return this.ask();
        this.trace.push(`${this.sec() - T0}: ${e}`);
        const [k, at] = e.split("@"), now = this.sec();
        if (e === "play") {
            const out = await this.feed({ t: "play", data: add(1) });
            const c = this.n.chainOf(this.fork), x = c[this.blocks.length];
            if (!x || !out.events.some((y) => y.startsWith("played"))) return this.bad("can't play: " + out.events);
            const hd = Ty.dec("Block", x.bytes).transaction.header;
            const b = { bytes: x.bytes, sig: signBytes(this.me, ethers.getBytes(H(x.bytes))), author: this.me, ts: Number(hd.timestamp), state: x.state };
            this.adopt(b);
            this.own.push({ fork: this.fork, h: this.blocks.length - 1, due: now + A, bytes: b.bytes, sig: b.sig, participants: this.participants, block: this.blocks[this.blocks.length - 1] });
        } else if (k === "block") {
            const b = this.nextBlock(now + Number(at));
            await this.feed(K.msgBlock(b));
            this.adopt(b);
        } else if (k === "post") {
            await this.report(this.mine(this.nextBlock(now + Number(at)), this.blocks.length));
        } else if (k === "mined") {
            this.late.push(this.mine(this.nextBlock(now + Number(at)), this.blocks.length));
        } else if (e === "reported") {
            await this.report(this.late.shift());
        } else if (e === "own post mined") {
            const o = this.toMine.shift();
            await this.report(this.mine({ ...o.block }, o.h, o.fork));
        } else if (e === "post of the last block") {
            const h = this.blocks.length - 1;
            await this.report(this.mine(this.blocks[h], h));
        } else if (e === "post of a later block") {
            // by the same participant, of its next turn
            const a = wOf(this.writer()), h = this.blocks.length + this.participants.length;
            const b = build({ author: a, fork: this.fork, height: h, ts: Math.max(now, this.latest()), data: add(7), state: this.state });
            this.future = true;
            await this.report(this.mine({ ...b, author: a, ts: now }, h));
        } else if (e.startsWith("conf ")) {
            const [, i, , q] = e.split(" "), b = this.blocks[+i], w = W[+q.slice(1)];
            await this.feed(K.msgConf(b, signBytes(w, ethers.getBytes(H(b.bytes)))));
            b.sigs.add(w.address);
        } else if (e === "disputed") {
            this.disputed = true;
            this.claimedAt = now;
            await this.feed(R.chainEv("DisputeUpdated", { channelId: CH, dispute: R.disputeOf(this.fork, { encodedLatestFinalizedState: this.state, encodedLatestCorrectState: this.state, participants: this.participants, creationTimestamp: BigInt(now), deadlineTimestamp: BigInt(now + T.challengeTime) }) }));
            // answering it isn't what is looked at here
            this.seen = this.seen.filter((c) => c.name !== "challengeDispute");
        } else if (e === "next fork") await this.newFork();
        const got = this.n.chainOf(this.fork).length;
        if (!this.disputed && got !== this.blocks.length) this.bad(`${got} blocks adopted, expected ${this.blocks.length}`);
        if (this.seen.length) this.judge(now);
        if (this.slow) await this.answers();
    }
    digest() {
        const t = this.sec();
        return [this.s.name, this.fork, this.disputed, this.gts - t, this.since - t, this.blocks.map((b) => [b.ts - t, b.sigs.size, b.author.address]), this.posts.map((p) => [p.h, p.ts - t, p.at - t]), this.late.length, this.toMine.length, this.own.filter((o) => !o.done).map((o) => [o.due - t, o.fork])];
    }
}
const keyOf = (w) => w.trouble[0].replace(/0x[0-9a-fA-F]+/g, "0x").replace(/-?\d+/g, "#").slice(0, 150);
async function run(prep, s, path) {
    const w = await new World(prep, s).start();
    for (const x of path) {
        if (w.trouble.length) break;
        if (typeof x === "number") await w.advance(x);
        else await w.event(x);
    }
    return w;
}
async function walk(prep, s, spans, path, rec, mine) {
    const w = await run(prep, s, path);
    const evs = w.trouble.length ? [] : w.enabled();
    rec.state(w.digest());
    const d = path.filter((x) => typeof x === "string").length;
    if (typeof path[path.length - 1] !== "number") {
        // silence
        if (!w.trouble.length) await w.advance(3 * WAIT + 5);
        rec.add("traces");
        rec.transition(path.length);
        for (const x of w.trace) rec.outcome(x.replace(/-?\d+(: )?/g, "").replace(/[()@]/g, "").replace(/ at$| by W$/, "").trim());
        if (w.trouble.length) return rec.violation(keyOf(w), `${s.name}: ${w.trace.join(", ")}: ${w.trouble.join(" | ")}`, { s: s.name, path });
        rec.sample({ situation: s.name, trace: w.trace }, 2);
        if (d < spans.length) for (const t of spans[d]) await walk(prep, s, spans, [...path, t], rec, mine);
        return;
    }
    if (w.trouble.length) return rec.violation(keyOf(w), `${s.name}: ${w.trace.join(", ")}: ${w.trouble.join(" | ")}`, { s: s.name, path });
    for (const e of evs) await walk(prep, s, spans, [...path, e], rec);
    await slow(prep, s, path, rec);
}
/** what happens while the node waits for the chain's answer */
async function slow(prep, s, path, rec) {
    const w = await run(prep, s, [...path, "~"]);
    if (w.n.pending.size) for (const e of w.enabled()) await walk(prep, s, [], [...path, "~", e], rec);
}
exports.run = async ({ opt, prep, rec, mine }) => {
    let i = 0;
    const plans = opt.tier === "thorough" ? [[SPANS.all, SPANS.all, SPANS.all], [SPANS.few, SPANS.few, [A, WAIT], [WAIT]]] : [[SPANS.quick, SPANS.quick, SPANS.last]];
    for (const spans of plans)
        for (const s of SITS) {
            if (await mine(i++)) await walk(prep, s, [], [], rec);
            for (const t of spans[0]) {
                const w = await run(prep, s, [t]);
                if (await mine(i++)) await slow(prep, s, [t], rec);
                for (const e of w.enabled()) for (const t2 of spans[1]) {
                    if (await mine(i++)) await walk(prep, s, spans, [t, e, t2], rec);
                }
            }
        }
};
exports.replay = async (v, rec, prep) => {
    const w = await run(prep, SITS.find((s) => s.name === v.s), v.path);
    if (typeof v.path[v.path.length - 1] !== "number" && !w.trouble.length) await w.advance(3 * WAIT + 5);
    if (w.trouble.length) rec.violation(w.trouble[0], `${w.trace.join(", ")}: ${w.trouble.join(" | ")}`, v);
};
exports.expect = ({ outcomes }) => (["timeout claimed at", "posts at", "own post mined", "reported"].find((x) => !outcomes[x]) ? "some kind of outcome never occurred: " + JSON.stringify(outcomes) : null);
