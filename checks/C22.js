"use strict";
// What an application sees of a channel, through the SDK as it is set up for it, is what happens in that channel.
const K = require("../lib/nodecheck");
const N = require("../lib/node");
const R = require("../lib/races");
const Ty = require("../lib/types");
const { FullNode, MGR } = require("../lib/full");
const { ethers } = require("../lib/ts");
const { compile } = require("../lib/solc");
const { W, build } = require("../lib/blocks");
const { genesis, wOf } = require("../lib/situ");
const { T, T0, CH, signBytes, VerifSM } = N;
const { H } = Ty;
const A = T.agreementTime, WAIT = T.p2pTime + T.agreementTime + T.chainFallbackTime;
const CHB = ethers.id("another channel"), ELSEWHERE = "0x" + "e1".repeat(20);
const ID = { A: CH, B: CHB };

exports.level = "model_checking";
exports.assumptions = ["the chain delivers every log once to each subscription, and reads succeed"];
exports.bounds = {
    quick: "3 situations: every sequence of 3 events (the third of 8 kinds) once the channel is open, of 2 after each of 6 ways of choosing the channel, of 26 kinds (logs of this and another channel and contract, repeated ones, messages, also two at once, the application's transactions, good and bad, other hooks, choosing the channel again, disposal), then silence over all time spans; with real ethers contracts and wallet, the real EVM and simulated chain",
    thorough: "3 events after each way of choosing, 4 in one situation once the channel is open"
};
exports.prepare = async () => {
    const art = (await compile(["verif/VerifExecution.sol:VerifExecution"])).VerifExecution;
    return { ...(await K.prepare()), smAbi: JSON.stringify(art.abi), smCode: "0x" + art.bytecode };
};
const SITS = [
    { name: "first of two", np: 2, me: 0, lag: 0 },
    { name: "second of two", np: 2, me: 1, lag: 0 },
    { name: "last of three, own clock 100 s late", np: 3, me: 2, lag: 100 }
];
let abi, smi;
const NOTHING = R.disputeOf(0, { channelId: ethers.ZeroHash, postedStateDisputer: ethers.ZeroAddress, creationTimestamp: 0n, deadlineTimestamp: 0n });
const plain = (x) => Ty.plain(x);
const same = (a, b) => JSON.stringify(a, big) === JSON.stringify(b, big);
const big = (k, v) => (typeof v === "bigint" ? v + "n" : v);

class World {
    constructor(prep, s) {
        Object.assign(this, { prep, s, me: W[s.me], trouble: [], trace: [], hooks: 0, channel: null, fork: -1, blocks: [], own: [], disposed: false, disputed: false, logs: [] });
        abi ||= JSON.parse(prep.smAbi);
        smi ||= new ethers.Interface(abi);
    }
    bad(x) {
        this.trouble.push(x);
    }
    async start() {
        const answer = (name, args, kind) => (name === "getDispute" ? [NOTHING] : N.defaultAnswer(name, args, kind));
        this.n = await new FullNode({ file: this.prep.file, iface: K.ifaceOf(this.prep), sm: { abi, bytecode: this.prep.smCode }, wallet: this.me, peers: ["x"], lag: this.s.lag, now: T0 * 1000, answer }).start();
        this.t0 = T0 + this.s.lag;
        this.listen(this.n.app, "Added");
        this.listen(this.n.app, "Seen");
        this.listen(this.n.app, "Text");
        await this.n.step({ t: "do", f: () => {} });
        return this;
    }
    listen(c, name) {
        const k = smi.getEvent(name).inputs.length;
        c.on(name, (...a) => this.n.out.events.push({ app: [name, ...a.slice(0, k)].map((x) => (x && x.hash) || (Array.isArray(x) ? "[" + x + "]" : String(x))).join(" ") }));
    }
    writer() {
        return this.fork < 0 ? null : VerifSM.next(this.state);
    }
    latest() {
        return this.blocks.length ? this.blocks[this.blocks.length - 1].ts : this.t0;
    }
    enabled() {
        const r = [];
        if (this.disposed) return ["state", ...(this.canPost() ? ["post"] : []), "dispute", ...(this.fork >= 0 ? ["block"] : [])];
        if (this.fork < 0) r.push("A", "B", "A+A", "B+A", "A+B");
        else r.push("A", "A+A");
        if (this.channel === CHB) return [...r, "state", "post", "post B", "dispute", "dispute B", "hooks", "dispose", "A+dispose"];
        r.push("state", "state B", "state elsewhere", ...(this.canPost() ? ["post"] : []), "post B", "dispute", "dispute B", "hooks", "dispose", "A+dispose", "read");
        if (this.logs.length) r.push("again");
        if (this.fork < 0) return [...r, "add"];
        r.push("add", "fail", "talk", "block", "other block");
        if (this.s.np > 2 && this.writer() === W[0].address) r.push("two blocks", "two blocks, the second first");
        return r;
    }
    canPost() {
        return this.fork < 0 || this.blocks.length > 0 || this.writer() !== this.me.address;
    }
    next(data) {
        const a = wOf(this.writer());
        return { ...build({ author: a, fork: this.fork, height: this.blocks.length, ts: this.latest(), data, state: this.state }), author: a, ts: this.latest() };
    }
    adopt(b, data) {
        this.blocks.push(b);
        this.state = b.state;
        this.claimFrom = Math.floor(this.n.now / 1000);
        const c = smi.parseTransaction({ data }), who = b.author.address;
        if (c.name === "add") return ["Added " + who + " " + c.args[0]];
        return [["Seen", CH, who, this.fork, this.blocks.length - 1, b.time, "0x" === b.enc ? "0x" : b.enc].join(" "), ["Text", ethers.id(c.args[0]), c.args[0], "[" + [...c.args[1]] + "]"].join(" "), "Added " + who + " " + c.args[1].length];
    }
    async log(l) {
        this.logs = [l];
        return this.n.step({ t: "log", ...l });
    }
    async event(e) {
        this.trace.push(e);
        const n = this.n, x = { app: [], hooks: [], turn: false, mayChallenge: false };
        const hears = (id) => !this.disposed && this.channel === id;
        const open = !this.disputed && this.fork >= 0;
        let out, answer;
        const call = (f) => n.step({ t: "do", f: () => void f().then((v) => (answer = { ok: v }), (err) => (answer = { err })) });
        if (["A", "B"].includes(e[0]) && !e.endsWith("dispose")) {
            out = await n.step({ t: "do", f: () => { for (const c of e.split("+")) n.inst.p2pSigner.setChannelId(ID[c]); } });
            this.channel = ID[e[e.length - 1]];
        } else if (e.startsWith("state")) {
            const g = genesis(this.s.np, BigInt(10 * (this.fork + 1))), id = e === "state B" ? CHB : CH;
            const ts = this.t0;
            out = await this.log({ name: "SetState", address: e === "state elsewhere" ? ELSEWHERE : MGR, args: { channelId: id, encodedState: g, forkCnt: BigInt(this.fork + 1), timestamp: BigInt(ts) } });
            if (hears(id) && e !== "state elsewhere") this.newFork(g, id), (x.hooks = ["onSetState"]), (x.turn = true);
        } else if (e.startsWith("post")) {
            const id = e === "post B" ? CHB : CH;
            let b = this.blocks[this.blocks.length - 1], fresh = false;
            if (this.fork >= 0 && this.writer() !== this.me.address ) (b = this.next(smi.encodeFunctionData("add", [3]))), (fresh = true);
            if (!b) b = { ...build({ author: W[0], fork: 0, height: 0, ts: this.t0, data: smi.encodeFunctionData("add", [3]), state: genesis(this.s.np) }), author: W[0] };
            out = await this.log({ name: "BlockCalldataPosted", args: { channelId: id, signedBlock: { encodedBlock: b.bytes, signature: b.sig }, timestamp: BigInt(this.t0) } });
            if (hears(id)) {
                x.hooks = ["onPostedCalldata"];
                if (this.fork >= 0) {
                    (this.posted ||= new Set()).add(this.fork + "/" + (fresh ? this.blocks.length : this.blocks.length - 1));
                    if (fresh && open) (x.app = this.adopt(b, smi.encodeFunctionData("add", [3]))), (x.turn = true);
                } else return this.give();
            }
        } else if (e.startsWith("dispute")) {
            const id = e === "dispute B" ? CHB : CH;
            const g = this.fork >= 0 ? this.genesis : genesis(this.s.np);
            const d = R.disputeOf(Math.max(0, this.fork), { channelId: id, encodedLatestFinalizedState: g, encodedLatestCorrectState: g, participants: W.slice(0, this.s.np).map((w) => w.address), creationTimestamp: BigInt(this.t0), deadlineTimestamp: BigInt(this.t0 + T.challengeTime) });
            out = await this.log({ name: "DisputeUpdated", args: { channelId: id, dispute: d } });
            if (hears(id)) {
                x.hooks = [["onDisputeUpdate", plain(d)]];
                x.mayChallenge = true;
                if (this.fork >= 0) this.disputed = true;
                else return this.give();
            }
        } else if (e === "again") {
            const l = this.logs[0];
            out = await n.step({ t: "log", ...l });
            if (hears(l.args.channelId) && (l.address || MGR) === MGR) {
                if (l.name === "BlockCalldataPosted") x.hooks = ["onPostedCalldata"];
                if (l.name === "DisputeUpdated") (x.hooks = [["onDisputeUpdate", plain(l.args.dispute)]]), (x.mayChallenge = true);
                if (l.name === "SetState" && Number(l.args.forkCnt) === this.fork + 1) this.newFork(l.args.encodedState, this.channel), (x.hooks = ["onSetState"]), (x.turn = true);
                if (l.name !== "SetState" && this.fork < 0) return this.give();
                            }
        } else if (e === "hooks") {
            out = await n.step({ t: "do", f: () => n.inst.setHooks(n.newHooks(this.hooks + 1)) });
            this.hooks++;
        } else if (e.endsWith("dispose")) {
            out = await n.step({ t: "do", f: () => {
                if (e !== "dispose") n.inst.p2pSigner.setChannelId(CH);
                n.inst.dispose();
            } });
            this.disposed = true;
            if (n.p2p.openConnections.length) this.bad("connections stay open");
        } else if (e === "read") {
            out = n.out = n.fresh();
        } else if (["add", "fail", "talk"].includes(e)) {
            const now = this.t0;
            const args = e === "add" ? [5] : e === "talk" ? ["hello", [7, 8]] : [], fn = e === "talk" ? "seen" : e;
            out = await call(() => n.app[fn](...args));
            const mine = open && this.writer() === this.me.address && e !== "fail";
            if (!answer) this.bad(e + " doesn't end");
            else if (mine !== "ok" in answer) this.bad(`${e} is ${mine ? "refused: " + answer.err.message : "accepted"}`);
            const sent = out.sent.map((m) => JSON.parse(m.data)).filter((m) => m.method === "onSignedBlock");
            if (sent.length !== (mine ? 1 : 0)) this.bad(`${sent.length} blocks are sent`);
            else if (mine) {
                const data = smi.encodeFunctionData(fn, args), sb = sent[0].params[0];
                const b = { ...build({ author: this.me, fork: this.fork, height: this.blocks.length, ts: Math.max(now, this.latest()), data, state: this.state }), author: this.me, ts: Math.max(now, this.latest()) };
                const got = Ty.dec("Block", sb.encodedBlock);
                b.time = Number(got.transaction.header.timestamp);
                b.enc = got.transaction.body.encodedData;
                if (e === "talk") {
                    const s = VerifSM.decode(this.state); // what seen() does
                    s.number = BigInt(b.time);
                    b.state = VerifSM.encode(s);
                    b.bytes = Ty.enc("Block", { ...plain(Ty.dec("Block", b.bytes)), stateHash: H(b.state) });
                    b.sig = signBytes(this.me, ethers.getBytes(H(b.bytes)));
                }
                if (sb.encodedBlock !== b.bytes || sb.signature !== b.sig) this.bad("the block sent isn't the one expected: " + JSON.stringify(plain(got), big));
                x.app = this.adopt(b, data);
                x.turn = true;
                this.own.push({ fork: this.fork, bytes: b.bytes });
            }
        } else if (e.startsWith("two")) {
            const data = [1, 4].map((k) => smi.encodeFunctionData("add", [k])), open = !this.disputed;
            const b = this.next(data[0]);
            const b2 = { ...build({ author: W[1], fork: this.fork, height: this.blocks.length + 1, ts: b.ts, data: data[1], state: b.state }), author: W[1], ts: b.ts };
            const msgs = [K.msgBlock(b), K.msgBlock(b2)];
            if (e !== "two blocks") msgs.reverse();
            out = await n.step({ t: "do", f: () => { for (const m of msgs) n.transports.x.onMessage(m.data); } });
            if (open) (x.app = [...this.adopt(b, data[0]), ...this.adopt(b2, data[1])]), (x.turn = true);
        } else if (e === "block" || e === "other block") {
            const data = smi.encodeFunctionData("add", [2]);
            const other = W[this.s.me ? 0 : 1];
            const b = this.writer() !== this.me.address ? this.next(data) : { ...build({ author: other, fork: this.fork, height: this.blocks.length, ts: this.latest(), data, state: this.state }), author: other, ts: this.latest() };
            const channel = e === "other block" ? CHB : CH;
            const b2 = channel === CH ? b : { ...build({ author: b.author, fork: this.fork, height: this.blocks.length, ts: this.latest(), data, state: this.state, channel: CHB }), author: b.author };
            const good = channel === CH && open && this.writer() !== this.me.address && !this.disposed;
            if (this.disposed) out = await n.step({ t: "do", f: () => n.p2p.openConnections.length && n.transports.x.onMessage(K.msgBlock(b2).data) });
            else out = await n.step(K.msgBlock(b2));
            // out of turn: the other one may be accused of it
            if (good) (x.app = this.adopt(b, data)), (x.turn = true);
            else if (open && channel === CH) return this.give();
        }
        await this.compare(out, x, e);
    }
    newFork(g, id) {
        this.fork++;
        Object.assign(this, { state: g, genesis: g, blocks: [], disputed: false, claimFrom: Math.floor(this.n.now / 1000) });
    }
    /** what follows isn't what this check is about */
    give() {
        this.over = true;
    }
    async compare(out, x, e) {
        for (const er of out.errors) this.bad(er);
        const app = out.events.filter((v) => v.app).map((v) => v.app), hooks = out.events.filter((v) => v.hook);
        if (!same(app, this.disposed ? [] : x.app)) this.bad(`${e}: the application gets [${app}] instead of [${x.app}]`);
        if (this.disposed && e !== "dispose" && hooks.length) this.bad(`${e} calls ${hooks.map((h) => h.hook)} after disposal`);
        for (const h of hooks) if (h.hooks !== this.hooks) this.bad(`${h.hook} is called on hooks that were replaced`);
        const turns = hooks.filter((h) => h.hook === "onTurn").map((h) => h.arg);
        if (x.turn && !turns.length) this.bad("it isn't told whose turn it is");
        if (turns.length && turns[turns.length - 1] !== this.writer()) this.bad("it is told that it's another one's turn");
        const calls = out.calls.map((c) => c.name);
        const rest = hooks.filter((h) => !["onTurn", "onInitiatingDispute"].includes(h.hook)).map((h) => (h.hook === "onDisputeUpdate" ? [h.hook, plain(h.arg)] : h.hook));
        if (!same(rest, x.hooks)) this.bad(`${e}: hooks called: ${JSON.stringify(rest, big).slice(0, 300)} instead of ${JSON.stringify(x.hooks, big).slice(0, 300)}`);
        if (calls.some((c) => c !== "challengeDispute") || (calls.length && !x.mayChallenge)) this.bad(`${e}: sends transactions: ${calls}`);
        this.mine(out);
        if (this.last) await this.read();
    }
    mine(out) {
        for (const c of out.calls) {
            if (c.to.toLowerCase() !== MGR || c.from !== this.me.address) this.bad(`${c.name} is sent by ${c.from} to ${c.to}`);
            const id = c.name === "postBlockCalldata" ? Ty.dec("Block", c.args[0].encodedBlock).transaction.header.channelId : c.args[0];
            if (id !== this.channel) this.bad(c.name + " is about another channel");
        }
        const d = out.calls.filter((c) => /Dispute$/.test(c.name)).length, h = out.events.filter((v) => v.hook === "onInitiatingDispute").length;
        if (d !== h) this.bad(`${d} disputes are begun or challenged, announced are ${h}`);
    }
    async read() {
        if (this.fork < 0 || this.disposed) return;
        const n = this.n;
        let got;
        const out = await n.step({ t: "do", f: () => void Promise.all([n.app.getState(), n.app.getParticipants(), n.app.getNextToWrite()]).then((v) => (got = v.map(plain)), (err) => (got = err.message)) });
        const want = [this.state, VerifSM.participants(this.state), VerifSM.next(this.state)];
        if (!same(got, want)) this.bad("reads " + JSON.stringify(got) + " instead of " + JSON.stringify(want));
        if (out.events.length || out.sent.length || out.calls.length) this.bad("reading has effects");
        if (n.chainOf(this.fork).length !== this.blocks.length) this.bad(`${n.chainOf(this.fork).length} blocks are adopted, expected ${this.blocks.length}`);
    }
    /** nothing happens any more: posting and timeouts happen in time */
    async silence() {
        if (this.disposed || this.over || this.fork < 0 ) return;
        const n = this.n, calls = [];
        const writer = this.writer(), h = this.blocks.length, own = this.own.filter((o) => o.fork === this.fork);
        for (let s; (s = n.nextTimer()) !== null; ) {
            s = Math.ceil(s / 1000 - T0);
            if (s > 2 * WAIT + 2) break;
            const out = await n.step({ t: "time", at: (T0 + s) * 1000 });
            for (const er of out.errors) this.bad(er);
            for (const c of out.calls) calls.push({ s, name: c.name, args: c.args });
            this.mine(out);
            for (const v of out.events) if (v.hooks !== undefined && v.hooks !== this.hooks) this.bad(`${v.hook} is called on hooks that were replaced`);
            const p = out.events.filter((v) => v.hook === "onPostingCalldata").length, q = out.calls.filter((c) => c.name === "postBlockCalldata").length;
            if (p !== q) this.bad(`posting is announced ${p} times, done ${q} times`);
            if (out.events.some((v) => v.app)) this.bad("the application gets events out of nothing");
        }
        const posts = calls.filter((c) => c.name === "postBlockCalldata");
        for (const o of own) {
            const k = posts.filter((c) => c.args[0].encodedBlock === o.bytes).map((c) => c.s).join();
            if (k !== String(A) && !(this.disputed && k === "")) this.bad(`an own block is posted at [${k}]`);
        }
        const claims = calls.filter((c) => c.name === "createDispute");
        const due = !this.disputed && writer !== this.me.address && !(this.posted && this.posted.has(this.fork + "/" + h));
        const want = due ? [[WAIT, this.fork, writer, h].join(" ")] : [];
        const got = claims.map((c) => [c.s, c.args[1], c.args[5], c.args[6]].join(" "));
        if (!same(got, want)) this.bad(`timeouts claimed: [${got}] instead of [${want}]`);
        if (claims.length) this.trace.push("(claims)");
        if (posts.length) this.trace.push("(posts)");
        await this.read();
    }
    digest() {
        return [this.s.name, this.channel, this.fork, this.disposed, this.disputed, this.hooks, this.blocks.map((b) => b.bytes), this.logs.map((l) => [l.name, l.args.channelId, String(l.args.forkCnt)])];
    }
}
async function run(prep, s, path) {
    const w = await new World(prep, s).start();
    for (const [k, e] of path.entries()) {
        if (w.trouble.length || w.over) break;
        w.last = k === path.length - 1; // (the other steps have been looked at already)
        await w.event(e);
    }
    return w;
}
async function judge(w, rec, s, path) {
    const enabled = w.trouble.length || w.over ? [] : w.enabled();
    if (!w.trouble.length) await w.silence();
    rec.state(w.digest());
    rec.add("traces");
    rec.transition(path.length);
    for (const e of w.trace) rec.outcome(e);
    if (w.trouble.length) {
        rec.violation(w.trouble[0].replace(/0x[0-9a-fA-F]+/g, "0x").replace(/\d+/g, "#").slice(0, 160), `${s.name}: ${path.join(", ")}: ${w.trouble.join(" | ").slice(0, 600)}`, { s: s.name, path });
        return [];
    }
    rec.sample({ situation: s.name, trace: w.trace }, 2);
    return enabled;
}
const STARTS = [[], ["A"], ["A", "A"], ["A+A"], ["B", "A"], ["B+A"], ["A", "state"]];
const TELLING = ["state", "post", "dispute", "add", "block", "two blocks", "again", "dispose"];
exports.run = async ({ opt, prep, rec, mine }) => {
    const thorough = opt.tier === "thorough";
    let i = 0;
    const go = async (s, path, left, ev) => {
        const evs = await judge(await run(prep, s, path), rec, s, path);
        for (const e of left ? evs : []) if (thorough || path.length < 4 || TELLING.includes(e)) await go(s, [...path, e], left - 1);
    };
    for (const s of SITS)
        for (const st of STARTS) {
            const main = st.join() === "A,state", depth = (thorough ? 3 : 2) + (main && (!thorough || s === SITS[0]) ? 1 : 0);
            const evs = (await run(prep, s, st)).enabled();
            if (await mine(i++)) await go(s, st, 0);
            for (const e of evs) {
                const next = (await run(prep, s, [...st, e])).enabled();
                if (await mine(i++)) await go(s, [...st, e], 0);
                for (const e2 of next) if (await mine(i++)) await go(s, [...st, e, e2], depth - 2);
            }
        }
};
exports.replay = async (v, rec, prep) => {
    const w = await run(prep, SITS.find((s) => s.name === v.s), v.path);
    if (!w.trouble.length) await w.silence();
    if (w.trouble.length) rec.violation(w.trouble[0], `${v.path.join(", ")}: ${w.trouble.join(" | ")}`, v);
};
exports.expect = ({ outcomes }) => (["A", "state", "state B", "post", "dispute", "add", "talk", "block", "hooks", "dispose", "again", "(claims)", "(posts)"].find((x) => !outcomes[x]) ? "some kind of event never occurred: " + JSON.stringify(outcomes) : null);
