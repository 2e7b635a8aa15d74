"use strict";
// One honest node, the chain (the executable specification of the contracts), and everybody else under the control of
// one adversary that has their keys. Every step - what the adversary sends or submits, which transaction is mined,
// which receipt or chain event arrives, which timer fires - is a choice of the explorer.
const K = require("./nodecheck");
const N = require("./node");
const Ty = require("./types");
const { Peer } = require("./peer");
const { Spec, attempt, ZERO } = require("./spec");
const { W, X, build } = require("./blocks");
const { genesis, wOf } = require("./situ");
const { VerifSM, T, T0, CH, add, nudge, signBytes } = N;
const { ethers, verifyMessage } = require("./ts");
const { H, enc, dec, PROOF } = Ty;

const NOTHING = { channelId: ethers.ZeroHash, forkCnt: 0n, challengeCnt: 0n, encodedLatestFinalizedState: "0x", encodedLatestCorrectState: "0x", virtualVotingBlocks: [], timedoutParticipant: ZERO, foldedTransactionCnt: 0n, timeoutDisputer: ZERO, postedStateDisputer: ZERO, joinChannelParticipants: [], leaveChannelParticipants: [], slashedParticipants: [], participants: [], processExits: [], creationTimestamp: 0n, deadlineTimestamp: 0n };
const sigOf = (w, bytes) => signBytes(w, ethers.getBytes(H(bytes)));
const SUBMIT = {
    createDispute: (s, a, who, now) => s.createDispute({ id: a[0], fork: Number(a[1]), fin: a[2], latest: a[3], vvb: a[4], timedout: a[5], folded: a[6], proofs: a[7] }, who, now),
    challengeDispute: (s, a, who, now) => s.challengeDispute({ id: a[0], fork: Number(a[1]), challengeCnt: a[2], proofs: a[3], vvb: a[4], fin: a[5], latest: a[6] }, who, now),
    postBlockCalldata: (s, a, who, now) => s.post(null, who, a[0], now)
};
class Court {
    constructor(s) {
        this.s = s;
        this.me = W[s.me];
        this.others = W.slice(0, s.np).filter((w) => w !== this.me);
        this.spec = new Spec({ times: { p2p: BigInt(T.p2pTime), agreement: BigInt(T.agreementTime), fallback: BigInt(T.chainFallbackTime), challenge: BigInt(T.challengeTime) } });
        this.inbox = []; // events of the chain that the node hasn't seen yet
        this.receipts = []; // transactions of the node that are mined, unknown to it
        this.log = []; // what happened, in words
        this.bad = []; // what must not have happened
        this.sigs = new Map(); // block -> signatures on it that others can have
        this.blocks = new Map(); // "fork/height" -> blocks (bytes) the adversary knows or made
        this.released = []; // {bytes, fork, height, step} signatures of the node that left it
        this.submitted = []; // {name, args, step, fork, top, ...}
        this.accused = []; // {fork, who} whom the node must bring to court
        this.step = 0;
        this.used = {};
        this.errors = [];
        this.knew = new Set(); // forks that the node knows to be disputed
        this.signedLate = []; // blocks of such forks that it signed nevertheless
    }
    get now() {
        return Math.floor(this.n.now / 1000);
    }
    async start(prep) {
        const { s } = this;
        const iface = K.ifaceOf(prep);
        this.iface = iface;
        this.n = new N.Node({ file: prep.file, iface, wallet: this.me, peers: ["x"], hold: ["write"], answer: (name, a) => this.read(name, a), now: T0 * 1000, ...(s.opts || {}) });
        await this.n.start();
        this.model = new Peer({ me: this.me.address, channel: CH, times: T, chainTs: (f, h) => Number(this.spec.latestPostedTime(CH, f, h)), disputes: true });
        this.spec.open(CH, W.slice(0, s.np).map((w) => w.address), W.slice(0, s.np).map((_, i) => BigInt(100 + i)), T0);
        this.announce(0);
        await this.deliver();
        for (let i = 0; i < s.pre; i++) {
            const a = wOf(VerifSM.next(this.model.state));
            await this.tick(1);
            if (a === this.me) await this.play(add(1));
            else await this.msg(this.next(a));
            if (s.agreed !== false) for (const w of this.others) if (w !== a) await this.confirm(i, w);
        }
        this.n.o.holdTimers = true;
        for (const k of s.hold || []) this.n.hold.add(k);
        this.log = [];
        return this;
    }
    read(name, a) {
        if (name === "getDispute") return this.spec.c(CH).dispute ? { ...NOTHING, ...structuredClone(this.spec.c(CH).dispute) } : NOTHING;
        if (name === "getBlockCallData") {
            const p = this.spec.postedBy(a[0], a[1], a[2], a[3]);
            return [!!p, p ? { signedBlock: p.sb, timestamp: p.ts } : N.NO_CALLDATA];
        }
        if (name === "getChainLatestBlockTimestamp") return this.spec.latestPostedTime(a[0], a[1], a[2]);
        return new Error("no answer for " + name);
    }
    async tick(seconds) {
        this.n.now += seconds * 1000;
        await this.feed({ t: "time" });
    }
    /** one input of the node; looks at everything it says and submits */
    async feed(ev) {
        this.step++;
        const out = await this.n.step(ev);
        for (const e of out.errors) this.errors.push(e);
        const said = K.released({ sent: out.sent, calls: out.calls.filter((c) => c.name === "postBlockCalldata") }, this.me.address);
        for (const bytes of K.released(out, this.me.address)) {
            const b = dec("Block", bytes), h = b.transaction.header, fork = Number(h.forkCnt);
            if (said.has(bytes) && this.knew.has(fork) && !this.released.some((r) => r.bytes === bytes)) this.signedLate.push(bytes);
            this.released.push({ bytes, fork, height: Number(h.transactionCnt), step: this.step });
            this.know(bytes, sigOf(this.me, bytes));
        }
        for (const c of out.calls) {
            const last = (v) => (v.length ? Number(dec("Block", v[v.length - 1].encodedBlock).transaction.header.transactionCnt) : -1);
            const e = { ...c, step: this.step };
            if (c.name === "createDispute") Object.assign(e, { fork: Number(c.args[1]), top: last(c.args[4]), vvb: c.args[4] });
            if (c.name === "challengeDispute") Object.assign(e, { fork: Number(c.args[1]), top: last(c.args[4]), vvb: c.args[4] });
            const r = SUBMIT[c.name] ? attempt(this.spec, (x) => SUBMIT[c.name](x, c.args, this.me.address, this.now)) : { ok: false, why: "unknown call" };
            Object.assign(e, { ok: r.ok, why: r.why, informed: !this.inbox.length && !this.mempool().some((p) => p.id < c.id), busyCourt: this.spec.disputeInProgress(CH, this.now) && Number(this.spec.c(CH).dispute.forkCnt) !== e.fork, t: this.now });
            this.submitted.push(e);
            if (e.fork !== undefined) this.knew.add(e.fork);
        }
        if (ev.t === "chain" && ev.name === "DisputeUpdated") this.knew.add(Number(ev.args.dispute.forkCnt));
        return out;
    }
    know(bytes, sig) {
        const h = dec("Block", bytes).transaction.header, k = h.forkCnt + "/" + h.transactionCnt;
        if (!this.blocks.has(k)) this.blocks.set(k, []);
        if (!this.blocks.get(k).includes(bytes)) this.blocks.get(k).push(bytes);
        if (!this.sigs.has(bytes)) this.sigs.set(bytes, []);
        if (!this.sigs.get(bytes).includes(sig)) this.sigs.get(bytes).push(sig);
    }
    mempool() {
        return [...this.n.pending.entries()].filter(([, p]) => p.kind === "write" && !p.mined).map(([id, p]) => ({ id, ...p }));
    }
    // --- chain
    announce(fork, dispute) {
        const tx = (this.txs = (this.txs || 0) + 1);
        const f = this.spec.c(CH).forks[fork];
        this.inbox.push({ t: "chain", name: "SetState", args: { channelId: CH, encodedState: f.state, forkCnt: BigInt(fork), timestamp: f.ts }, tx });
        if (dispute) this.inbox.push({ tx, t: "chain", name: "DisputeUpdated", args: { channelId: CH, dispute: structuredClone(dispute) } });
    }
    /** executes a transaction; events are on their way to the node */
    submit(name, args, who) {
        const before = this.spec.latestFork(CH), posts = this.spec.c(CH).posted.length;
        const r = attempt(this.spec, (s) => SUBMIT[name](s, args, who, this.now));
        if (!r.ok) return r;
        this.spec = r.spec;
        const c = this.spec.c(CH);
        for (const p of c.posted.slice(posts)) this.inbox.push({ t: "chain", name: "BlockCalldataPosted", args: { channelId: CH, signedBlock: p.sb, timestamp: p.ts } });
        if (this.spec.latestFork(CH) > before) this.announce(this.spec.latestFork(CH), c.dispute);
        if (c.dispute && c.dispute.slashedParticipants.includes(this.me.address)) this.bad.push("the honest node was slashed");
        return r;
    }
    /** hands the next chain event to the node */
    async deliver() {
        while (this.inbox.length) await this.deliverOne();
    }
    async deliverOne() {
        const e = this.inbox.shift();
        this.went = { tx: e.tx, step: this.step + 1 }; // the events of a transaction usually arrive together
        // a block is judged by the chain's time, events tell it
        if (e.name === "SetState") this.model.newFork(e.args.encodedState, Number(e.args.forkCnt), Number(e.args.timestamp));
        if (e.name === "BlockCalldataPosted") this.judge(() => this.model.posted(e.args.signedBlock.encodedBlock, e.args.signedBlock.signature, Number(e.args.timestamp)));
        if (e.name === "DisputeUpdated") this.model.disputed.add(Number(e.args.dispute.forkCnt));
        await this.feed(e);
    }
    mine(id) {
        const p = this.n.pending.get(id);
        p.mined = true;
        const r = this.submit(p.name, p.args, this.me.address);
        const e = this.submitted.find((x) => x.id === id);
        e.mined = r.ok;
        e.rejected = r.why;
        this.receipts.push({ id, ok: r.ok, why: r.why, name: p.name });
        return r;
    }
    async receipt(i) {
        const [r] = this.receipts.splice(i, 1);
        await this.feed(r.ok ? { t: "ans", id: r.id } : { t: "ans", id: r.id, error: "reverted: " + r.why });
    }
    // --- the node's side
    async play(data) {
        const b = this.model.play(data, this.now);
        await this.feed({ t: "play", data });
        return b;
    }
    judge(f) {
        const n = this.model.disputed.size, idle = !this.busy();
        const r = f();
        return { r, idle, accused: this.model.disputed.size > n };
    }
    async msg(b) {
        this.know(b.bytes, b.sig);
        const { idle, accused } = this.judge(() => this.model.block(b.bytes, b.sig));
        if (accused && idle && this.model.fork.participants.includes(this.me.address)) this.accused.push({ fork: Number(dec("Block", b.bytes).transaction.header.forkCnt), who: dec("Block", b.bytes).transaction.header.participant });
        await this.feed(K.msgBlock({ bytes: b.bytes, sig: b.sig }));
    }
    top() {
        return this.model.forks.length - 1;
    }
    async confirm(h, w) {
        const b = this.model.fork.blocks[h];
        const author = wOf(b.author);
        this.know(b.bytes, sigOf(w, b.bytes));
        this.model.confirmation(b.bytes, sigOf(author, b.bytes), sigOf(w, b.bytes));
        await this.feed(K.msgConf({ bytes: b.bytes, sig: sigOf(author, b.bytes) }, sigOf(w, b.bytes)));
    }
    next(a, data = add(1), o = {}) {
        const m = this.model;
        return build({ author: a, fork: m.forkCnt, height: m.height, ts: Math.max(m.latestTs, this.now), data, state: m.state, ...o });
    }
    busy() {
        return !!(this.inbox.length || this.receipts.length || this.n.pending.size || this.n.due().length);
    }
    /** the adversary's history: the first k blocks of the node's chain of fork f, with all signatures there are */
    history(f, k) {
        const fork = this.model.forks[f];
        const blocks = fork.blocks.slice(0, k);
        const vvb = blocks.map((b) => ({ encodedBlock: b.bytes, signatures: [...new Set([sigOf(wOf(b.author), b.bytes), ...(this.sigs.get(b.bytes) || []), ...this.others.map((w) => sigOf(w, b.bytes))])] }));
        const fin = fork.genesis, latest = k ? blocks[k - 1].state : fin;
        return { vvb, fin, latest, fork };
    }
    /** adversary's blocks must be known: all of the prefix either by others or released by the node */
    has(f, k) {
        return this.model.forks[f] && this.model.forks[f].blocks.length >= k && this.model.forks[f].blocks.slice(0, k).every((b) => b.author !== this.me.address || (this.sigs.get(b.bytes) || []).length);
    }
    // --- choices
    choices(left, room, faults) {
        const c = [];
        const n = this.n;
        const ops = [...n.pending.entries()].filter(([, p]) => p.kind === "sm" || p.kind === "sign");
        ops.forEach(([id, p], i) => c.push({ label: "complete " + p.name, cost: i ? 1 : 0, run: () => this.feed({ t: "ans", id }) }));
        const due = n.due();
        if (due.length) c.push({ label: "timer", cost: ops.length ? 1 : 0, run: () => this.feed({ t: "tick" }) });
        const internal = ops.length + due.length;
        this.receipts.forEach((r, i) => c.push({ label: "receipt of " + r.name, cost: internal || i ? 1 : 0, run: () => this.receipt(i) }));
        if (this.inbox.length) c.push({ label: "event " + this.inbox[0].name, cost: internal && !(this.went && this.went.step === this.step && this.went.tx && this.went.tx === this.inbox[0].tx) ? 1 : 0, run: () => this.deliverOne() });
        this.mempool().forEach((p, i) => {
            const cost = i || internal || this.inbox.length || this.receipts.length ? 1 : 0;
            c.push({ label: "mine " + p.name, cost, run: async () => this.mine(p.id) });
            if (p.name === "createDispute" && this.failed < faults) c.push({ label: "lose " + p.name, cost, fault: 1, run: () => (this.failed++, n.pending.get(p.id).mined = true, this.submitted.find((x) => x.id === p.id).lost = true, this.feed({ t: "ans", id: p.id, error: "timeout" })) });
        });
        const busy = this.busy();
        for (const a of this.s.actions) {
            if (left !== null && !left.includes(a.name)) continue;
            if ((this.used[a.name] || 0) >= (a.max || 1)) continue;
            if (busy && (a.quiet || room < 1)) continue;
            if (!a.when(this)) continue;
            c.push({ label: a.name, action: true, cost: busy ? 1 : 0, run: async () => ((this.used[a.name] = (this.used[a.name] || 0) + 1), a.run(this)) });
        }
        return c;
    }
}
/** one run: script = the first actions in order (then any), at most `depth` actions */
async function runOne({ prep, s, script, depth, bound, faults = 0, prefix }) {
    const ctx = await new Court(s).start(prep);
    ctx.failed = 0;
    const trail = [];
    let cost = 0, acts = 0, enabled = [];
    for (let step = 0; ; step++) {
        if (step > 1500) {
            ctx.bad.push("the node never comes to rest");
            break;
        }
        const left = acts < script.length ? [script[acts]] : acts < depth ? null : [];
        const cs = ctx.choices(left, bound - cost, faults).filter((c) => cost + c.cost <= bound);
        // doing nothing more is a choice too, once everything is quiet: the run of the shorter script covers it
        if (!cs.length) break;
        const pick = step < prefix.length ? prefix[step] : 0;
        const c = cs[pick];
        trail.push({ n: cs.length, pick, label: c.label });
        cost += c.cost;
        if (c.action) acts++;
        ctx.log.push(c.label);
        await c.run();
    }
    ctx.acts = acts;
    return { ctx, trail };
}
/** lets everything that is under way happen, in the usual order */
async function rest(ctx) {
    for (let i = 0; i < 500; i++) {
        const cs = ctx.choices([], 0, 0);
        if (!cs.length) return true;
        await cs[0].run();
    }
    ctx.bad.push("the node never comes to rest");
    return false;
}
async function explore(o, visit) {
    const stack = [[]];
    let runs = 0;
    while (stack.length) {
        const prefix = stack.pop();
        const r = await runOne({ ...o, prefix });
        runs++;
        for (let i = r.trail.length - 1; i >= prefix.length; i--) for (let p = r.trail[i].n - 1; p > 0; p--) stack.push([...r.trail.slice(0, i).map((t) => t.pick), p]);
        await visit(r);
    }
    return runs;
}
/** the actions that can come after this script (default schedule) */
async function enabled(prep, s, script) {
    const { ctx } = await runOne({ prep, s, script, depth: script.length, bound: 0, prefix: [] });
    if (ctx.acts < script.length) return [];
    await rest(ctx);
    return ctx.choices(null, 0, 0).filter((c) => c.action).map((c) => c.label);
}

// --- what the others may do
const A = (name, when, run, o = {}) => ({ name, when, run, ...o });
const evidence = {
    doubleSign: (b1, b2, w) => ({ proofType: BigInt(PROOF.DoubleSign), encodedProof: enc("DoubleSign", { doubleSigns: [{ block1: { encodedBlock: b1, signature: sigOf(w, b1) }, block2: { encodedBlock: b2, signature: sigOf(w, b2) } }] }) }),
    newerState: (bytes, sig) => ({ proofType: BigInt(PROOF.NewerState), encodedProof: enc("NewerState", { encodedBlock: bytes, confirmationSignature: sig }) }),
    foldRechallenge: (bytes, signatures) => ({ proofType: BigInt(PROOF.FoldRechallenge), encodedProof: enc("FoldRechallenge", { encodedBlock: bytes, signatures }) }),
    foldPrior: (cnt) => ({ proofType: BigInt(PROOF.FoldPriorBlock), encodedProof: enc("FoldPriorBlock", { transactionCnt: BigInt(cnt) }) })
};
/** all actions of the adversary in situation s */
function actions(s, { families, only } = {}) {
    const r = [];
    const on = (f) => !families || families.includes(f);
    const turn = (c) => wOf(VerifSM.next(c.model.state));
    const open = (c) => !c.model.disputed.has(c.model.forkCnt);
    const me = W[s.me], others = W.slice(0, s.np).filter((w) => w !== me);
    const isIn = (c, w) => c.model.fork.participants.includes(w.address);
    if (on("blocks")) {
        r.push(A("block", (c) => turn(c) && turn(c) !== c.me, (c) => c.msg(c.next(turn(c))), { max: 2 }));
        r.push(A("play", (c) => turn(c) === c.me && open(c), (c) => c.play(add(1)), { max: 2 }));
        r.push(A("confirmation", (c) => c.model.height && others.some((w) => isIn(c, w) && !c.model.fork.blocks[c.model.height - 1].signers.has(w.address)) && c.has(c.top(), c.model.height), (c) => c.confirm(c.model.height - 1, others.find((w) => isIn(c, w) && !c.model.fork.blocks[c.model.height - 1].signers.has(w.address))), { max: 2 }));
    }
    if (on("faults")) {
        r.push(A("bad block", (c) => turn(c) && turn(c) !== c.me, (c) => c.msg(c.next(turn(c), add(3), { stateHash: ethers.id("wrong") }))));
        r.push(A("block with a wrong time", (c) => turn(c) && turn(c) !== c.me && c.model.latestTs > 0, (c) => c.msg(c.next(turn(c), add(3), { ts: c.model.latestTs - 1 }))));
        r.push(A("conflicting block", (c) => c.model.height && c.model.fork.blocks.some((b) => b.author !== c.me.address && isIn(c, wOf(b.author))), (c) => {
            const m = c.model;
            const i = m.fork.blocks.findIndex((b) => b.author !== c.me.address && isIn(c, wOf(b.author)));
            return c.msg(build({ author: wOf(m.fork.blocks[i].author), fork: m.forkCnt, height: i, ts: m.fork.blocks[i].ts, data: add(2), state: i ? m.fork.blocks[i - 1].state : m.fork.genesis }));
        }));
        r.push(A("incorrect block for a taken height", (c) => c.model.height && others.some((w) => isIn(c, w) && w.address !== c.model.fork.blocks[c.model.height - 1].author), (c) => {
            const m = c.model, i = m.height - 1;
            return c.msg(build({ author: others.find((w) => isIn(c, w) && w.address !== m.fork.blocks[i].author), fork: m.forkCnt, height: i, ts: m.fork.blocks[i].ts, data: add(2), state: i ? m.fork.blocks[i - 1].state : m.fork.genesis }));
        }));
    }
    if (on("chain")) {
        r.push(A("post the next block", (c) => turn(c) && turn(c) !== c.me && open(c), (c) => {
            const b = c.next(turn(c));
            c.know(b.bytes, b.sig);
            c.submit("postBlockCalldata", [{ encodedBlock: b.bytes, signature: b.sig }], turn(c).address);
        }));
        for (const w of others) {
            const k0 = W.indexOf(w);
            const tries = (c, f, k, timedout, folded, proofs) => {
                if (!c.has(f, k)) return null;
                const h = c.history(f, k);
                const args = [CH, BigInt(f), h.fin, h.latest, h.vvb, timedout, BigInt(folded), proofs];
                return attempt(c.spec, (x) => SUBMIT.createDispute(x, args, w.address, c.now)).ok ? args : null;
            };
            // a timeout on top of a history of every length
            for (const back of [0, 1, 2]) {
                const args = (c) => {
                    const f = c.spec.latestFork(CH);
                    const len = c.model.forks[f] ? c.model.forks[f].blocks.length : -1, k = len - back;
                    if (k < 0) return null;
                    const h = c.history(f, k);
                    return tries(c, f, k, VerifSM.next(h.latest), k, []);
                };
                r.push(A(`${k0} times out the next one${back ? " after leaving out " + back : ""}`, args, (c) => c.submit("createDispute", args(c), w.address)));
            }
            // a colluder is sacrificed to open a dispute
            const other = others.find((x) => x !== w);
            if (other)
                for (const back of [0, 1]) {
                    const args = (c) => {
                        const f = c.spec.latestFork(CH);
                        if (!c.model.forks[f]) return null;
                        const k = c.model.forks[f].blocks.length - back;
                        if (k < 0 || !c.model.forks[f].participants.includes(other.address)) return null;
                        const g = c.model.forks[f].genesis;
                        const b1 = build({ author: other, fork: f, height: 0, ts: 1, data: add(8), state: g }), b2 = build({ author: other, fork: f, height: 0, ts: 1, data: add(9), state: g });
                        return tries(c, f, k, ZERO, 0, [evidence.doubleSign(b1.bytes, b2.bytes, other)]);
                    };
                    r.push(A(`${k0} accuses ${W.indexOf(other)}${back ? " leaving out a block" : ""}`, args, (c) => c.submit("createDispute", args(c), w.address)));
                }
            // challenges of the dispute there is
            const challenge = (name, proof) => {
                const args = (c) => {
                    const d = c.spec.c(CH).dispute;
                    if (!d) return null;
                    const f = Number(d.forkCnt), p = proof(c, d, f);
                    if (!p) return null;
                    for (let k = c.model.forks[f].blocks.length; k >= 0; k--) {
                        if (!c.has(f, k)) continue;
                        const h = c.history(f, k);
                        const a = [CH, BigInt(f), d.challengeCnt, [p], h.vvb, h.fin, h.latest];
                        if (attempt(c.spec, (x) => SUBMIT.challengeDispute(x, a, w.address, c.now)).ok) return a;
                    }
                    return null;
                };
                r.push(A(`${k0} challenges: ${name}`, args, (c) => c.submit("challengeDispute", args(c), w.address)));
            };
            challenge("newer state", (c, d, f) => {
                if (d.postedStateDisputer !== c.me.address) return null;
                const top = d.virtualVotingBlocks.length ? Number(dec("Block", d.virtualVotingBlocks[d.virtualVotingBlocks.length - 1].encodedBlock).transaction.header.transactionCnt) : -1;
                const x = c.released.find((y) => y.fork === f && y.height > top);
                return x ? evidence.newerState(x.bytes, sigOf(c.me, x.bytes)) : null;
            });
            challenge("undoes the timeout", (c, d, f) => {
                if (d.timedoutParticipant === ZERO) return null;
                for (const bytes of c.blocks.get(f + "/" + d.foldedTransactionCnt) || []) {
                    const sigs = [...new Set([...c.sigs.get(bytes), ...c.others.map((x) => sigOf(x, bytes))])];
                    if (Spec.threshold(d.participants, bytes, sigs)) return evidence.foldRechallenge(bytes, sigs);
                }
                return null;
            });
            // a colluder is sacrificed to get ahead of the others' challenges
            for (const other of others.filter((x) => x !== w))
                challenge("accuses " + W.indexOf(other), (c, d, f) => {
                    const g = c.model.forks[f].genesis;
                    if (d.slashedParticipants.includes(other.address)) return null;
                    const b1 = build({ author: other, fork: f, height: 0, ts: 1, data: add(8), state: g }), b2 = build({ author: other, fork: f, height: 0, ts: 1, data: add(9), state: g });
                    return evidence.doubleSign(b1.bytes, b2.bytes, other);
                });
            if (on("prior")) for (const h of [0]) challenge("prior block " + h, () => evidence.foldPrior(h));
        }
    }
    if (on("time"))
        r.push(A("time passes", (c) => c.n.nextTimer() !== null || true, async (c) => {
            const t = c.n.nextTimer();
            const to = t === null ? c.n.now + 20000 : Math.max(t, c.n.now + 1000);
            c.n.now = to;
            await c.feed({ t: "time" });
        }, { max: 3, quiet: true }));
    if (on("time"))
        r.push(A("a long time passes", (c) => c.n.timers.length, async (c) => {
            const end = Math.max(...c.n.timers.map((t) => t.at));
            for (let t; (t = c.n.nextTimer()) !== null && t <= end; ) {
                c.n.now = Math.max(t, c.n.now);
                await c.feed({ t: "time" });
                await rest(c);
            }
        }, { max: 2, quiet: true }));
    return only ? r.filter((a) => only.test(a.name)) : r;
}
module.exports = { Court, runOne, rest, explore, enabled, actions, evidence, sigOf, SUBMIT };

// --- what must hold
/** signatures against histories (C14): looks at the whole run */
function signatures(ctx) {
    const bad = ctx.signedLate.map(() => "signed a block of a fork that it knew to be disputed");
    for (const s of ctx.submitted) {
        if (s.fork === undefined) continue;
        for (const r of ctx.released) {
            if (r.fork !== s.fork) continue;
            if (r.height > s.top) bad.push(`signed ${r.step > s.step ? "later " : ""}beyond the history it submitted`);
            else if (!s.vvb.some((b) => b.encodedBlock === r.bytes) && s.vvb.length && Number(dec("Block", s.vvb[0].encodedBlock).transaction.header.transactionCnt) <= r.height) bad.push("signed a block that its submitted history contradicts");
        }
    }
    return bad;
}
/** every submission is one that the contracts accept, given what the node could know (C16) */
function submissions(ctx) {
    const bad = [];
    for (const s of ctx.submitted) {
        // (sending the same once more after a failure doesn't count)
        if (!s.informed || s.ok || s.busyCourt || ctx.submitted.some((x) => x.id < s.id && x.name === s.name && x.fork === s.fork && x.top === s.top)) continue;
        bad.push(`a ${s.name} that the contracts refuse: ${s.why}`);
    }
    for (const r of ctx.submitted) if (r.name === "createDispute" && r.args[5] === ctx.me.address) bad.push("times out itself");
    return bad;
}
/** where it ended: call after rest() */
function verdict(ctx) {
    const bad = [...ctx.bad];
    const c = ctx.spec.c(CH), d = c.dispute;
    const last = ctx.spec.latestFork(CH);
    if (!ctx.spec.participants(CH, last).includes(ctx.me.address) && !bad.length) {
        // removed: it must have missed its turn
        const f = Number(d.forkCnt), k = Number(d.foldedTransactionCnt), fork = ctx.model.forks[f];
        const before = k ? fork.blocks[k - 1]?.state : fork.genesis, mine = fork.blocks[k];
        if (d.timedoutParticipant === ctx.me.address && (!before || VerifSM.next(before) !== ctx.me.address)) bad.push("timed out although it wasn't its turn");
        else if (mine && mine.ts <= Math.max(fork.ts, k ? fork.blocks[k - 1].ts : 0) + T.p2pTime) bad.push("removed although it made its block in time");
        if (d.timedoutParticipant !== ctx.me.address) bad.push("removed without being timed out");
    }
    // somebody let its turn pass
    const f = ctx.model.fork, who = VerifSM.next(ctx.model.state);
    if (!d || Number(d.forkCnt) < last)
        if (f.participants.includes(ctx.me.address) && who !== ZERO && who !== ctx.me.address && !ctx.n.timers.length && !ctx.spec.disputeInProgress(CH, ctx.now) && !ctx.spec.postedBy(CH, last, ctx.model.height, who)) {
            const since = Math.max(ctx.model.latestTs, Number(ctx.spec.latestPostedTime(CH, last, ctx.model.height)));
            if (ctx.now > since + T.p2pTime + T.agreementTime + T.chainFallbackTime) bad.push("somebody let its turn pass and isn't timed out");
        }
    for (const a of ctx.accused) {
        if (d && Number(d.forkCnt) === a.fork && !d.slashedParticipants.includes(a.who) && !d.participants.every((p) => p === a.who)) bad.push("a dispute of the fork leaves the offender unpunished");
        if (!d && ctx.spec.latestFork(CH) === a.fork) bad.push("no dispute although there is evidence");
        if (d && Number(d.forkCnt) < a.fork && !ctx.spec.disputeInProgress(CH, ctx.now)) bad.push("no dispute although there is evidence and the last one is over");
    }
    return bad;
}
/** the node knows where the chain is */
function follows(ctx) {
    const f = ctx.spec.latestFork(CH), bad = [];
    if (ctx.n.ag.getLatestForkCnt() !== f) bad.push("the node isn't in the latest fork");
    else if (ctx.n.ag.getForkGenesisStateEncoded(f) !== ctx.spec.forkState(CH, f)) bad.push("another genesis state");
    return bad;
}
Object.assign(module.exports, { signatures, submissions, verdict, follows });
