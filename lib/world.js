"use strict";
// The on-chain world of the explorations: the real contracts deployed on an in-process chain, next
// to the reference model, driven by the same operations and compared after every one of them.
const { compile } = require("./solc");
const { Chain, ethers } = require("./chain");
const Ty = require("./types");
const { Spec, VerifSM, attempt, ZERO } = require("./spec");
const { enc, H, sign, wallet, block, plain } = Ty;

const D = "contracts/V1/StateChannelDiamondProxy/";
const TARGETS = [
    "verif/VerifManager.sol:VerifManager",
    "verif/VerifStateMachine.sol:VerifStateMachine",
    D + "DisputeManagerFacet.sol:DisputeManagerFacet",
    D + "StateChannelUtilLibrary.sol:StateChannelUtilLibrary"
];
const W = [0, 1, 2, 3, 4].map(wallet); // A B C (participants) X (outsider) J (joiner)
const [A, B, C, X, J] = W;
const GENESIS_TIME = 1_000_000_000;

class World {
    static prepare() {
        return compile(TARGETS);
    }
    static async create(art) {
        const w = new World();
        w.chain = await Chain.create({
            keys: W.map((x) => x.privateKey),
            initialTime: GENESIS_TIME - 100
        });
        const lib = await w.chain.deploy(art.StateChannelUtilLibrary);
        const L = { StateChannelUtilLibrary: lib.address };
        w.sm = await w.chain.deploy(art.VerifStateMachine);
        w.facet = await w.chain.deploy(art.DisputeManagerFacet, [], L);
        w.m = await w.chain.deploy(
            art.VerifManager,
            [w.sm.address, w.facet.address],
            L
        );
        // errors of the facet bubble through the proxy
        w.smi = w.sm.iface;
        VerifSM.parse = (data) => {
            let d;
            try {
                d = w.smi.parseTransaction({ data });
            } catch {
                return null;
            }
            if (!d) return null;
            if (["add", "pay"].includes(d.name))
                return { fn: d.name, args: [...d.args] };
            if (d.fragment.stateMutability === "view")
                return { fn: "view", args: [] };
            return { fn: d.name, args: [...d.args] };
        };
        w.spec = new Spec();
        w.time = GENESIS_TIME;
        w.who = W.map((x) => x.address);
        return w;
    }
    add(n) {
        return this.smi.encodeFunctionData("add", [n]);
    }
    pay(to, amount) {
        return this.smi.encodeFunctionData("pay", [to, amount]);
    }
    async snap() {
        return { id: await this.chain.snapshot(), spec: this.spec, time: this.time, tag: this.tag };
    }
    async back(s) {
        await this.chain.revert(s.id);
        this.spec = s.spec;
        this.time = s.time;
        this.tag = s.tag;
    }
    async open(id, participants, balances, now) {
        this.time = now;
        const r = await this.chain.send(this.m, W[0].address, "open", [id, participants, balances], now);
        if (!r.ok) throw new Error("open: " + r.err);
        this.spec = this.spec.clone();
        this.spec.open(id, participants, balances.map(BigInt), now);
    }
    /** one operation on both sides. op: {op, from, at, ...}. Returns {impl, model} */
    async step(op) {
        const now = op.at;
        this.time = now;
        let fn, args, model;
        if (op.op === "create") {
            fn = "createDispute";
            args = [op.id, op.fork, op.fin, op.latest, op.vvb, op.timedout, op.folded, op.proofs];
            model = (s) => s.createDispute(op, op.from, now);
        } else if (op.op === "challenge") {
            fn = "challengeDispute";
            args = [op.id, op.fork, op.challengeCnt, op.proofs, op.vvb, op.fin, op.latest];
            model = (s) => s.challengeDispute(op, op.from, now);
        } else if (op.op === "post") {
            fn = "postBlockCalldata";
            args = [op.sb];
            model = (s) => s.post(null, op.from, op.sb, now);
        } else if (op.op === "join") {
            fn = "joinChannelWithAgreement";
            args = [op.cja, op.state];
            model = (s) => s.joinWithAgreement(op.cja, op.state, op.from, now);
        } else if (op.op === "leave") {
            fn = "leaveChannelWithAgreement";
            args = [op.la, op.state];
            model = (s) => s.leaveWithAgreement(op.la, op.state, op.from, now);
        } else if (op.op === "raw") {
            // calls that must never change a channel
            fn = op.fn;
            args = op.args;
            model = (s) => {
                if (op.reject) throw new (require("./spec").Reject)("raw");
            };
        } else throw new Error("op " + op.op);
        let m = attempt(this.spec, model);
        const i = await this.chain.send(op.to ? this[op.to] : this.m, op.from, fn, args, now, { logs: op.logs });
        if (op.free) m = { ok: i.ok, why: "free", spec: this.spec }; // either verdict is fine
        if (m.ok) this.spec = m.spec;
        if (op.op === "raw" && i.ok) this.tag = op.tag; // what the shared state machine was left with
        return { impl: i, model: m };
    }
    async observe(id) {
        const r = await this.chain.call(this.m, "observe", [id, this.who]);
        return norm(plain(r.ret[0]));
    }
    expect(id) {
        const c = this.spec.c(id);
        const f = c.forks.length - 1;
        const n = Math.max(f, 0) + 2;
        return norm({
            dispute: c.dispute || EMPTY_DISPUTE,
            open: c.forks.length > 0,
            forkCnt: BigInt(Math.max(0, f)),
            latest: f >= 0 ? c.forks[f].state : "0x",
            states: [...Array(n).keys()].map((i) => (c.forks[i] ? c.forks[i].state : "0x")),
            timestamps: [...Array(n).keys()].map((i) => (c.forks[i] ? c.forks[i].ts : 0n)),
            deposited: c.deposited,
            withdrawn: c.withdrawn,
            exits: this.who.map((a) => BigInt(c.exitsOf[a] || 0)),
            joins: this.who.map((a) => BigInt(c.joinsOf[a] || 0))
        });
    }
    /** null, or the first field where the contract's view and the model differ */
    async differs(id) {
        const a = await this.observe(id);
        const b = this.expect(id);
        for (const k in b)
            if (k === "dispute") {
                for (const f in b.dispute)
                    if (JSON.stringify(a.dispute[f]) !== JSON.stringify(b.dispute[f]))
                        return { field: "dispute." + f, impl: a.dispute[f], model: b.dispute[f] };
            } else if (JSON.stringify(a[k]) !== JSON.stringify(b[k]))
                return { field: k, impl: a[k], model: b[k] };
        return null;
    }
}
const EMPTY_DISPUTE = {
    channelId: ethers.ZeroHash,
    forkCnt: 0n,
    challengeCnt: 0n,
    encodedLatestFinalizedState: "0x",
    encodedLatestCorrectState: "0x",
    virtualVotingBlocks: [],
    timedoutParticipant: ZERO,
    foldedTransactionCnt: 0n,
    timeoutDisputer: ZERO,
    postedStateDisputer: ZERO,
    joinChannelParticipants: [],
    leaveChannelParticipants: [],
    slashedParticipants: [],
    participants: [],
    processExits: [],
    creationTimestamp: 0n,
    deadlineTimestamp: 0n
};
function norm(v) {
    if (typeof v === "bigint") return v.toString();
    if (typeof v === "number") return String(v);
    if (Array.isArray(v)) return v.map(norm);
    if (v && typeof v === "object") {
        const o = {};
        for (const k of Object.keys(v).sort()) o[k] = norm(v[k]);
        return o;
    }
    return v;
}

/**
 * A correct run of a channel: block k is written by the participant whose turn it is.
 * moves: list of call data; returns {states:[genesis, after 0, ...], blocks:[...], authors}
 */
function honestRun({ id, fork, participants, genesis, moves, ts0, dt = 1 }) {
    const states = [genesis];
    const blocks = [];
    const authors = [];
    moves.forEach((data, k) => {
        const e = states[k];
        const who = VerifSM.next(e);
        const tx = {
            header: { participant: who },
            body: { data }
        };
        const r = VerifSM.transition(e, tx);
        if (!r.ok) throw new Error("honest run: move fails");
        const w = W.find((x) => x.address === who);
        const b = block({
            channelId: id,
            participant: who,
            fork,
            cnt: k,
            ts: ts0 + dt * (k + 1),
            data,
            stateHash: H(r.state),
            prev: H(e)
        });
        states.push(r.state);
        blocks.push(b);
        authors.push(w);
    });
    return { states, blocks, authors };
}
const conf = (b, ws) => ({ encodedBlock: b, signatures: ws.map((w) => (typeof w === "string" ? w : sign(w, b))) });
const sb = (b, w) => ({ encodedBlock: b, signature: typeof w === "string" ? w : sign(w, b) });

module.exports = { World, W, A, B, C, X, J, honestRun, conf, sb, GENESIS_TIME, TARGETS, norm, ...Ty, VerifSM, ZERO, Spec, attempt };
