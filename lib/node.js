"use strict";
// One node of the SDK under full control: every input (message, chain event, timer, answer of the
// chain, completion of an asynchronous operation, user action) is an explicit event, so a node is
// a deterministic function of the sequence of its events.
const { load, drain, ethers } = require("./ts");
const { memo, valueKey } = require("./memo");
const Ty = require("./types");
const { VerifSM, ZERO } = require("./spec");
const { enc, dec, H, sign, wallet, block } = Ty;

const smi = new ethers.Interface(["function add(uint256 n)", "function pay(uint256 to,uint256 amount)", "function fail()", "function nudge(uint256 n)", "function getNumber() view returns (uint256)"]);
VerifSM.parse = memo((data) => {
    let d;
    try {
        d = smi.parseTransaction({ data });
    } catch {
        return null;
    }
    return d ? { fn: d.fragment.stateMutability === "view" ? "view" : d.name, args: [...d.args] } : null;
}, (data) => data);
const add = memo((n) => smi.encodeFunctionData("add", [n]), String);
const pay = (to, n) => smi.encodeFunctionData("pay", [to, n]);
const nudge = (n) => smi.encodeFunctionData("nudge", [n]); // the state machine accepts it from anybody
const BAD = smi.encodeFunctionData("fail", []);

// --- unhandled rejections are part of what is observed ---
let current = null;
process.on("unhandledRejection", (e) => {
    if (current) current.out.errors.push("unhandled rejection: " + (e && e.message ? e.message : e));
    else {
        console.error("unhandled rejection outside of any node:", e);
        process.exit(3);
    }
});

const T = { p2pTime: 5, agreementTime: 6, chainFallbackTime: 7, challengeTime: 8 };
const CH = ethers.id("verif channel");
const T0 = 1_000_000_000;

const keyed = (iface, fr, a) => {
    const k = valueKey(a);
    return k === null ? null : fr.name + k;
};
/** what the contract gets, and what it answers, through the ABI */
const callArgs = memo((iface, fr, args) => [...iface.decodeFunctionData(fr, iface.encodeFunctionData(fr, args))].map(Ty.plain), keyed);
const callResult = memo((iface, fr, r) => iface.decodeFunctionResult(fr, iface.encodeFunctionResult(fr, r)), keyed);

/** the channel manager contract as the SDK sees it (an ethers contract) */
class ContractStub {
    constructor(node, iface) {
        this.node = node;
        this.listeners = [];
        const f = (name) => (channelId) => ({ name, channelId });
        this.filters = { SetState: f("SetState"), BlockCalldataPosted: f("BlockCalldataPosted"), DisputeUpdated: f("DisputeUpdated") };
        for (const fr of iface.fragments)
            if (fr.type === "function" && !(fr.name in this)) {
                const view = fr.stateMutability === "view" || fr.stateMutability === "pure";
                this[fr.name] = async (...args) => {
                    if (args.length === fr.inputs.length + 1) args.pop(); // overrides
                    const a = callArgs(iface, fr, args);
                    const r = await node.op(view ? "read" : "write", fr.name, a);
                    if (view) {
                        if (!fr.outputs.length) return;
                        let v;
                        try {
                            v = callResult(iface, fr, fr.outputs.length === 1 ? [r] : r);
                        } catch (e) {
                            node.out.errors.push(`harness: the answer for ${fr.name} isn't one: ${e.message}`);
                            throw e;
                        }
                        return fr.outputs.length === 1 ? v[0] : v;
                    }
                    return { hash: "0x" + "11".repeat(32), wait: async () => ({ status: 1 }) };
                };
            }
    }
    connect() {
        return this;
    }
    async on(filter, cb) {
        this.listeners.push({ filter, cb });
        return this;
    }
    async off(filter) {
        this.listeners = this.listeners.filter((l) => l.filter !== filter);
        return this;
    }
}

/** the state machine as the SDK sees it */
function machine(node, Base) {
    const M = Base || class {};
    class JsMachine extends M {
        constructor() {
            super();
            this.state = VerifSM.encode({ number: 0n, participants: [], balances: [] });
        }
        async stateTransition(tx) {
            await node.op("sm", "stateTransition");
            const r = VerifSM.transition(this.state, { header: tx.header, body: tx.body });
            if (r.ok) this.state = r.state;
            return { success: r.ok, successCallback: () => r.ok && node.out.events.push("executed " + tx.body.data) };
        }
        async runView() {
            return "0x";
        }
        async getParticipants() {
            await node.op("sm", "getParticipants");
            return VerifSM.participants(this.state);
        }
        async getNextToWrite() {
            await node.op("sm", "getNextToWrite");
            return VerifSM.next(this.state);
        }
        async setState(s) {
            await node.op("sm", "setState");
            VerifSM.decode(s);
            this.state = s;
            return true;
        }
        async getState() {
            await node.op("sm", "getState");
            return this.state;
        }
    }
    return new JsMachine();
}

class Node {
    /**
     * o.file: bundle; o.wallet; o.peers: names of connected peers; o.hold: kinds (or names) of asynchronous operations
     * (sm, sign, read, write) that complete only when told to; o.answer(name,args,kind): immediate answer of the chain
     * (when read/write are not held); o.iface: interface of the channel manager; o.handshake: keep handshake traffic
     */
    constructor(o) {
        this.o = o;
        this.now = o.now ?? T0 * 1000;
        this.times = o.times || T;
        this.timers = [];
        this.seq = 0;
        this.pending = new Map();
        this.ops = 0;
        this.hold = new Set(o.hold || []);
        this.out = this.fresh();
        this.rnd = 0;
    }
    fresh() {
        return { sent: [], signed: [], calls: [], errors: [], events: [], held: [], closed: [], logs: [] };
    }
    op(kind, name, args) {
        const id = ++this.ops;
        const out = this.out;
        if (kind === "write" || (kind === "read" && this.o.logReads)) out.calls.push({ id, kind, name, args });
        if (this.hold.has(kind) || this.hold.has(name)) {
            out.held.push({ id, kind, name, args });
            return new Promise((resolve, reject) => this.pending.set(id, { kind, name, args, resolve, reject }));
        }
        if (kind === "read" || kind === "write") {
            const a = (this.o.answer || defaultAnswer)(name, args, kind, this);
            if (a instanceof Error) throw a;
            return a;
        }
    }
    async start() {
        const S = (this.S = load(this.o.file, this.env()));
        await this.build(S);
        this.wire(S);
        current = this;
        await drain();
        if (!this.o.handshake) this.out = this.fresh();
        current = null;
        return this;
    }
    /** what surrounds the SDK */
    env() {
        const node = this;
        const env = {
            setTimeout: (f, ms = 0, ...a) => {
                ms = Number(ms) > 2 ** 31 - 1 ? 1 : ms; // as in node.js
                const t = { id: ++this.seq, at: this.now + Math.max(0, Math.floor(Number(ms) || 0)), f: () => f(...a), zero: !(ms > 0) };
                this.timers.push(t);
                return t;
            },
            clearTimeout: (t) => (this.timers = this.timers.filter((x) => x !== t)),
            setInterval: (f, ms) => {
                throw new Error("setInterval is not modelled");
            },
            clearInterval: () => {},
            setImmediate: (f, ...a) => env.setTimeout(f, 0, ...a),
            Date: class extends Date {
                constructor(...a) {
                    if (a.length) super(...a);
                    else super(node.now);
                }
                static now() {
                    return node.now;
                }
            },
            console: new Proxy({}, { get: (_, k) => (...a) => k === "error" && this.out.logs.push(a.map((x) => (x && x.message) || String(x)).join(" ")) }),
            random: (n) => ethers.getBytes(ethers.id(`random ${this.o.wallet.address} ${++this.rnd}`)).slice(0, n)
        };
        return env;
    }
    async build(S) {
        const me = this.o.wallet;
        const provider = { getBlock: async () => ({ timestamp: Math.floor(this.now / 1000), number: 1 }) };
        this.signer = {
            provider,
            getAddress: async () => me.address,
            signMessage: async (m) => {
                const bytes = typeof m === "string" ? ethers.toUtf8Bytes(m) : m;
                this.out.signed.push(ethers.hexlify(bytes));
                await this.op("sign", "signMessage");
                return signBytes(me, bytes);
            }
        };
        await S.Clock.init(provider);
        this.contract = new ContractStub(this, this.o.iface);
        this.sm = machine(this, S.AStateMachine);
        this.hooks = {};
        for (const h of ["onConnection", "onTurn", "onSetState", "onPostingCalldata", "onPostedCalldata", "onInitiatingDispute", "onDisputeUpdate"])
            this.hooks[h] = (x) => this.out.events.push(h + (typeof x === "string" ? " " + x : ""));
        this.mgr = new S.StateManager(this.signer, me.address, this.contract, this.sm, this.times, this.hooks);
        this.p2p = this.mgr.p2pManager;
        this.ag = this.mgr.agreementManager;
        if (this.o.channel !== null) this.p2p.p2pSigner.setChannelId(this.o.channel || CH);
    }
    wire(S) {
        const node = this;
        const Transport = class extends S.transport.ATransport {
            constructor(name, type) {
                super();
                this.name = name;
                this.transportType = type;
            }
            send(s) {
                node.out.sent.push({ to: this.name, data: s });
            }
            onMessage(data) {
                node.p2p.localRpcService.senderTransport = this;
                node.p2p.onRpc(data);
            }
            _close() {
                node.out.closed.push(this.name);
            }
        };
        this.Transport = Transport;
        this.transports = {};
        for (const p of this.o.peers || []) this.connect(p);
    }
    connect(name, type) {
        const t = (this.transports[name] = new this.Transport(name, type ?? this.S.transport.TransportType.HOLEPUNCH));
        this.p2p.addConnection(t);
        return t;
    }
    due() {
        return this.timers.filter((t) => t.at <= this.now).sort((a, b) => a.at - b.at || a.id - b.id);
    }
    nextTimer() {
        return this.timers.length ? this.timers.reduce((m, t) => Math.min(m, t.at), Infinity) : null;
    }
    /** feeds one event, runs until nothing but timers and held operations is left, returns what came out */
    async step(ev) {
        const out = (this.out = this.fresh());
        current = this;
        if (ev.at !== undefined) this.now = Math.max(this.now, ev.at);
        try {
            await this.feed(ev, out);
        } catch (e) {
            out.errors.push("thrown: " + (e && e.message ? e.message : e));
        }
        await drain();
        if (!this.o.holdTimers) {
            // zero-delay tasks run before the next event
            for (let n = 0; ; n++) {
                const t = this.timers.filter((t) => t.at <= this.now && (t.zero || !this.o.holdDue)).sort((a, b) => a.at - b.at || a.id - b.id)[0];
                if (!t) break;
                if (n > 500) {
                    out.errors.push("timers never settle");
                    break;
                }
                await this.fire(t);
            }
        }
        await drain();
        current = null;
        return out;
    }
    async fire(t) {
        this.timers = this.timers.filter((x) => x !== t);
        try {
            t.f();
        } catch (e) {
            this.out.errors.push("thrown in a timer: " + e.message);
        }
        await drain();
    }
    async feed(ev, out) {
        switch (ev.t) {
            case "msg": {
                const t = this.transports[ev.from];
                t.onMessage(ev.data);
                return;
            }
            case "chain":
                for (const l of [...this.contract.listeners])
                    if (l.filter.name === ev.name && l.filter.channelId === ev.args.channelId) Promise.resolve(l.cb({ args: chainArgs(this.o.iface, ev.name, ev.args) })).catch((e) => out.errors.push("unhandled rejection in " + ev.name + " listener: " + e.message));
                return;
            case "tick": {
                const t = this.due()[0];
                if (t) await this.fire(t);
                return;
            }
            case "time":
                return;
            case "play":
                this.p2p.p2pSigner.sendTransaction({ data: ev.data }).then(
                    () => this.out.events.push("played " + (ev.id ?? ev.data)),
                    (e) => this.out.events.push("refused " + (ev.id ?? ev.data) + ": " + e.message)
                );
                return;
            case "ans": {
                const p = this.pending.get(ev.id);
                if (!p) throw new Error("HARNESS: nothing pending with id " + ev.id);
                this.pending.delete(ev.id);
                if (ev.error) p.reject(new Error(ev.error));
                else p.resolve(ev.value);
                return;
            }
            case "connect":
                this.connect(ev.name, ev.type);
                return;
            case "disconnect":
                this.p2p.removeConnection(this.transports[ev.name]);
                return;
            case "do":
                await ev.f(this);
                return;
            default:
                throw new Error("HARNESS: unknown event " + ev.t);
        }
    }
    // --- what can be seen from outside ---
    /** the chain of blocks the node has adopted: [fork][height] = {block, sigs, state} */
    chainOf(fork) {
        const r = [];
        for (let h = 0; ; h++) {
            const b = this.ag.getBlock(fork, h);
            if (!b) return r;
            r.push({ bytes: enc("Block", b), sigs: this.ag.getSigantures(b).map(String), state: this.ag.getEncodedState(fork, h) });
        }
    }
}
const sigMemo = new Map();
function signBytes(w, bytes) {
    const k = w.address + ethers.hexlify(bytes);
    let s = sigMemo.get(k);
    if (!s) sigMemo.set(k, (s = w.signMessageSync(bytes)));
    return s;
}
const chainArgs = memo(
    (iface, name, a) => {
        const e = iface.encodeEventLog(name, Object.values(a));
        return iface.decodeEventLog(name, e.data, e.topics);
    },
    (iface, name, a) => {
        const k = valueKey(a);
        return k === null ? null : name + k;
    }
);
const NO_CALLDATA = { signedBlock: { encodedBlock: "0x", signature: "0x" }, timestamp: 0n };
function defaultAnswer(name, args, kind) {
    if (kind === "write") return undefined;
    if (name === "getChainLatestBlockTimestamp") return 0n;
    if (name === "getBlockCallData") return [false, NO_CALLDATA];
    return new Error("no answer for " + name);
}
/** the message of an RPC */
const rpc = (method, ...params) => JSON.stringify({ method, params });
const key = (s) => ethers.id(s).slice(2, 18);

/** runs a closed list of events on a fresh node */
async function run(opts, events) {
    const n = await new Node(opts).start();
    const outs = [];
    for (const e of events) outs.push(await n.step(e));
    return { n, outs };
}
module.exports = { Node, run, rpc, add, pay, nudge, BAD, smi, T, T0, CH, NO_CALLDATA, signBytes, chainArgs, defaultAnswer, key, VerifSM, ZERO };
