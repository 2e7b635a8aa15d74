"use strict";
// A node as an application gets it: EvmStateMachine.p2pSetup with real ethers contracts, a real wallet and the
// real EVM. Only the chain behind the ethers provider is simulated: it answers reads, records transactions
// and delivers logs to whoever subscribed to them.
const { Node, signBytes, T0, defaultAnswer, T } = require("./node");
const { ethers, drain } = require("./ts");

const MGR = "0x" + "c0".repeat(20);
const SMADDR = "0x" + "5a".repeat(20);
const hex = (n) => ethers.toQuantity(n);

class Provider extends ethers.AbstractProvider {
    constructor(node) {
        super(ethers.Network.from(31337), { cacheTimeout: -1 });
        this.node = node;
        this.active = new Set();
        this.nonce = 0;
        this.txs = new Map();
    }
    async _detectNetwork() {
        return ethers.Network.from(31337);
    }
    _getSubscriber(sub) {
        const p = this, s = { sub };
        return { start: () => p.active.add(s), stop: () => p.active.delete(s), pause: () => p.active.delete(s), resume: () => p.active.add(s) };
    }
    async _perform(req) {
        const n = this.node;
        switch (req.method) {
            case "chainId":
                return 31337n;
            case "getBlockNumber":
                return 1;
            case "getBlock":
                return { hash: ethers.id("block"), parentHash: ethers.id("parent"), number: hex(1), timestamp: hex(n.chainTime()), nonce: "0x0000000000000000", difficulty: "0x0", gasLimit: hex(30000000), gasUsed: "0x0", miner: ethers.ZeroAddress, extraData: "0x", baseFeePerGas: hex(1), transactions: [] };
            case "call": {
                const { to, data } = req.transaction;
                if (to.toLowerCase() !== MGR) throw new Error("HARNESS: a call of " + to);
                const d = n.o.iface.parseTransaction({ data });
                const r = n.chainRead(d.name, [...d.args]);
                return n.o.iface.encodeFunctionResult(d.fragment, r);
            }
            case "getTransactionReceipt": {
                const tx = this.txs.get(req.hash);
                return tx && { transactionHash: tx.hash, blockHash: ethers.id("block"), blockNumber: hex(1), transactionIndex: hex(0), from: tx.from, to: tx.to, contractAddress: null, gasUsed: hex(1), cumulativeGasUsed: hex(1), effectiveGasPrice: hex(1), logs: [], logsBloom: "0x", status: hex(1), type: hex(2) };
            }
        }
        throw new Error("HARNESS: the provider is asked for " + req.method);
    }
    take(tx) {
        const n = this.node, d = n.o.iface.parseTransaction({ data: tx.data });
        this.txs.set(tx.hash, tx);
        n.out.calls.push({ kind: "write", name: d.name, args: [...d.args], to: tx.to, from: tx.from, at: n.now });
        return { ...tx, type: 2, nonce: this.nonce, gasLimit: 1n, value: 0n, chainId: 31337n };
    }
    /** the chain contains a new log: subscribers get it */
    async deliver(log) {
        const l = { address: log.address, topics: log.topics, data: log.data, blockNumber: 1, blockHash: ethers.id("block"), transactionHash: ethers.id("tx"), transactionIndex: 0, index: 0, removed: false };
        const wrapped = new ethers.Log(l, this);
        for (const s of [...this.active]) {
            if (s.sub.type !== "event") continue;
            const f = s.sub.filter;
            const addr = f.address && [].concat(f.address).map((a) => a.toLowerCase());
            if (addr && !addr.includes(log.address.toLowerCase())) continue;
            if (!(f.topics || []).every((t, i) => t == null || [].concat(t).includes(log.topics[i]))) continue;
            await this.emit(f, wrapped);
        }
    }
}

/** a wallet that hands its transactions to the simulated chain (signing and recovering them is ethers' business) */
class Signer extends ethers.AbstractSigner {
    constructor(node, wallet) {
        super(node.provider);
        this.node = node;
        this.wallet = wallet;
    }
    async getAddress() {
        return this.wallet.address;
    }
    connect() {
        return this;
    }
    async signMessage(m) {
        return signBytes(this.wallet, typeof m === "string" ? ethers.toUtf8Bytes(m) : m);
    }
    async sendTransaction(tx) {
        const p = this.node.provider;
        return p.take({ hash: ethers.id("transaction " + ++p.nonce), from: this.wallet.address, to: await ethers.resolveAddress(tx.to, p), data: tx.data });
    }
}

class FullNode extends Node {
    // o.sm: {abi, bytecode} of the state machine; o.times; o.lag: the chain's clock minus the node's
    chainTime() {
        return Math.floor(this.now / 1000) + (this.o.lag || 0);
    }
    chainRead(name, args) {
        if (name === "getAllTimes") return [this.times.p2pTime, this.times.agreementTime, this.times.chainFallbackTime, this.times.challengeTime];
        const r = (this.o.answer || defaultAnswer)(name, args, "read", this);
        if (r instanceof Error) throw r;
        return Array.isArray(r) ? r : [r];
    }
    newHooks(id) {
        const hooks = {};
        for (const h of ["onConnection", "onTurn", "onSetState", "onPostingCalldata", "onPostedCalldata", "onInitiatingDispute", "onDisputeUpdate"])
            hooks[h] = (x) => this.out.events.push({ hooks: id, hook: h, arg: x });
        return hooks;
    }
    async build(S) {
        this.provider = new Provider(this);
        this.signer = new Signer(this, this.o.wallet);
        const mgr = new ethers.Contract(MGR, this.o.iface, this.signer);
        const sm = new ethers.Contract(SMADDR, this.o.sm.abi, this.signer);
        this.inst = await S.evm.EvmStateMachine.p2pSetup(this.signer, { data: this.o.sm.bytecode }, mgr, sm, this.newHooks(0));
        this.p2p = this.inst.p2pSigner.p2pManager;
        this.mgr = this.p2p.stateManager;
        this.ag = this.mgr.agreementManager;
        this.app = this.inst.p2pContractInstance;
    }
    async feed(ev, out) {
        if (ev.t === "log") {
            const e = this.o.iface.encodeEventLog(ev.name, Object.values(ev.args));
            await this.provider.deliver({ address: ev.address || MGR, topics: e.topics, data: e.data });
        } else await super.feed(ev, out);
        await drain();
    }
}
module.exports = { FullNode, Provider, MGR, SMADDR, T0, T };
