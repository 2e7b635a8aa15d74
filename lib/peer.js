"use strict";
// Reference model of what one node must do with blocks, confirmations and forks.
const Ty = require("./types");
const { VerifSM } = require("./spec");
const { dec, enc, H } = Ty;
const { ethers } = require("./ts");

/** address that made the signature over keccak(bytes) (personal message), or null */
const memo = new Map();
function signer(bytes, sig) {
    const k = bytes + "|" + sig;
    if (memo.has(k)) return memo.get(k);
    let r = null;
    try {
        // only the form that the chain accepts too
        if (ethers.Signature.from(sig).serialized === sig.toLowerCase()) r = ethers.verifyMessage(ethers.getBytes(H(bytes)), sig);
    } catch {}
    memo.set(k, r);
    return r;
}
const tryDec = (bytes) => {
    try {
        return dec("Block", bytes);
    } catch {
        return null;
    }
};
class Peer {
    /** disputes: does it follow up provable misbehaviour itself? */
    constructor({ me, channel, times, chainTs = () => 0, disputes = false }) {
        Object.assign(this, { me, channel, times, chainTs, disputes });
        this.forks = [];
        this.disputed = new Set();
        this.queue = []; // {bytes, sig, conf?} waiting for an earlier block or fork
    }
    get fork() {
        return this.forks[this.forks.length - 1];
    }
    get forkCnt() {
        return this.forks.length - 1;
    }
    get height() {
        return this.fork.blocks.length;
    }
    get state() {
        return this.height ? this.fork.blocks[this.height - 1].state : this.fork.genesis;
    }
    get latestTs() {
        const f = this.fork;
        return Math.max(f.ts, this.height ? f.blocks[this.height - 1].ts : 0);
    }
    newFork(genesis, forkCnt, ts) {
        if (forkCnt !== this.forks.length) return false;
        this.forks.push({ genesis, participants: VerifSM.participants(genesis), ts, blocks: [], posted: [] });
        this.drain();
        return true;
    }
    timely(b) {
        const h = b.transaction.header;
        const ref = Math.max(this.latestTs, ...this.fork.posted.filter((p) => p.height <= Number(h.transactionCnt)).map((p) => p.ts), this.chainTs(Number(h.forkCnt), Number(h.transactionCnt)));
        return h.timestamp >= BigInt(this.latestTs) && h.timestamp <= BigInt(ref + this.times.p2pTime);
    }
    /** does it claim a transition of this state that doesn't hold? */
    incorrect(b, state) {
        if (b.previousStateHash !== H(state)) return false;
        const r = VerifSM.transition(state, b.transaction);
        return !r.ok || H(r.state) !== b.stateHash;
    }
    /** is this the valid next block? */
    validNext(b) {
        const h = b.transaction.header;
        const s = this.state;
        if (h.participant !== VerifSM.next(s) || !this.fork.participants.includes(h.participant)) return null;
        if (!this.timely(b)) return null;
        if (b.previousStateHash !== H(s)) return null;
        const r = VerifSM.transition(s, b.transaction);
        if (!r.ok || H(r.state) !== b.stateHash) return null;
        return r.state;
    }
    /** returns adopted | queued | duplicate | conflict | invalid | ignored */
    block(bytes, sig) {
        if (typeof bytes === "string") bytes = bytes.toLowerCase();
        const b = tryDec(bytes);
        if (!b || enc("Block", b) !== bytes) return "ignored";
        const h = b.transaction.header;
        if (h.channelId !== this.channel) return "ignored";
        if (signer(bytes, sig) !== h.participant) return "ignored";
        if (h.forkCnt < BigInt(this.forkCnt) || this.disputed.has(Number(h.forkCnt))) return "ignored";
        const canon = enc("Block", b);
        if (h.forkCnt > BigInt(this.forkCnt) || h.transactionCnt > BigInt(this.height)) {
            if (!this.queue.some((q) => !q.conf && q.bytes === bytes)) this.queue.push({ fork: h.forkCnt, cnt: h.transactionCnt, bytes, sig });
            return "queued";
        }
        const at = this.fork.blocks[Number(h.transactionCnt)];
        if (at) {
            if (at.bytes === canon) return "duplicate";
            if (!this.fork.participants.includes(h.participant)) return "ignored";
            const prior = Number(h.transactionCnt) ? this.fork.blocks[Number(h.transactionCnt) - 1].state : this.fork.genesis;
            if (this.disputes && (at.author === h.participant || this.incorrect(b, prior))) this.disputed.add(this.forkCnt);
            return "conflict";
        }
        if (!this.fork.participants.includes(h.participant)) return "ignored";
        const state = this.validNext(b);
        if (!state) {
            if (this.disputes && b.previousStateHash === H(this.state) && (!this.timely(b) || this.incorrect(b, this.state))) this.disputed.add(this.forkCnt);
            return "invalid";
        }
        this.fork.blocks.push({ bytes: canon, author: h.participant, ts: Number(h.timestamp), state, signers: new Set([h.participant, this.me]) });
        this.drain();
        return "adopted";
    }
    /** a block that somebody posted on-chain */
    posted(bytes, sig, ts) {
        const b = tryDec(bytes);
        if (!b || signer(bytes, sig) !== b.transaction.header.participant) return "ignored";
        const h = b.transaction.header;
        const f = this.forks[Number(h.forkCnt)];
        if (f && !f.posted.some((p) => p.height === Number(h.transactionCnt) && p.who === h.participant)) f.posted.push({ height: Number(h.transactionCnt), who: h.participant, ts });
        return this.block(bytes, sig);
    }
    /** what matters of the state, for comparison */
    summary(withMine = true) {
        return JSON.stringify(this.forks.map((f) => [f.genesis, f.blocks.map((b) => [b.bytes, f.participants.filter((p) => b.signers.has(p) && (withMine || p !== this.me))])]));
    }
    /** a confirmation: the block, and somebody's signature on it */
    confirmation(bytes, sig, conf) {
        if (typeof bytes === "string") bytes = bytes.toLowerCase();
        const b = tryDec(bytes);
        if (!b || enc("Block", b) !== bytes) return "ignored";
        const h = b.transaction.header;
        if (h.channelId !== this.channel || signer(bytes, sig) !== h.participant || h.forkCnt < BigInt(this.forkCnt)) return "ignored";
        const canon = enc("Block", b);
        const who = signer(canon, conf);
        if (!who) return "ignored";
        let r = null;
        let at = h.forkCnt === BigInt(this.forkCnt) ? this.fork.blocks[Number(h.transactionCnt)] : null;
        if (!at || at.bytes !== canon) {
            r = this.block(bytes, sig);
            if (r === "queued") {
                this.queue.push({ fork: h.forkCnt, cnt: h.transactionCnt, bytes, sig, conf });
                return r;
            }
            if (r !== "adopted") return r;
            at = this.fork.blocks[Number(h.transactionCnt)];
        }
        if (this.fork.participants.includes(who)) at.signers.add(who);
        return r || "confirmed";
    }
    /** the user's own transaction; returns the block it makes or null */
    play(data, now) {
        if (!this.forks.length || this.disputed.has(this.forkCnt)) return null;
        const s = this.state;
        if (VerifSM.next(s) !== this.me) return null;
        const ts = now < this.latestTs ? this.latestTs + 1 : now;
        const tx = { header: { channelId: this.channel, participant: this.me, forkCnt: BigInt(this.forkCnt), transactionCnt: BigInt(this.height), timestamp: BigInt(ts) }, body: { transactionType: 0, encodedData: data, data } };
        const r = VerifSM.transition(s, tx);
        if (!r.ok) return null;
        const bytes = enc("Block", { transaction: tx, stateHash: H(r.state), previousStateHash: H(s) });
        this.fork.blocks.push({ bytes, author: this.me, ts, state: r.state, signers: new Set([this.me]) });
        this.drain();
        return bytes;
    }
    drain() {
        for (let again = true; again; ) {
            again = false;
            for (const q of [...this.queue]) {
                const f = q.fork, c = q.cnt;
                if (f < BigInt(this.forkCnt)) this.queue.splice(this.queue.indexOf(q), 1);
                else if (f === BigInt(this.forkCnt) && c <= BigInt(this.height)) {
                    this.queue.splice(this.queue.indexOf(q), 1);
                    const r = q.conf !== undefined ? this.confirmation(q.bytes, q.sig, q.conf) : this.block(q.bytes, q.sig);
                    if (r === "invalid" || r === "conflict") this.suspicious = true;
                    again = true;
                    break;
                }
            }
        }
    }
    final(f, h) {
        const b = this.forks[f].blocks[h];
        return this.forks[f].participants.every((p) => b.signers.has(p));
    }
}
module.exports = { Peer, signer };
