"use strict";
// Reference model of the on-chain side (forks, disputes, calldata, agreements) over an abstract
// state machine. Every rule is written from the protocol description; a `Reject` means the
// transaction must not take effect.
const { PROOF, dec, enc, H, recover } = require("./types");
const ZERO = "0x" + "0".repeat(40);
class Reject extends Error {}
const need = (c, why) => {
    if (!c) throw new Reject(why);
};
const tryDec = (t, b) => {
    try {
        return dec(t, b);
    } catch {
        throw new Reject("malformed " + t);
    }
};

/** Reference model of VerifStateMachine. */
const VerifSM = {
    decode(e) {
        const s = tryDec("VerifState", e);
        return {
            number: s.number,
            participants: [...s.participants],
            balances: [...s.balances]
        };
    },
    encode: (s) => enc("VerifState", s),
    participants: (e) => VerifSM.decode(e).participants,
    next(e) {
        const s = VerifSM.decode(e);
        if (!s.participants.length) return ZERO;
        return s.participants[Number(s.number % BigInt(s.participants.length))];
    },
    iface: null, // set by the harness (function selectors)
    /** {ok, state} */
    transition(e, tx) {
        const s = VerifSM.decode(e);
        const call = VerifSM.parse(tx.body.data);
        if (!call) return { ok: false, state: e };
        const me = VerifSM.next(e);
        if (call.fn === "add" || call.fn === "nudge") {
            if (call.fn === "add" && tx.header.participant !== me) return { ok: false, state: e };
            s.number += call.args[0];
            if (s.number >= 1n << 256n) return { ok: false, state: e };
            return { ok: true, state: VerifSM.encode(s) };
        }
        if (call.fn === "pay") {
            if (tx.header.participant !== me) return { ok: false, state: e };
            if (!s.participants.length) return { ok: false, state: e };
            const i = Number(s.number % BigInt(s.participants.length));
            const [to, amount] = call.args;
            if (s.balances[i] < amount) return { ok: false, state: e };
            if (to >= BigInt(s.balances.length)) return { ok: false, state: e };
            s.balances[i] -= amount;
            s.balances[Number(to)] += amount;
            s.number += 1n;
            if (s.number >= 1n << 256n) return { ok: false, state: e };
            return { ok: true, state: VerifSM.encode(s) };
        }
        if (call.fn === "view") return { ok: true, state: e };
        return { ok: false, state: e };
    },
    join(e, jc) {
        const s = VerifSM.decode(e);
        if (s.participants.includes(jc.participant) || jc.amount === 13n)
            return { ok: false, state: e };
        s.participants.push(jc.participant);
        s.balances.push(jc.amount);
        return { ok: true, state: VerifSM.encode(s) };
    },
    drop(s, i) {
        s.participants.splice(i, 1);
        s.balances.splice(i, 1);
    },
    slash(e, a) {
        const s = VerifSM.decode(e);
        const i = s.participants.indexOf(a);
        if (i < 0) return { ok: false, state: e };
        const b = s.balances[i];
        VerifSM.drop(s, i);
        const exit = { participant: a, amount: 0n, data: "0x" };
        if (s.balances.length) s.balances[0] += b;
        else exit.amount = b;
        return { ok: true, state: VerifSM.encode(s), exit };
    },
    remove(e, a) {
        const s = VerifSM.decode(e);
        const i = s.participants.indexOf(a);
        if (i < 0) return { ok: false, state: e };
        const exit = { participant: a, amount: s.balances[i], data: "0x" };
        VerifSM.drop(s, i);
        return { ok: true, state: VerifSM.encode(s), exit };
    }
};

const TIMES = { p2p: 5n, agreement: 6n, fallback: 7n, challenge: 8n };
const B = BigInt;

class Spec {
    constructor({ sm = VerifSM, times = TIMES } = {}) {
        this.sm = sm;
        this.t = times;
        this.ch = {}; // channelId -> channel
    }
    clone() {
        const s = new Spec({ sm: this.sm, times: this.t });
        for (const k in this.ch) s.ch[k] = structuredClone(this.ch[k]);
        return s;
    }
    c(id) {
        return (this.ch[id] ??= {
            forks: [], // [{state, ts}]
            dispute: null,
            posted: [], // {fork, cnt, sender, ts, sb}
            deposited: 0n,
            withdrawn: 0n,
            exitsOf: {},
            joinsOf: {}
        });
    }
    latestFork(id) {
        return Math.max(0, this.c(id).forks.length - 1);
    }
    forkState(id, f) {
        const fk = this.c(id).forks[f];
        return fk ? fk.state : "0x";
    }
    open(id, participants, balances, now) {
        const c = this.c(id);
        need(!c.forks.length, "open");
        c.forks.push({
            state: this.sm.encode({ number: 0n, participants, balances }),
            ts: B(now)
        });
        for (const b of balances) c.deposited += b;
    }
    pushFork(id, state, now) {
        this.c(id).forks.push({ state, ts: B(now) });
    }
    disputeInProgress(id, now) {
        const d = this.c(id).dispute;
        return !!d && d.deadlineTimestamp >= B(now);
    }
    participants(id, f) {
        const e = this.forkState(id, f);
        need(e !== "0x", "no such fork");
        return this.sm.participants(e);
    }
    // --- data availability
    post(id_, sender, sb, now) {
        const signer = recover(sb.encodedBlock, sb.signature);
        need(signer === sender, "signature");
        const b = tryDec("Block", sb.encodedBlock);
        const h = b.transaction.header;
        need(h.participant === sender, "author");
        const win = this.t.p2p + this.t.agreement + this.t.fallback;
        need(h.timestamp + win >= B(now), "old");
        need(h.timestamp <= B(now), "new");
        this.c(h.channelId).posted.push({
            fork: h.forkCnt,
            cnt: h.transactionCnt,
            sender,
            ts: B(now),
            sb
        });
    }
    postedBy(id, f, cnt, who) {
        const l = this.c(id).posted.filter(
            (p) => p.fork === B(f) && p.cnt === B(cnt) && p.sender === who
        );
        return l.length ? l[l.length - 1] : null;
    }
    latestPostedTime(id, f, maxCnt) {
        let m = 0n;
        const c = this.c(id);
        for (const p of c.posted) {
            if (p.fork !== B(f) || p.cnt > B(maxCnt)) continue;
            if (p.ts > m) m = p.ts;
        }
        return m;
    }
    // --- threshold
    static threshold(addresses, data, sigs) {
        if (addresses.length > sigs.length) return false;
        const signers = sigs.map((s) => recover(data, s));
        need(!signers.includes(null), "malformed signature");
        // every listed address needs a signature of its own
        const left = [...signers];
        for (const a of addresses) {
            const i = left.indexOf(a);
            if (i < 0) return false;
            left.splice(i, 1);
        }
        return true;
    }
    // --- histories
    history(id, f, fin, latest, vvb, participants) {
        const genesis = this.forkState(id, f);
        if (!vvb.length) {
            need(fin === genesis && latest === fin, "empty history");
            return;
        }
        const signed = new Set();
        let prev = null;
        vvb.forEach((cb, i) => {
            const b = tryDec("Block", cb.encodedBlock);
            const h = b.transaction.header;
            need(h.channelId === id, "channel");
            need(h.forkCnt === B(f), "fork");
            need(participants.includes(h.participant), "author");
            const signers = cb.signatures.map((s) =>
                recover(cb.encodedBlock, s)
            );
            need(!signers.includes(null), "malformed signature");
            need(signers.includes(h.participant), "unsigned by author");
            for (const s of signers) if (participants.includes(s)) signed.add(s);
            if (i) {
                need(
                    h.transactionCnt ===
                        prev.transaction.header.transactionCnt + 1n,
                    "height"
                );
                need(b.previousStateHash === prev.stateHash, "link");
            }
            prev = b;
        });
        const first = dec("Block", vvb[0].encodedBlock);
        const fromGenesis =
            fin === genesis && first.transaction.header.transactionCnt === 0n;
        if (fromGenesis) need(first.previousStateHash === H(fin), "link genesis");
        else {
            need(first.stateHash === H(fin), "finalized state");
            need(
                participants.every((p) => signed.has(p)),
                "not finalized"
            );
        }
        need(prev.stateHash === H(latest), "latest state");
    }
    createDispute(a, sender, now) {
        const { id, fork, fin, latest, vvb, timedout, folded, proofs } = a;
        const c = this.c(id);
        need(!this.disputeInProgress(id, now), "in progress");
        need(B(fork) === B(this.latestFork(id)), "fork");
        const participants = this.participants(id, fork);
        need(participants.includes(sender), "sender");
        this.history(id, fork, fin, latest, vvb, participants);
        if (timedout !== ZERO) {
            let base = c.forks[fork].ts;
            if (vvb.length) {
                const h = dec("Block", vvb[vvb.length - 1].encodedBlock)
                    .transaction.header;
                need(h.transactionCnt + 1n === B(folded), "folded height");
                base = h.timestamp;
            } else need(B(folded) === 0n, "folded height");
            need(timedout === this.sm.next(latest), "not next");
            need(!this.postedBy(id, fork, folded, timedout), "posted");
            const lp = this.latestPostedTime(id, fork, folded);
            if (lp > base) base = lp;
            need(
                B(now) >=
                    base + this.t.p2p + this.t.agreement + this.t.fallback,
                "too early"
            );
            need(timedout !== sender, "self");
        }
        this.processExits(id, now);
        const d = (c.dispute = {
            channelId: id,
            forkCnt: B(fork),
            challengeCnt: 0n,
            encodedLatestFinalizedState: fin,
            encodedLatestCorrectState: latest,
            virtualVotingBlocks: vvb,
            timedoutParticipant: timedout,
            foldedTransactionCnt: B(folded),
            timeoutDisputer: timedout === ZERO ? ZERO : sender,
            postedStateDisputer: sender,
            joinChannelParticipants: [],
            leaveChannelParticipants: [],
            slashedParticipants: [],
            participants,
            processExits: [],
            creationTimestamp: B(now),
            deadlineTimestamp: B(now) + this.t.challenge
        });
        const ok = this.applyProofs(d, proofs, sender, now);
        need(ok || d.timedoutParticipant !== ZERO, "nothing to dispute");
        this.settle(d);
        this.pushFork(id, d.encodedLatestCorrectState, now);
    }
    challengeDispute(a, sender, now) {
        const { id, fork, challengeCnt, proofs, vvb, fin, latest } = a;
        const c = this.c(id);
        const d = c.dispute;
        need(d, "no dispute");
        need(d.forkCnt === B(fork), "fork");
        need(d.challengeCnt === B(challengeCnt), "challengeCnt");
        need(d.deadlineTimestamp > B(now), "expired");
        need(d.participants.includes(sender), "sender");
        need(!d.slashedParticipants.includes(sender), "slashed");
        need(this.applyProofs(d, proofs, sender, now), "no proof");
        this.history(id, Number(d.forkCnt), fin, latest, vvb, d.participants);
        const first = (v) =>
            dec("Block", v[0].encodedBlock).transaction.header.transactionCnt;
        if (d.virtualVotingBlocks.length)
            need(
                vvb.length && first(vvb) >= first(d.virtualVotingBlocks),
                "older history"
            );
        d.virtualVotingBlocks = vvb;
        d.encodedLatestFinalizedState = fin;
        d.encodedLatestCorrectState = latest;
        d.postedStateDisputer = sender;
        d.deadlineTimestamp = B(now) + this.t.challenge;
        d.challengeCnt += 1n;
        this.settle(d);
        this.pushFork(id, d.encodedLatestCorrectState, now);
    }
    settle(d) {
        let e = d.encodedLatestCorrectState;
        for (const jc of d.joinChannelParticipants) {
            const r = this.sm.join(e, jc);
            need(r.ok, "join");
            e = r.state;
        }
        d.processExits = [];
        for (const a of d.slashedParticipants) {
            const r = this.sm.slash(e, a);
            if (r.ok) {
                e = r.state;
                d.processExits.push(r.exit);
            }
        }
        if (d.timedoutParticipant !== ZERO) {
            const r = this.sm.remove(e, d.timedoutParticipant);
            if (r.ok) {
                e = r.state;
                d.processExits.push(r.exit);
            }
        }
        d.encodedLatestCorrectState = e;
    }
    slash(d, who) {
        if (d.slashedParticipants.includes(who)) return false;
        d.slashedParticipants.push(who);
        return true;
    }
    cancelFold(d, cnt) {
        if (cnt < d.foldedTransactionCnt) {
            d.timedoutParticipant = ZERO;
            d.timeoutDisputer = ZERO;
        }
    }
    applyProofs(d, proofs, sender, now) {
        let any = false;
        for (const p of proofs) {
            const ok = this.applyProof(d, p, sender, B(now));
            any = any || ok;
        }
        need(!d.slashedParticipants.includes(sender), "sender slashed");
        return any;
    }
    applyProof(d, p, sender, now) {
        const t = Number(p.proofType);
        const inDispute = (b) => {
            need(b.transaction.header.channelId === d.channelId, "channel");
            need(b.transaction.header.forkCnt === d.forkCnt, "fork");
        };
        if (t === PROOF.FoldRechallenge) {
            const x = tryDec("FoldRechallenge", p.encodedProof);
            const b = tryDec("Block", x.encodedBlock);
            inDispute(b);
            need(
                b.transaction.header.transactionCnt === d.foldedTransactionCnt,
                "height"
            );
            need(d.timedoutParticipant !== ZERO, "no timeout to undo");
            need(
                Spec.threshold(d.participants, x.encodedBlock, x.signatures),
                "threshold"
            );
            d.timedoutParticipant = ZERO;
            return this.slash(d, d.timeoutDisputer);
        }
        if (t === PROOF.DoubleSign) {
            const x = tryDec("DoubleSign", p.encodedProof);
            let ok = false;
            for (const s of x.doubleSigns) {
                const b1 = tryDec("Block", s.block1.encodedBlock);
                const b2 = tryDec("Block", s.block2.encodedBlock);
                inDispute(b1);
                inDispute(b2);
                need(
                    b1.transaction.header.transactionCnt ===
                        b2.transaction.header.transactionCnt,
                    "height"
                );
                need(s.block1.encodedBlock !== s.block2.encodedBlock, "same");
                const r1 = recover(s.block1.encodedBlock, s.block1.signature);
                const r2 = recover(s.block2.encodedBlock, s.block2.signature);
                need(r1 && r1 === r2, "signers");
                need(d.participants.includes(r1), "outsider");
                ok = this.slash(d, r1) || ok;
                if (ok) this.cancelFold(d, b1.transaction.header.transactionCnt);
            }
            return ok;
        }
        if (t === PROOF.IncorrectData) {
            const x = tryDec("IncorrectData", p.encodedProof);
            const b1 = tryDec("Block", x.block1.encodedBlock);
            const b2 = tryDec("Block", x.block2.encodedBlock);
            const h2 = b2.transaction.header;
            need(
                recover(x.block1.encodedBlock, x.block1.signature) ===
                    b1.transaction.header.participant &&
                    recover(x.block2.encodedBlock, x.block2.signature) ===
                        h2.participant,
                "signature"
            );
            inDispute(b1);
            inDispute(b2);
            need(d.participants.includes(h2.participant), "outsider");
            let prevTs;
            const genesis = this.c(d.channelId).forks[Number(d.forkCnt)];
            if (x.encodedState === genesis.state && h2.transactionCnt === 0n) {
                need(b2.previousStateHash === H(x.encodedState), "link");
                prevTs = genesis.ts;
            } else {
                need(
                    b1.transaction.header.transactionCnt + 1n ===
                        h2.transactionCnt,
                    "not consecutive"
                );
                need(b2.previousStateHash === b1.stateHash, "link");
                need(b1.stateHash === H(x.encodedState), "state");
                prevTs = b1.transaction.header.timestamp;
            }
            const lp = this.latestPostedTime(
                d.channelId,
                h2.forkCnt,
                h2.transactionCnt
            );
            const ref = lp > prevTs ? lp : prevTs;
            let good =
                h2.timestamp >= prevTs && h2.timestamp <= ref + this.t.p2p;
            if (good) {
                let r;
                try {
                    r = this.sm.transition(x.encodedState, b2.transaction);
                } catch (e) {
                    if (e instanceof Reject) need(false, "state");
                    throw e;
                }
                good = r.ok && H(r.state) === b2.stateHash;
            }
            if (good) return false;
            const ok = this.slash(d, h2.participant);
            if (ok) this.cancelFold(d, b1.transaction.header.transactionCnt);
            return ok;
        }
        if (t === PROOF.NewerState) {
            const x = tryDec("NewerState", p.encodedProof);
            const b = tryDec("Block", x.encodedBlock);
            inDispute(b);
            need(
                recover(x.encodedBlock, x.confirmationSignature) ===
                    d.postedStateDisputer,
                "signer"
            );
            const v = d.virtualVotingBlocks;
            if (v.length)
                need(
                    b.transaction.header.transactionCnt >
                        dec("Block", v[v.length - 1].encodedBlock).transaction
                            .header.transactionCnt,
                    "not newer"
                );
            return this.slash(d, d.postedStateDisputer);
        }
        if (t === PROOF.FoldPriorBlock) {
            const x = tryDec("FoldPriorBlock", p.encodedProof);
            const b = d.virtualVotingBlocks
                .map((v) => dec("Block", v.encodedBlock))
                .find(
                    (b) =>
                        b.transaction.header.transactionCnt === x.transactionCnt
                );
            need(b, "not in votes");
            need(x.transactionCnt < d.foldedTransactionCnt, "not prior");
            const who = b.transaction.header.participant;
            const q = this.postedBy(d.channelId, d.forkCnt, x.transactionCnt, who);
            need(!q || q.ts > d.creationTimestamp, "posted");
            d.timedoutParticipant = who;
            d.timeoutDisputer = sender;
            return true;
        }
        if (t === PROOF.BlockTooFarInFuture) {
            const x = tryDec("BlockTooFarInFuture", p.encodedProof);
            const b = tryDec("Block", x.block1.encodedBlock);
            inDispute(b);
            const h = b.transaction.header;
            need(
                recover(x.block1.encodedBlock, x.block1.signature) ===
                    h.participant,
                "signature"
            );
            need(d.participants.includes(h.participant), "outsider");
            need(h.timestamp > now, "not future");
            return this.slash(d, h.participant);
        }
        if (t === PROOF.JoinChannel) {
            const x = tryDec("JoinProof", p.encodedProof);
            need(
                Spec.threshold(
                    d.participants,
                    x.encodedSignedJoinChannel,
                    x.signatures
                ),
                "threshold"
            );
            const s = tryDec("SignedJoinChannel", x.encodedSignedJoinChannel);
            const jc = tryDec("JoinChannel", s.encodedJoinChannel);
            need(
                recover(s.encodedJoinChannel, s.signature) === jc.participant,
                "joiner signature"
            );
            need(jc.channelId === d.channelId, "channel");
            need(
                sender === this.sm.next(d.encodedLatestCorrectState),
                "not my turn"
            );
            need(!d.participants.includes(jc.participant), "already in");
            need(now < jc.deadlineTimestamp, "expired");
            need(
                !d.joinChannelParticipants.some(
                    (j) => j.participant === jc.participant
                ),
                "already added"
            );
            d.joinChannelParticipants.push(jc);
            this.deposit(jc);
            return true;
        }
        return false;
    }
    deposit(jc) {
        need(jc.amount !== 11n, "composable");
        const c = this.c(jc.channelId);
        c.deposited += jc.amount;
        c.joinsOf[jc.participant] = (c.joinsOf[jc.participant] || 0) + 1;
    }
    withdraw(id, exit) {
        if (exit.amount === 17n) return false;
        const c = this.c(id);
        c.withdrawn += exit.amount;
        c.exitsOf[exit.participant] = (c.exitsOf[exit.participant] || 0) + 1;
        return true;
    }
    processExits(id, now) {
        const d = this.c(id).dispute;
        if (!d || d.deadlineTimestamp >= B(now)) return;
        for (const e of d.processExits) this.withdraw(id, e);
        d.processExits = [];
    }
    joinWithAgreement(cja, encodedState, sender, now) {
        const a = tryDec("JoinChannelAgreement", cja.encodedJoinChannelAgreement);
        const jc = tryDec("JoinChannel", a.signedJoinChannel.encodedJoinChannel);
        const id = jc.channelId;
        need(!this.disputeInProgress(id, now), "dispute");
        this.processExits(id, now);
        need(B(this.latestFork(id)) === a.forkCnt, "fork");
        need(H(encodedState) === a.previousStateHash, "state");
        const ps = this.participants(id, Number(a.forkCnt));
        need(!ps.includes(jc.participant), "already in");
        need(ps.includes(a.submitter) && sender === a.submitter, "submitter");
        need(
            Spec.threshold(ps, cja.encodedJoinChannelAgreement, cja.signatures),
            "threshold"
        );
        need(
            recover(
                a.signedJoinChannel.encodedJoinChannel,
                a.signedJoinChannel.signature
            ) === jc.participant,
            "joiner"
        );
        need(jc.deadlineTimestamp > B(now), "expired");
        this.deposit(jc);
        const r = this.sm.join(encodedState, jc);
        need(r.ok, "join");
        this.pushFork(id, r.state, now);
    }
    leaveWithAgreement(la, encodedState, sender, now) {
        const l = tryDec("LeaveChannel", la.encodedLeaveChannel);
        const id = l.channelId;
        need(!this.disputeInProgress(id, now), "dispute");
        this.processExits(id, now);
        need(B(this.latestFork(id)) === l.forkCnt, "fork");
        need(H(encodedState) === l.previousStateHash, "state");
        const ps = this.participants(id, Number(l.forkCnt));
        need(ps.includes(l.participant), "not in");
        need(
            Spec.threshold(ps, la.encodedLeaveChannel, la.signatures),
            "threshold"
        );
        need(l.deadlineTimestamp > B(now), "expired");
        const r = this.sm.remove(encodedState, l.participant);
        need(r.ok, "remove");
        need(this.withdraw(id, r.exit), "composable");
        this.pushFork(id, r.state, now);
    }
}
/** run f on a copy; {ok, spec} */
function attempt(spec, f) {
    const s = spec.clone();
    try {
        f(s);
        return { ok: true, spec: s };
    } catch (e) {
        if (e instanceof Reject) return { ok: false, why: e.message, spec };
        throw e;
    }
}
module.exports = { Spec, VerifSM, Reject, attempt, ZERO, TIMES };
