"use strict";
// A node's record of forks, blocks, signatures, posts and waiting messages answers exactly from what was put into it.
const crypto = require("crypto");
const { bundle, load, ethers } = require("../lib/ts");
const Ty = require("../lib/types");
const N = require("../lib/node");
const { W, X } = require("../lib/blocks");
const { T0, CH, signBytes } = N;
const { H } = Ty;
const [A, B, C] = W;

exports.level = "model_checking";
exports.assumptions = ["blocks are added at the height that is next in their fork, as the callers make sure"];
exports.bounds = {
    quick: "from 6 start records (0-2 forks with other participants, 0-3 blocks, 2-3 participants): every sequence of 2 (from two of them 3, but of the 60 most telling ones) of 75-104 operations - forks begun in and out of order, blocks added and refused, confirmations by participants and outsiders, of known, conflicting and unknown blocks, posts at several times, with forged signatures, blocks and confirmations queued and taken out -, and in every state all questions about all forks, heights, participants and 16 blocks",
    thorough: "3 operations from every start, 4 of the most telling ones from one of them"
};
exports.prepare = async () => ({ file: await bundle() });

const GEN = [0, 1, 2].map((f) => "0x6e" + "00".repeat(30) + "0" + f);
const PARTS = [[A, B], [C, B], [A, B, C]];
const GTS = [T0, T0 + 10, T0 + 20];
const stateOf = (f, h, k) => "0x57" + [f, h, k].map((x) => "0" + x).join("");
/** every block of a small world: coordinates, author, variant; height h+1 builds on variant 0 of height h */
const ALL = [];
for (const f of [0, 1])
    for (const h of [0, 1, 2])
        for (const [w, k] of [[A, 0], [A, 1], [B, 0], ...(h === 0 ? [[B, 2]] : [])]) {
            if (h === 2 && (k || f)) continue;
            const ts = T0 + 3 * h + k + (f ? 4 : 0);
            const block = {
                transaction: { header: { channelId: CH, participant: w.address, forkCnt: BigInt(f), transactionCnt: BigInt(h), timestamp: BigInt(ts) }, body: { transactionType: 0n, encodedData: "0x", data: "0x0" + (k + 1) } },
                stateHash: H(stateOf(f, h, w === A ? k : 3)), previousStateHash: k === 2 ? H("0x01") : h ? H(stateOf(f, h - 1, 0)) : H(GEN[f])
            };
            const enc = Ty.enc("Block", block);
            ALL.push({ id: "ABC"[W.indexOf(w)] + k + "@" + f + "/" + h, f, h, k, w, ts, enc, prev: block.previousStateHash, hash: block.stateHash, state: stateOf(f, h, w === A ? k : 3) });
        }
const BY = Object.fromEntries(ALL.map((b) => [b.id, b]));
const sig = (w, b) => signBytes(w, ethers.getBytes(H(b.enc)));
const signed = (b, w = b.w) => ({ encodedBlock: b.enc, signature: sig(w, b) });
const WHO = { A, B, C, X };
const confirmation = (b, w) => ({ originalSignedBlock: signed(b), confirmationSignature: sig(w, b) });

/** the model */
class Model {
    constructor() {
        Object.assign(this, { forks: [], q: [], c: [] });
    }
    at(b) {
        const f = this.forks[b.f];
        return f && f.blocks[b.h];
    }
    /** is it waiting; null: it is, but something later of its author is, too */
    waiting(b) {
        const of = this.q.filter((x) => x.f === b.f && x.h === b.h && x.w === b.w);
        return of.length && of[of.length - 1] === b ? true : of.includes(b) ? null : false;
    }
    known(b) {
        const e = this.at(b);
        return e && e.b === b ? true : this.waiting(b);
    }
    flag(b, signer = b.w) {
        if (signer !== b.w) return "INVALID_SIGNATURE";
        const k = this.known(b);
        if (k === null) return null;
        if (k) return "DUPLICATE";
        if (!this.forks[b.f]) return "NOT_READY";
        const e = this.at(b);
        if (e) return e.b.w === b.w ? "DOUBLE_SIGN" : "INCORRECT_DATA";
        if (!b.h) return b.prev === H(this.forks[b.f].gen) ? "READY" : "INCORRECT_DATA";
        const p = this.forks[b.f].blocks[b.h - 1];
        return !p ? "NOT_READY" : p.b.hash === b.prev ? "READY" : "INCORRECT_DATA";
    }
    queue(b) {
        this.q = this.q.filter((x) => x !== b).concat(b);
    }
    digest() {
        return JSON.stringify([this.forks.map((f, i) => [f.parts.map((w) => w.address), f.blocks.map((e) => [e.b.id, e.signers.map((w) => w.address)]), f.posts]), this.q.map((b) => b.id).sort(), this.order(), this.c.map(([b, w]) => b.id + w.address).sort()]);
    }
    /** the order counts among one author's for a height only */
    order() {
        return ALL.filter((b) => this.q.includes(b)).map((b) => b.id + this.waiting(b));
    }
}
const OPS = {};
for (const f of [0, 1, 2])
    OPS["fork " + f] = {
        can: () => true,
        model: (m) => m.forks.length === f && void m.forks.push({ gen: GEN[f], parts: PARTS[f], ts: GTS[f], blocks: [], posts: [] }),
        real: (a) => a.newFork(GEN[f], PARTS[f].map((w) => w.address), f, GTS[f])
    };
OPS["fork 0 again, with others"] = {
    can: (m) => m.forks.length > 0, model: () => {},
    real: (a) => a.newFork(GEN[2], [X.address], 0, T0 + 50)
};
for (const b of ALL) {
    OPS["add " + b.id] = {
        can: (m) => !m.forks[b.f] ? b.h === 0 : b.h <= m.forks[b.f].blocks.length,
        model: (m) => (!m.forks[b.f] || m.at(b) ? "throws" : void m.forks[b.f].blocks.push({ b, signers: [b.w] })),
        real: (a) => a.addBlock(Ty.dec("Block", b.enc), sig(b.w, b), b.state)
    };
    for (const w of ["A", "B", "C", "X"])
        OPS[`confirm ${b.id} ${w}`] = {
            can: (m) => b.k < 2 && b.h < 2 && (m.at(b) ? m.at(b).b === b || w === "B" : w === "A"),
            model: (m) => {
                const e = m.at(b);
                if (!e || e.b !== b || e.signers.includes(WHO[w])) return "throws";
                e.signers.push(WHO[w]);
            },
            real: (a) => a.confirmBlock(Ty.dec("Block", b.enc), sig(WHO[w], b))
        };
    for (const t of [5, 20])
        for (const by of ["", " forged"])
            OPS[`post ${b.id} ${t}${by}`] = {
                can: (m) => (!by || (b.k === 0 && t === 5)) && (t === 5 || b.k !== 2) && m.known(b) !== null,
                model: (m) => {
                    const flag = m.flag(b, by ? X : b.w), f = m.forks[b.f];
                    if (by) return flag;
                    if (f && !f.posts.some((p) => p.h === b.h && p.w === b.w.address)) f.posts.push({ h: b.h, w: b.w.address, t: T0 + t });
                    if (flag === "READY" || flag === "NOT_READY") m.queue(b);
                    return flag;
                },
                real: (a, S) => S.types.AgreementFlag[a.collectOnChainBlock(signed(b, by ? X : b.w), T0 + t)]
            };
    OPS["queue " + b.id] = { can: () => b.h < 2, model: (m) => void m.queue(b), real: (a) => a.queueBlock(signed(b)) };
    for (const w of ["A", "B"])
        OPS[`queue confirmation ${b.id} ${w}`] = {
            can: () => b.k < 2 && b.h === 1 && b.f === 0 || (b.id === "A0@1/0"),
            model: (m) => void (m.c.some(([x, y]) => x === b && y === WHO[w]) || m.c.push([b, WHO[w]])),
            real: (a) => a.queueConfirmation(confirmation(b, WHO[w]))
        };
}
for (const f of [0, 1])
    for (const h of [0, 1]) {
        OPS[`take blocks ${f}/${h}`] = {
            can: (m) => m.q.length > 0,
            model: (m) => {
                const r = m.q.filter((b) => b.f === f && b.h === h);
                m.q = m.q.filter((b) => !r.includes(b));
                return r.map((b) => JSON.stringify(signed(b))).sort();
            },
            real: (a) => a.tryDequeueBlocks(f, h).map((x) => JSON.stringify({ encodedBlock: x.encodedBlock, signature: x.signature })).sort()
        };
        OPS[`take confirmations ${f}/${h}`] = {
            can: (m) => m.c.length > 0,
            model: (m) => {
                const r = m.c.filter(([b]) => b.f === f && b.h === h);
                m.c = m.c.filter((x) => !r.includes(x));
                return r.map(([b, w]) => b.id + sig(w, b)).sort();
            },
            real: (a) => a.tryDequeueConfirmations(f, h).map((x) => ALL.find((b) => b.enc === x.originalSignedBlock.encodedBlock && x.originalSignedBlock.signature === sig(b.w, b)).id + x.confirmationSignature).sort()
        };
    }
const enc = (b) => (b === undefined ? undefined : Ty.enc("Block", Ty.plain(b)));
const attempt = (f) => {
    try {
        return f();
    } catch (e) {
        return "throws";
    }
};
/** all questions: [name, expected, answer] */
function* questions(m, a, S) {
    const P = [A, B, C, X], flags = S.types.AgreementFlag;
    const L = m.forks.length, last = m.forks[L - 1];
    yield ["latest fork", Math.max(0, L - 1), () => a.getLatestForkCnt()];
    yield ["open", L > 0, () => a.isChannelOpen()];
    yield ["next height", last ? last.blocks.length : 0, () => a.getNextBlockHeight()];
    for (const w of P) yield ["in latest fork", !!last && last.parts.includes(w), () => a.isParticipantInLatestFork(w.address)];
    for (const f of [0, 1, 2]) {
        const F = m.forks[f];
        yield ["genesis", F && F.gen, () => a.getForkGenesisStateEncoded(f)];
        const lastTs = F && Math.max(F.ts, F.blocks.length ? F.blocks[F.blocks.length - 1].b.ts : 0);
        if (F) yield ["latest block time", lastTs, () => a.getLatestBlockTimestamp(f)];
        for (const h of [0, 1, 2, 3]) {
            const e = F && F.blocks[h];
            yield [`block ${f}/${h}`, e && e.b.enc, () => enc(a.getBlock(f, h))];
            yield ["state", e && e.b.state, () => a.getEncodedState(f, h)];
            if (F) {
                const posted = Math.max(0, ...F.posts.filter((p) => p.h <= h).map((p) => p.t));
                yield ["latest post", posted, () => a.getChainLatestBlockTimestamp(f, h)];
                yield ["latest time", Math.max(posted, lastTs), () => a.getLatestTimestamp(f, h)];
            }
            for (const w of P) yield ["posted", !!F && F.posts.some((p) => p.h === h && p.w === w.address), () => a.didParticipantPostOnChain(f, h, w.address)];
        }
        for (const w of P) {
            const es = F ? [...F.blocks] : [], i = es.map((e) => e.signers.includes(w)).lastIndexOf(true);
            yield ["latest signed by", i < 0 ? undefined : es[i].b.enc + sig(w, es[i].b), () => {
                const r = a.getLatestSignedBlockByParticipant(f, w.address);
                return r && enc(r.block) + r.signature;
            }];
            let want = "throws";
            if (F) {
                // the shortest history up to the latest block signed by w that everyone has signed some block of
                let from = i;
                const all = (k) => F.parts.every((p) => es.slice(k, i + 1).some((e) => e.signers.includes(p)));
                while (from > 0 && !all(from)) from--;
                const final = i >= 0 && all(from);
                want = JSON.stringify([final ? es[from].b.state : F.gen, i < 0 ? F.gen : es[i].b.state, i < 0 ? [] : es.slice(from, i + 1).map((e) => [e.b.enc, e.signers.map((s) => sig(s, e.b)).sort()])]);
            }
            yield ["finalized and latest", want, () => {
                const r = a.getFinalizedAndLatestWithVotes(f, w.address);
                return JSON.stringify([r.encodedLatestFinalizedState, r.encodedLatestCorrectState, r.virtualVotingBlocks.map((v) => [v.encodedBlock, [...v.signatures].sort()])]);
            }];
        }
    }
    for (const b of ALL) {
        const e = m.at(b), mine = e && e.b === b, F = m.forks[b.f], block = Ty.dec("Block", b.enc);
        yield ["in chain " + b.id, !!mine, () => a.isBlockInChain(block)];
        const known = m.known(b);
        if (known !== null) yield ["known " + b.id, known, () => a.isBlockDuplicate(block)];
        const flag = m.flag(b);
        if (flag !== null) yield ["check " + b.id, flag, () => flags[a.checkBlock(signed(b))]];
        if (b.k === 0) yield ["check forged " + b.id, "INVALID_SIGNATURE", () => flags[a.checkBlock(signed(b, X))]];
        yield ["everyone signed " + b.id, !!mine && F.parts.every((w) => e.signers.includes(w)), () => a.didEveryoneSignBlock(block)];
        if (mine || !e) {
            yield ["signatures " + b.id, mine ? e.signers.map((w) => sig(w, b)).sort().join() : "", () => [...a.getSigantures(block)].sort().join()];
            yield ["original signature " + b.id, mine ? sig(b.w, b) : undefined, () => a.getOriginalSignature(block)];
            yield ["who hasn't signed " + b.id, mine ? F.parts.filter((w) => !e.signers.includes(w)).map((w) => w.address).sort().join() : "", () => [...a.getParticipantsWhoHaventSignedBlock(block)].sort().join()];
        }
        const twice = e && !mine && e.b.w === b.w ? e.b.enc + sig(b.w, e.b) : undefined;
        yield ["double signed " + b.id, twice, () => {
            const r = a.getDoubleSignedBlock(signed(b));
            return r && r.encodedBlock + r.signature;
        }];
        for (const w of P) {
            const s = !!mine && e.signers.includes(w);
            yield ["did sign " + b.id, s + (s ? sig(w, b) : "undefined"), () => {
                const r = a.didParticipantSign(block, w.address);
                return r.didSign + String(r.signature);
            }];
            yield ["signature held " + b.id, e && !mine ? "throws" : s, () => a.doesSignatureExist(block, sig(w, b))];
        }
    }
}
let S;
/** everything the record holds */
function dump(x, seen = new Map()) {
    if (typeof x === "bigint") return x + "n";
    if (typeof x !== "object" || x === null) return typeof x === "function" ? "f" : JSON.stringify(x);
    if (seen.has(x)) return "^" + seen.get(x);
    seen.set(x, seen.size);
    const e = x instanceof Map || x instanceof Set ? [...x] : Object.keys(x).map((k) => [k, x[k]]);
    return "{" + e.map((y) => (Array.isArray(y) ? y.map((z) => dump(z, seen)).join(":") : dump(y, seen))).join() + "}";
}
const judged = new Set();
function run(prep, path) {
    S ||= load(prep.file, {});
    const a = new S.AgreementManager(), m = new Model();
    let trouble = null;
    for (const name of path) {
        const op = OPS[name], want = op.model(m), got = attempt(() => op.real(a, S));
        const w = want === undefined || want === false || want === true ? undefined : want;
        if (JSON.stringify(w) !== JSON.stringify(got)) trouble = `${name}: ${JSON.stringify(got)} instead of ${JSON.stringify(w)}`;
    }
    return { a, m, trouble };
}
function judge(prep, path, rec) {
    const { a, m, trouble } = run(prep, path);
    let bad = trouble;
    const key = crypto.createHash("sha1").update(dump(a) + m.digest()).digest("base64");
    rec.transition();
    // the same contents, and the same expected: the same answers
    if (!bad && judged.has(key)) return m;
    judged.add(key);
    if (!bad)
        for (const [q, want, f] of questions(m, a, S)) {
            rec.add("questions");
            const got = attempt(f);
            if (got !== want) {
                bad = `${q}: ${String(got).slice(0, 200)} instead of ${String(want).slice(0, 200)}`;
                break;
            }
        }
    rec.add("traces");
    if (bad) {
        rec.violation(bad.replace(/0x[0-9a-fA-F]+/g, "0x").replace(/\d+/g, "#").slice(0, 120), path.join(", ") + ": " + bad, path);
        return null;
    }
    return m;
}
const STARTS = [[], ["fork 0"], ["fork 0", "add A0@0/0", "confirm A0@0/0 B", "add B0@0/1"], ["fork 0", "add A0@0/0", "add B0@0/1", "add A0@0/2", "confirm A0@0/2 B"], ["fork 0", "add A0@0/0", "fork 1", "add B0@1/0", "confirm B0@1/0 C"], ["fork 0", "fork 1", "fork 2"]];
exports.run = async ({ opt, prep, rec, mine }) => {
    const thorough = opt.tier === "thorough";
    let i = 0;
    const seen = new Map();
    const enabled = (m) => Object.keys(OPS).filter((o) => OPS[o].can(m));
    const go = (path, left, ops) => {
        const m = judge(prep, path, rec);
        if (!m) return;
        const d = m.digest(), op = path[path.length - 1];
        rec.state(d);
        rec.outcome((op || "start").split(" ")[0]);
        if ((seen.get(d) ?? -1) >= left) return;
        seen.set(d, left);
        rec.sample(path, 2);
        if (left) for (const o of enabled(m)) if (!ops || ops(o)) go([...path, o], left - 1, ops);
    };
    const telling = (o) => !/@1\/1|C$|X$|forged|A1@1|B2/.test(o);
    for (const [k, st] of STARTS.entries()) {
        const deep = k === 2 || k === 4, depth = thorough || deep ? 3 : 2;
        if (await mine(i++)) go(st, 0);
        const { m } = run(prep, st);
        for (const o of enabled(m)) if (await mine(i++)) go([...st, o], depth - 1, deep && !thorough ? telling : null);
        if (thorough && k === 2) for (const o of enabled(m).filter(telling)) if (await mine(i++)) seen.clear(), go([...st, o], 3, telling);
    }
};
exports.replay = async (path, rec, prep) => void judge(prep, path, rec);
exports.expect = ({ outcomes }) => (["fork", "add", "confirm", "post", "queue", "take"].every((o) => outcomes[o]) ? null : "some operations never happened");
