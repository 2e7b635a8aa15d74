"use strict";
// C10: joining and leaving by agreement, exits and funds. (1) every single and pair of deviations of
// a well-formed agreement; (2) sequences of joins, leaves, disputes and exits with funds accounting.
const Wd = require("../lib/world");
const { World, A, B, C, X, J, honestRun, conf, sb, enc, H, block, sign, PROOF, ZERO, ethers, W } = Wd;
const { probe, explore, follow, deviations } = require("../lib/onchain");
const { joinAgreement, leaveAgreement } = require("../lib/agree");
const ID = ethers.id("c10");
const ID2 = ethers.id("c10-other");
const T0 = 1_000_000_000;
const Z = ethers.id("zzz");
const nm = (s) => "ABCXJ"[W.indexOf(s)];
const byAddr = (a) => W.find((w) => w.address === a);

async function setup(art) {
    const w = await World.create(art);
    await w.open(ID, [A, B].map((p) => p.address), [100, 101], T0);
    await w.open(ID2, [A, C].map((p) => p.address), [5, 6], T0);
    return w;
}
const cur = (w) => w.spec.c(ID).forks.length - 1;
const members = (w) => w.spec.sm.participants(w.spec.forkState(ID, cur(w))).map(byAddr);
const ds = (who, fork) => {
    const mk = (x) => block({ channelId: ID, participant: who.address, fork, cnt: 60, ts: T0, data: "0x0" + x, stateHash: Z, prev: Z });
    return { proofType: PROOF.DoubleSign, encodedProof: enc("DoubleSign", { doubleSigns: [{ block1: sb(mk(1), who), block2: sb(mk(2), who) }] }) };
};
/** the state agreed on: after the first move of the current fork, or its genesis */
function agreed(w, moved) {
    const g = w.spec.forkState(ID, cur(w));
    if (!moved || !members(w).length) return g;
    return honestRun({ id: ID, fork: cur(w), genesis: g, moves: [w.pay(members(w).length - 1, 7)], ts0: T0 }).states[1];
}
function* single(w, k) {
    const now = w.time + 1;
    const ms = members(w);
    const others = W.filter((x) => !ms.includes(x));
    const sigsets = { all: ms, none: [], most: ms.slice(1), extra: [...ms, X], dup: [...ms.slice(1), ms[ms.length - 1]], rev: [...ms].reverse(), others };
    for (const o of deviations({
        joiner: [J, ...ms, X], by: ["self", A, X], fork: [0, 1, -1, -2], signers: ["all", "none", "most", "extra", "dup", "rev", "others"], raw: [0, 1],
        submitter: [ms[0], ms[ms.length - 1], J, X], from: ["submitter", ms[0], X], deadline: [1, 0, -1], amount: [50, 0, 11, 13], state: [0, 1], given: ["same", "other"], inner: [0, 1]
    }, k)) {
        const f = cur(w) + o.fork;
        if (f < 0) continue;
        yield [`join ${JSON.stringify({ ...o, joiner: nm(o.joiner), by: o.by === "self" ? o.by : nm(o.by), submitter: nm(o.submitter), from: o.from === "submitter" ? o.from : nm(o.from) })}`, () => {
            const st = agreed(w, o.state);
            return {
                op: "join", id: ID, state: o.given === "same" ? st : agreed(w, !o.state), at: now,
                from: (o.from === "submitter" ? o.submitter : o.from).address,
                cja: joinAgreement({ id: ID, innerId: o.inner ? ID2 : ID, joiner: o.joiner, by: o.by === "self" ? o.joiner : o.by, amount: o.amount, deadline: now + o.deadline, submitter: o.submitter, fork: f, state: st, signers: sigsets[o.signers], rawSigs: o.raw ? ["0x1234"] : [] })
            };
        }];
    }
    for (const o of deviations({
        who: [ms[0], ms[ms.length - 1], X, J], fork: [0, 1, -1, -2], signers: ["all", "none", "most", "extra", "dup", "rev", "others"], raw: [0, 1],
        from: [ms[0], X], deadline: [1, 0, -1], state: [0, 1], given: ["same", "other"], inner: [0, 1]
    }, k)) {
        const f = cur(w) + o.fork;
        if (f < 0) continue;
        yield [`leave ${JSON.stringify({ ...o, who: nm(o.who), from: nm(o.from) })}`, () => {
            const st = agreed(w, o.state);
            return {
                op: "leave", id: ID, state: o.given === "same" ? st : agreed(w, !o.state), at: now, from: o.from.address,
                la: leaveAgreement({ id: o.inner ? ID2 : ID, who: o.who, deadline: now + o.deadline, fork: f, state: st, signers: sigsets[o.signers], rawSigs: o.raw ? ["0x1234"] : [] })
            };
        }];
    }
}
/** well-formed operations, for the sequences */
function* seqOps(w, depth) {
    const c = w.spec.c(ID);
    const d = c.dispute;
    const f = cur(w);
    const g = w.spec.forkState(ID, f);
    const ms = members(w);
    if (!ms.length) return;
    const dl = d ? Number(d.deadlineTimestamp) : 0;
    const open = d && dl >= w.time;
    const times = open ? [w.time + 1, dl, dl + 1] : [w.time + 1];
    for (const at of times) {
        const a = `at+${at - w.time}`;
        for (const j of [J, C, X].filter((x) => !ms.includes(x)).slice(0, 2)) {
            yield [`join ${nm(j)} ${a}`, () => ({ op: "join", id: ID, state: g, at, from: ms[0].address, cja: joinAgreement({ id: ID, joiner: j, amount: 40, deadline: at + 9, submitter: ms[0], fork: f, state: g, signers: ms }) })];
        }
        for (const l of ms) yield [`leave ${nm(l)} ${a}`, () => ({ op: "leave", id: ID, state: agreed(w, 1), at, from: ms[0].address, la: leaveAgreement({ id: ID, who: l, deadline: at + 9, fork: f, state: agreed(w, 1), signers: ms }) })];
        for (const who of ms)
            for (const by of ms) {
                if (by === who && ms.length > 1) continue;
                const run = honestRun({ id: ID, fork: f, genesis: g, moves: [w.pay(ms.length - 1, 3)], ts0: w.time });
                const h = { fin: g, latest: run.states[1], vvb: [conf(run.blocks[0], [run.authors[0]])] };
                yield [`slash ${nm(who)} by${nm(by)} ${a}`, () => ({ op: "create", id: ID, fork: f, ...h, timedout: ZERO, folded: 0, proofs: [ds(who, f)], from: by.address, at })];
                const joiner = [J, C, X].find((x) => !ms.includes(x));
                if (joiner && w.spec.sm.next(run.states[1]) === by.address)
                    yield [`slash ${nm(who)} + join ${nm(joiner)} by${nm(by)} ${a}`, () => {
                        const e = enc("JoinChannel", { channelId: ID, participant: joiner.address, amount: 30, deadlineTimestamp: at + 9, data: "0x" });
                        const sj = enc("SignedJoinChannel", { encodedJoinChannel: e, signature: sign(joiner, e) });
                        return { op: "create", id: ID, fork: f, ...h, timedout: ZERO, folded: 0, from: by.address, at, proofs: [ds(who, f), { proofType: PROOF.JoinChannel, encodedProof: enc("JoinProof", { encodedSignedJoinChannel: sj, signatures: ms.map((p) => sign(p, sj)) }) }] };
                    }];
            }
        if (open) {
            const df = Number(d.forkCnt);
            const dm = d.participants.map(byAddr);
            const dg = w.spec.forkState(ID, df);
            const run = honestRun({ id: ID, fork: df, genesis: dg, moves: [w.pay(dm.length - 1, 3), w.pay(0, 2)], ts0: w.time });
            for (const who of dm)
                for (const by of dm) {
                    if (who === by) continue;
                    yield [`challenge slash ${nm(who)} by${nm(by)} ${a}`, () => ({ op: "challenge", id: ID, fork: df, challengeCnt: Number(d.challengeCnt), fin: dg, latest: run.states[2], vvb: run.blocks.map((b, i) => conf(b, [run.authors[i]])), proofs: [ds(who, df)], from: by.address, at })];
                }
        }
    }
    // timeout of the next writer
    const at = w.time + 60;
    const next = w.spec.sm.next(g);
    const by = ms.find((m) => m.address !== next);
    if (by) yield [`timeout ${nm(byAddr(next))}`, () => ({ op: "create", id: ID, fork: f, fin: g, latest: g, vvb: [], timedout: next, folded: 0, proofs: [], from: by.address, at })];
}
const funds = {
    async before() {},
    async after(w, _, r, path) {
        if (!r.impl.ok) return;
        const o = await w.observe(ID);
        const s = w.spec.sm.decode(o.latest);
        const inState = s.balances.reduce((x, y) => x + y, 0n);
        const pending = o.dispute.processExits.reduce((x, e) => x + BigInt(e.amount), 0n);
        const inside = BigInt(o.deposited) - BigInt(o.withdrawn);
        this.rec.outcome("funds checked");
        if (inside !== inState + pending)
            this.rec.violation("funds: " + path.map((p) => p[0]).join(" ; "), `deposited - withdrawn = ${inside}, but the latest state and pending exits hold ${inState} + ${pending}`, { path: path.map((p) => p[0]) });
    }
};
const AGAIN = [/^join J at/, /^leave J at/];
const PENDING = [/^join J at/, /^slash A byB/, /^challenge slash J byB at\+1$/];
/** follows the first operations that match */
async function lead(w, res) {
    const path = [];
    for (const re of res) {
        const [label, mk] = [...seqOps(w, path.length + 1)].find((x) => re.test(x[0]));
        path.push([label, mk()]);
        const r = await w.step(path[path.length - 1][1]);
        if (!r.impl.ok) throw new Error("refused: " + label + " " + r.impl.err);
    }
    return path;
}
module.exports = {
    level: "model_checking",
    bounds: { quick: "every pair of deviations of a join/leave agreement out of 12/9 factors; every deviation in the fork of a join and of a join and a leave; sequences of 3 operations, and of 1 more after a challenge while an exit is pending", thorough: "every pair of deviations; sequences of 4 operations, and of 2 more after a challenge while an exit is pending" },
    prepare: () => World.prepare(),
    async run({ rec, prep, shard, shards, opt }) {
        const w = await setup(prep);
        const base = await w.snap();
        let i = 0;
        const each = async (name, k) => {
            const b = await w.snap();
            for (const [label, mk] of single(w, k)) {
                if (i++ % shards !== shard) continue;
                const r = await probe(w, rec, mk(), name + label, { base: b, ids: [ID, ID2], replay: () => ({ single: name, label }) });
                rec.add("traces");
                if (r.model.ok) rec.sample(label);
            }
            await w.back(b);
        };
        await each("", 2);
        await w.back(base);
        base.id = await w.chain.snapshot();
        // in the fork of a join
        await lead(w, [/^join J at/]);
        await each("after a join: ", 1);
        await w.back(base);
        base.id = await w.chain.snapshot();
        // agreements of an earlier fork with the same participants
        await lead(w, AGAIN);
        await each("after a join and a leave: ", 1);
        await w.back(base);
        base.id = await w.chain.snapshot();
        funds.rec = rec;
        await explore(w, rec, { depth: opt.tier === "quick" ? 3 : 4, ids: [ID, ID2], shard, shards, monitor: funds, ops: (w, d) => seqOps(w, d) });
        // a challenge that makes the window longer, while an exit is pending
        const from = await lead(w, PENDING);
        await explore(w, rec, { depth: opt.tier === "quick" ? 1 : 2, ids: [ID, ID2], shard, shards, monitor: funds, from, ops: (w, d) => seqOps(w, d) });
    },
    async replay(r, rec, prep) {
        const w = await setup(prep);
        funds.rec = rec;
        if (r.path) return follow(w, rec, { path: r.path, ids: [ID, ID2], ops: seqOps, monitor: funds });
        if (r.single) await lead(w, /leave/.test(r.single) ? AGAIN : [/^join J at/]);
        for (const [label, mk] of single(w, 2)) if (label === r.label) await probe(w, rec, mk(), label, {});
    }
};
