"use strict";
// C08: a channel's fork history only grows, by the operations of its participants; channels do not touch each
// other; privileged entry points are closed; events tell exactly what happened.
const Wd = require("../lib/world");
const { World, A, B, C, X, J, honestRun, conf, sb, enc, H, block, sign, PROOF, ZERO, ethers, W, norm } = Wd;
const { explore, follow, show } = require("../lib/onchain");
const { joinAgreement, leaveAgreement } = require("../lib/agree");
const ID = ethers.id("c08");
const ID2 = ethers.id("c08-other");
const IDS = [ID, ID2];
const T0 = 1_000_000_000;
const Z = ethers.id("zzz");
const nm = (s) => "ABCXJ"[W.indexOf(s)];
const byAddr = (a) => W.find((w) => w.address === a);

async function setup(art) {
    const w = await World.create(art);
    await w.open(ID, [A, B, C].map((p) => p.address), [100, 101, 102], T0);
    await w.open(ID2, [A, B, C].map((p) => p.address), [100, 101, 102], T0);
    return w;
}
const cur = (w, id) => w.spec.c(id).forks.length - 1;
const members = (w, id) => w.spec.sm.participants(w.spec.forkState(id, cur(w, id))).map(byAddr);
const ds = (id, who, fork) => {
    const mk = (x) => block({ channelId: id, participant: who.address, fork, cnt: 60, ts: T0, data: "0x0" + x, stateHash: Z, prev: Z });
    return { proofType: PROOF.DoubleSign, encodedProof: enc("DoubleSign", { doubleSigns: [{ block1: sb(mk(1), who), block2: sb(mk(2), who) }] }) };
};
function* real(w, id) {
    const n = id === ID ? 1 : 2;
    const c = w.spec.c(id);
    const ms = members(w, id);
    const f = cur(w, id);
    const g = w.spec.forkState(id, f);
    const d = c.dispute;
    const at = d && Number(d.deadlineTimestamp) >= w.time ? Number(d.deadlineTimestamp) + 1 : w.time + 1;
    const run = ms.length ? honestRun({ id, fork: f, genesis: g, moves: [w.add(1)], ts0: w.time }) : null;
    if (run)
        for (const [who, by] of [[ms[ms.length - 1], ms[0]], [ms[0], ms[1]]]) {
            if (!by || who === by) continue;
            yield [`ch${n}: dispute by ${nm(by)} against ${nm(who)}`, { op: "create", id, fork: f, fin: g, latest: run.states[1], vvb: [conf(run.blocks[0], [run.authors[0]])], timedout: ZERO, folded: 0, proofs: [ds(id, who, f)], from: by.address, at }];
        }
    if (ms.length > 1) {
        const next = w.spec.sm.next(g);
        const by = ms.find((m) => m.address !== next);
        yield [`ch${n}: timeout of ${nm(byAddr(next))}`, { op: "create", id, fork: f, fin: g, latest: g, vvb: [], timedout: next, folded: 0, proofs: [], from: by.address, at: at + 60 }];
        yield [`ch${n}: ${nm(ms[1])} leaves`, { op: "leave", id, la: leaveAgreement({ id, who: ms[1], fork: f, state: g, deadline: at + 9, signers: ms }), state: g, from: ms[0].address, at }];
    }
    if (d && Number(d.deadlineTimestamp) > w.time + 1) {
        const df = Number(d.forkCnt);
        const dg = w.spec.forkState(id, df);
        const dm = d.participants.map(byAddr);
        const r2 = honestRun({ id, fork: df, genesis: dg, moves: [w.add(1), w.add(1)], ts0: T0 });
        const [by, who] = [dm[1], dm[0]];
        yield [`ch${n}: challenge by ${nm(by)} against ${nm(who)}`, { op: "challenge", id, fork: df, challengeCnt: Number(d.challengeCnt), fin: dg, latest: r2.states[2], vvb: r2.blocks.map((b, i) => conf(b, [r2.authors[i]])), proofs: [ds(id, who, df)], from: by.address, at: w.time + 1 }];
    }
    const jo = ms.includes(J) ? X : J;
    if (ms.length && !ms.includes(jo)) yield [`ch${n}: ${nm(jo)} joins`, { op: "join", id, cja: joinAgreement({ id, joiner: jo, deadline: at + 9, submitter: ms[0], fork: f, state: g, signers: ms }), state: g, from: ms[0].address, at }];
    const b = block({ channelId: id, participant: A.address, fork: f, cnt: 1, ts: w.time, stateHash: Z, prev: Z });
    yield [`ch${n}: A posts`, { op: "post", id, sb: sb(b, A), from: A.address, at: w.time + 1 }];
}
/** calls that must not change any channel, by whoever */
function* alien(w) {
    const g = w.spec.forkState(ID, cur(w, ID));
    const evil = enc("VerifState", { number: 5, participants: [X.address], balances: [1000000] });
    const jc = { channelId: ID, participant: X.address, amount: 5, deadlineTimestamp: T0 + 1000, data: "0x" };
    const pe = { participant: X.address, amount: 50, data: "0x" };
    const tx = (id, who, data) => ({ header: { channelId: id, participant: who.address, forkCnt: 0, transactionCnt: 0, timestamp: T0 }, body: { transactionType: 0, encodedData: "0x", data } });
    const at = w.time + 1;
    for (const from of [X, A]) {
        const mk = (name, fn, args, reject, to) => [`${nm(from)}: ${name}`, { op: "raw", id: ID, fn, args, reject, free: !reject, to, from: from.address, at, tag: name }];
        yield mk("addParticipantComposable", "addParticipantComposable", [jc], true);
        yield mk("removeParticipantComposable", "removeParticipantComposable", [ID, pe], true);
        yield mk("applyJoinChannelToStateMachine", "applyJoinChannelToStateMachine", [g, [jc]], true);
        yield mk("applySlashesToStateMachine", "applySlashesToStateMachine", [g, [A.address]], true);
        yield mk("removeParticipantsFromStateMachine", "removeParticipantsFromStateMachine", [g, [A.address]], true);
        yield mk("execute a move on another state", "executeStateTransitionOnState", [ID, evil, tx(ID, X, w.add(3))], false);
        yield mk("execute a failing move", "executeStateTransitionOnState", [ID, g, tx(ID, X, w.smi.encodeFunctionData("fail"))], false);
        yield mk("execute a move that loads a state", "executeStateTransitionOnState", [ID, g, tx(ID, A, w.smi.encodeFunctionData("setState", [evil]))], false);
        yield mk("getParticipants as a transaction", "getParticipants", [ID2, 0], false);
        yield mk("getNextToWrite of another state", "getNextToWrite", [ID, evil], false);
        yield mk("state machine: setState", "setState", [evil], false, "sm");
        yield mk("state machine: joinChannel", "joinChannel", [jc], false, "sm");
        yield mk("state machine: slashParticipant", "slashParticipant", [A.address], false, "sm");
        yield mk("state machine: removeParticipant", "removeParticipant", [B.address], false, "sm");
        yield mk("state machine: stateTransition", "stateTransition", [tx(ID, A, w.add(1))], false, "sm");
        yield mk("facet: createDispute", "createDispute", [ID, 0, g, g, [], B.address, 0, []], true, "facet");
        yield mk("facet: challengeDispute", "challengeDispute", [ID, 0, 0, [], [], g, g], true, "facet");
        yield mk("createDispute of an unopened channel", "createDispute", [ethers.id("none"), 0, "0x", "0x", [], B.address, 0, []], true);
    }
}
const POISON = /^X: (execute a move on another|state machine: (setState|slash|join))/;
function* ops(w, depth, path) {
    const aliens = path.filter((x) => x[1].op === "raw").length;
    for (const id of IDS) for (const [l, o] of real(w, id)) yield [l, { ...o, logs: true }];
    if (!aliens) for (const [l, o] of alien(w)) yield [l, { ...o, logs: !o.to }];
}
const monitor = (rec) => ({
    async before(w) {
        const seen = {};
        for (const id of IDS) seen[id] = await w.observe(id);
        return { seen, spec: w.spec };
    },
    async after(w, prev, r, path) {
        const p = path.map((x) => x[0]);
        const bad = (k, what) => rec.violation(`${k} after ${p.join(" ; ")}`, what, { path: p });
        const expected = [];
        for (const id of IDS) {
            const a = prev.seen[id];
            const b = await w.observe(id);
            const n = Number(a.forkCnt);
            for (let i = 0; i <= n; i++) {
                if (a.states[i] !== b.states[i]) bad(`fork ${i} rewritten`, "the recorded state of an existing fork changed");
                if (a.timestamps[i] !== b.timestamps[i]) bad(`fork ${i} redated`, "the recorded time of an existing fork changed");
            }
            if (Number(b.forkCnt) < n) bad("forks lost", `fork count fell from ${n} to ${b.forkCnt}`);
            if (Number(b.forkCnt) > n + 1) bad("several forks", "one operation made several forks");
            if (b.latest !== b.states[Number(b.forkCnt)]) bad("latest", "the latest state is not the state of the latest fork");
            if (b.states[Number(b.forkCnt) + 1] !== "0x") bad("ahead", "a fork beyond the latest one has a state");
            rec.add("histories_compared");
            const ca = prev.spec.c(id), cb = w.spec.c(id);
            for (let f = ca.forks.length; f < cb.forks.length; f++) expected.push(["SetState", id, cb.forks[f].state, String(f), String(cb.forks[f].ts)]);
            if (["create", "challenge"].includes(path[path.length - 1][1].op) && show(ca.dispute) !== show(cb.dispute)) expected.push(["DisputeUpdated", id, show(cb.dispute)]);
            for (let k = ca.posted.length; k < cb.posted.length; k++) expected.push(["BlockCalldataPosted", id, cb.posted[k].sb.encodedBlock, cb.posted[k].sb.signature, String(cb.posted[k].ts)]);
        }
        if (r.impl.logs) {
            const got = r.impl.logs.map((l) => {
                if (!l) return ["unknown"];
                if (l.name === "SetState") return [l.name, l.args[0], l.args[1], String(l.args[2]), String(l.args[3])];
                if (l.name === "DisputeUpdated") return [l.name, l.args[0], show(Wd.plain(l.args[1]))];
                if (l.name === "BlockCalldataPosted") return [l.name, l.args[0], l.args[1][0], l.args[1][1], String(l.args[2])];
                return [l.name];
            });
            rec.add("event_lists_compared");
            const s = (x) => JSON.stringify(x.map((y) => JSON.stringify(y)).sort());
            if (s(got) !== s(expected)) bad("events", `events [${got.map((x) => x[0])}] ${s(got).slice(0, 200)} where [${expected.map((x) => x[0])}] are due`);
        }
    }
});
module.exports = {
    level: "model_checking",
    bounds: { quick: "all sequences of 2 operations over two channels (disputes, challenges, timeouts, joins, leaves, postings, 36 alien calls), 1 alien call per sequence; all sequences of 3 operations with the 4 alien calls that leave another state in the shared state machine", thorough: "the same with 3 and 4 operations" },
    assumptions: ["EDR executes EVM code as the chain does"],
    prepare: () => World.prepare(),
    async run({ opt, prep, shard, shards, rec }) {
        const w = await setup(prep);
        const m = monitor(rec);
        const o = { ids: IDS, shard, shards, monitor: m };
        await explore(w, rec, { ...o, depth: 2, ops });
        // deeper, with the alien calls that leave the shared state machine in another state
        await explore(w, rec, { ...o, depth: opt.tier === "quick" ? 3 : 4, ops: (...a) => [...ops(...a)].filter(([l, op]) => op.op !== "raw" || POISON.test(l)) });
        if (opt.tier !== "quick") await explore(w, rec, { ...o, depth: 3, ops });
    },
    async replay(v, rec, prep) {
        const w = await setup(prep);
        await follow(w, rec, { path: v.path, ids: IDS, ops, monitor: monitor(rec) });
    },
    expect({ outcomes }) {
        if (!(outcomes.accept > 200)) return "outcomes " + JSON.stringify(outcomes);
    }
};
