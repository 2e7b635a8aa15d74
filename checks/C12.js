"use strict";
// A node adopts and signs a block exactly if it is the valid next block of its chain.
const K = require("../lib/nodecheck");
const N = require("../lib/node");
const Bk = require("../lib/blocks");
const situ = require("../lib/situ");
const { genesis, wOf } = situ;
const { history, orders, fresh } = require("../lib/orders");
const Ty = require("../lib/types");
const { VerifSM, T, T0, CH, add, signBytes } = N;
const { ethers } = require("../lib/ts");
const { W, X, build, deviations, SIGS } = Bk;
const { H } = Ty;

exports.level = "model_checking";
exports.assumptions = ["the state machine is a JavaScript one with the semantics C09 checks for the EVM-backed one", "one message is processed at a time here; interleavings are C13's"];
exports.bounds = {
    quick: "12 situations (1-3 participants, 0-2 adopted blocks, first and second fork, each role); all pairs of the deviations of a block in 4 of them, all single ones in the others; by block and by confirmation message; 14 kinds of confirmation signature; each followed by the valid block, a block for the next fork and that fork; every order of 9 sets of 5-6 messages about two forks (blocks of several heights, confirmations, posts, forgeries, outsiders' blocks)",
    thorough: "the same with all pairs everywhere and all triples of one group representative each in 3 situations; 4 sets of 7 messages more"
};
/** situations: me, number of participants, blocks adopted before, fork */
function situations() {
    const r = [];
    for (const [np, me, pre, fork, deep, extra] of [
        [2, 1, 0, 0, true], [2, 1, 2, 0, true], [3, 2, 1, 0, true], [3, 0, 1, 1, true],
        [2, 0, 0, 0], [3, 2, 0, 0], [3, 0, 2, 0], [2, 0, 1, 1], [1, 0, 0, 0], [3, 1, 1, 0], [2, 1, 0, 0, false, { now: -20 }], [3, 0, 2, 0, false, { chainTs: 9 }]
    ])
        r.push({ np, me, pre, fork, deep: !!deep, extra: extra || {}, name: `${np} participants, node ${me}, ${pre} blocks, fork ${fork}${extra ? ", " + Object.keys(extra) : ""}` });
    return r;
}
const setup = (prep, s) => situ.setup(prep, { ...s, ...s.extra });
function context(s, model) {
    const next = wOf(VerifSM.next(model.state));
    return { author: next, others: W.slice(0, s.np).filter((w) => w !== next), fork: s.fork, height: model.height, latest: model.latestTs, ref: Math.max(model.latestTs, model.chainTs()), p2p: T.p2pTime, state: model.state, genesis: model.fork.genesis, me: W[s.me] };
}
const baseSpec = (c) => ({ author: c.author, fork: c.fork, height: c.height, ts: c.latest + 1, data: add(1), state: c.state });
const CONFS = {
    author: (b, c) => c.author, me: (b, c) => c.me, outsider: () => X
};
/** feeds one event to the node and to its model; whatever doesn't agree goes to trouble */
async function feedBoth({ n, model, me, trouble, trace, rec }, ev, f, label) {
    const before = new Set(model.forks.flatMap((k) => k.blocks.map((x) => x.bytes)));
    const out = await n.step(ev);
    rec.transition();
    const verdict = f();
    rec.outcome(verdict);
    for (const call of out.calls) if (call.name === "createDispute") model.disputed.add(Number(call.args[1]));
    for (const x of K.compare(n, model)) trouble.push(`${label}: ${x}`);
    const rel = K.released(out, me.address);
    for (const x of rel) {
        if (!model.forks.some((k) => k.blocks.some((y) => y.bytes === x))) trouble.push(`${label}: released a signature over a block that is not part of its chain`);
    }
    for (const k of model.forks) for (const y of k.blocks) if (!before.has(y.bytes) && !rel.has(y.bytes)) trouble.push(`${label}: adopted a block without telling anyone its signature`);
    const allowed = new Set([...model.forks.flatMap((k) => k.blocks.map((x) => H(x.bytes)))]);
    for (const h of out.signed) if (!allowed.has(h)) trouble.push(`${label}: signed something that is not an adopted block`);
    for (const e of out.errors) if (!/thrown/.test(e)) trouble.push(`${label}: ${e}`);
    trace.push(`${label} ${verdict}`);
    return verdict;
}
async function one(prep, s, devs, via, conf, rec, tag) {
    const { n, model, me } = await setup(prep, s);
    const trouble = [];
    let pre = K.compare(n, model);
    const c = context(s, model);
    const spec = baseSpec(c);
    for (const d of devs) d.f(spec);
    const b = build(spec);
    const trace = [];
    const feed = (ev, f, label) => feedBoth({ n, model, me, trouble, trace, rec }, ev, f, label);
    let confSig;
    if (via === "confirmation") {
        const who = conf.who(c);
        confSig = signBytes(who, ethers.getBytes(H(b.canon)));
        if (conf.sig) confSig = conf.sig(confSig, b.canon, who);
    }
    const v = await feed(via === "block" ? K.msgBlock(b) : K.msgConf(b, confSig), () => (via === "block" ? model.block(b.bytes, b.sig) : model.confirmation(b.bytes, b.sig, confSig)), via);
    rec.state([s.name, v, via, n.chainOf(s.fork).length, model.disputed.size]);
    // the same message again changes nothing more
    await feed(via === "block" ? K.msgBlock(b) : K.msgConf(b, confSig), () => (via === "block" ? model.block(b.bytes, b.sig) : model.confirmation(b.bytes, b.sig, confSig)), "again");
    // life goes on: the valid block, and the next fork
    const good = build(baseSpec(context(s, model)));
    if (context(s, model).author !== me) await feed(K.msgBlock(good), () => model.block(good.bytes, good.sig), "valid block");
    else {
        await feed({ t: "play", data: add(1) }, () => model.play(add(1), Math.floor(n.now / 1000)) && "played", "own block");
    }
    const g2 = genesis(s.np, 3n);
    const a2 = wOf(VerifSM.next(g2));
    const ahead = build({ author: a2, fork: s.fork + 1, height: 0, ts: T0 + 21, data: add(1), state: g2 });
    if (a2 !== me) await feed(K.msgBlock(ahead), () => model.block(ahead.bytes, ahead.sig), "block ahead of the fork");
    await feed(K.setState(g2, s.fork + 1, T0 + 20), () => model.newFork(g2, s.fork + 1, T0 + 20), "next fork");
    rec.add("traces");
    const all = pre.map((x) => "setup: " + x).concat(trouble);
    if (all.length) rec.violation(`${tag}: ${all[0].replace(/[0-9a-f]{4}\b/g, "")}`, `${s.name}; ${devs.map((d) => d.name).join(" + ") || "valid block"}; ${trace.join(", ")}: ${all.join(" | ")}`, { s: s.name, devs: devs.map((d) => d.name), via, conf: conf && conf.name });
    else rec.sample({ situation: s.name, deviations: devs.map((d) => d.name), via, trace });
}
function confs(s, c) {
    const r = [];
    W.slice(0, s.np).forEach((w, i) => r.push({ name: "participant " + i, who: () => w }));
    r.push({ name: "outsider", who: () => X });
    const other = c.others.find((w) => w !== c.me) || c.author;
    for (const k in SIGS) r.push({ name: k, who: () => other, sig: SIGS[k] });
    r.push({ name: "upper case", who: () => other, sig: (x) => "0x" + x.slice(2).toUpperCase() });
    return r;
}
async function* cases(prep, opt) {
    for (const s of situations()) {
        const { model } = await setup(prep, s);
        const c = context(s, model);
        const d = deviations(c);
        const cf = confs(s, c);
        for (const x of cf) yield [s, [], "confirmation", x];
        const sets = [[], ...d.map((x) => [x])];
        if (s.deep || opt.tier === "thorough") for (let i = 0; i < d.length; i++) for (let j = i + 1; j < d.length; j++) if (d[i].group !== d[j].group) sets.push([d[i], d[j]]);
        if (opt.tier === "thorough" && s.deep) {
            const rep = [...new Map(d.map((x) => [x.group, x])).values()].concat(d.filter((x, i) => i % 3 === 0));
            for (let i = 0; i < rep.length; i++) for (let j = i + 1; j < rep.length; j++) for (let k = j + 1; k < rep.length; k++) if (new Set([rep[i].group, rep[j].group, rep[k].group]).size === 3) sets.push([rep[i], rep[j], rep[k]]);
        }
        for (const x of sets) {
            yield [s, x, "block", null];
            if (x.length < 2 || opt.tier === "thorough") yield [s, x, "confirmation", cf[(s.me + 1) % s.np]];
        }
    }
}
// what arrives in every order: [history, messages, how many of them]
const ORDERS = [
    [{ np: 3, me: 2, np2: 2, heights: 4, heights2: 1 }, ["0/0", "0/1", "0/3", "fork 1", "1/0"]],
    [{ np: 3, me: 2, np2: 2, heights: 4, heights2: 1 }, ["0/0", "0/1", "0/3", "0/1 outsider", "0/3 outsider", "0/2~1"]],
    [{ np: 3, me: 2, np2: 2, heights: 3, heights2: 2 }, ["fork 0", "0/0", "0/0 forged", "0/1", "0/0~1", "0/1 posted"]],
    [{ np: 3, me: 2, np2: 2, heights: 3, heights2: 2 }, ["fork 0", "0/0", "fork 1", "0/1", "1/0", "1/1"]],
    [{ np: 2, me: 0, np2: 3, heights: 2, heights2: 3, shift: 1 }, ["0/0", "1/0", "1/2", "1/2~1", "1/0~3", "fork 1"]],
    [{ np: 3, me: 0, np2: 3, heights: 1, heights2: 2, shift: 1 }, ["1/0", "1/0 posted", "1/0~1", "0/0~2", "fork 1", "fork 0"]],
    [{ np: 2, me: 1, np2: 1, heights: 3, heights2: 0 }, ["0/0", "0/2", "0/0~0", "0/1~0", "0/2~3", "fork 1"]],
    [{ np: 3, me: 2, np2: 2, heights: 4, heights2: 2 }, ["0/0", "0/1", "0/1 other", "0/1 outsider", "fork 1", "1/0"]],
    [{ np: 3, me: 2, np2: 2, heights: 2, heights2: 2 }, ["fork 0", "0/0 other", "0/0", "fork 1", "1/0", "1/0 other"]]
];
const MORE = [
    [{ np: 3, me: 2, np2: 2, heights: 4, heights2: 1 }, ["0/0", "0/1", "0/3", "0/1 outsider", "0/3 outsider", "fork 1", "1/0"]],
    [{ np: 3, me: 2, np2: 2, heights: 3, heights2: 2 }, ["fork 0", "0/0", "0/0 forged", "0/1", "0/0~1", "fork 1", "1/0"]],
    [{ np: 2, me: 0, np2: 3, heights: 2, heights2: 3, shift: 1 }, ["0/0", "0/0~1", "1/0", "1/2", "1/2~1", "1/0 posted", "fork 1"]],
    [{ np: 3, me: 0, np2: 3, heights: 2, heights2: 2, shift: 1 }, ["1/0", "1/0 posted", "1/0~1", "0/0~2", "0/1~2", "fork 1", "fork 0"]]
];
async function inOrder(prep, k, names, rec) {
    const o = [...ORDERS, ...MORE][k][0];
    const { msgs } = history(o);
    const { n, model, me } = await fresh(prep, o);
    const trouble = [], trace = [];
    const feed = (ev, f, label) => feedBoth({ n, model, me, trouble, trace, rec }, ev, f, label);
    const mine = async () => {
        while (model.forks.length && VerifSM.next(model.state) === me.address && model.height < (model.forkCnt ? o.heights2 : o.heights)) {
            const h = model.height;
            await feed({ t: "play", data: add(1) }, () => (model.play(add(1), T0) ? "played" : "refused"), "own block");
            if (model.height === h) break;
        }
    };
    if (!names.includes("fork 0")) await feed(msgs["fork 0"].ev, () => msgs["fork 0"].apply(model), "fork 0");
    await mine();
    for (const x of names) {
        // nobody can confirm a block that isn't made yet
        if (msgs[x].own && !model.forks.some((f) => f.blocks.some((b) => b.bytes === msgs[x].bytes))) continue;
        await feed(msgs[x].ev, () => msgs[x].apply(model), x);
        await mine();
    }
    // once more
    for (const x of [names[0], names[names.length - 1]]) await feed(msgs[x].ev, () => msgs[x].apply(model), x + " again");
    rec.add("traces");
    rec.state([k, n.chainOf(0).length, n.chainOf(1).length, n.sm.state, n.chainOf(0).map((b) => b.sigs.length), n.chainOf(1).map((b) => b.sigs.length)]);
    if (trouble.length) rec.violation(`orders: ${trouble[0].replace(/[0-9a-f]{4}\b/g, "")}`, `${JSON.stringify(o)}: ${trace.join(", ")}: ${trouble.join(" | ")}`, { order: k, names });
    else rec.sample({ history: o, order: names, trace });
}
const tagOf = (devs, via, conf) => `${via}${conf ? " signed by " + conf.name : ""}: ${devs.map((d) => d.name.replace(/ [0-9a-fA-F]{4}$/, "")).join(" + ") || "valid"}`;
exports.prepare = K.prepare;
exports.run = async ({ opt, prep, rec, mine }) => {
    let i = 0;
    for await (const [s, devs, via, conf] of cases(prep, opt)) if (await mine(i++)) await one(prep, s, devs, via, conf, rec, tagOf(devs, via, conf));
    const os = opt.tier === "thorough" ? [...ORDERS, ...MORE] : ORDERS;
    for (let k = 0; k < os.length; k++) for (const names of orders(os[k][1])) if (await mine(i++)) await inOrder(prep, k, names, rec);
};
exports.replay = async (v, rec, prep, opt) => {
    if (v.names) return inOrder(prep, v.order, v.names, rec);
    for await (const [s, devs, via, conf] of cases(prep, { ...opt, tier: "thorough" }))
        if (s.name === v.s && via === v.via && (conf && conf.name) == v.conf && devs.map((d) => d.name).join() === v.devs.join()) return one(prep, s, devs, via, conf, rec, tagOf(devs, via, conf));
};
exports.expect = ({ counts, outcomes }) => (!outcomes.adopted || !outcomes.queued || !outcomes.invalid || !outcomes.conflict || !outcomes.confirmed ? "some verdict never occurred: " + JSON.stringify(outcomes) : null);
