"use strict";
// The EVM inside a node executes its state machine exactly as the contract says, whatever is called in
// whatever order and however calls overlap.
const { bundle, load, ethers } = require("../lib/ts");
const { compile } = require("../lib/solc");
const N = require("../lib/node");
const { W, X } = require("../lib/blocks");
const { VerifSM, CH, T0 } = N;
const ZERO = "0x" + "0".repeat(40);
const MAX = (1n << 256n) - 1n;

exports.level = "model_checking";
exports.assumptions = ["the reference is the one the on-chain checks (C03-C08) use for the same contract"];
exports.bounds = {
    quick: "5 start states; all operations, and in 2 of them all sequences of 2 of 38 operations (transitions good, bad, unauthorised, malformed, reentrant; views, also of functions that change state; setState good and malformed), followed by a probe transition; all ordered pairs of 14 operations with the second started after every 40th step of the first; every deployment outcome",
    thorough: "all sequences of 3 operations; overlaps at every 3rd step; triples of 6 operations"
};
const st = (number, np) => VerifSM.encode({ number, participants: W.slice(0, np).map((w) => w.address), balances: W.slice(0, np).map((_, i) => BigInt(100 + i)) });
const STARTS = { fresh: null, one: st(0n, 1), three: st(0n, 3), full: st(MAX - 1n, 2), nobody: st(5n, 0) };
const HUGE = VerifSM.encode({ number: 1n, participants: Array(900).fill(W[0].address), balances: Array(900).fill(1n) });
const header = (w, over) => ({ channelId: CH, participant: w.address, forkCnt: 0, transactionCnt: 0, timestamp: T0, ...over });
const tx = (w, data, over) => ({ header: header(w, over), body: { transactionType: 0, encodedData: data, data } });

exports.prepare = async () => {
    const art = (await compile(["verif/VerifExecution.sol:VerifExecution"])).VerifExecution;
    return { abi: JSON.stringify(art.abi), bytecode: "0x" + art.bytecode, file: await bundle() };
};
let ctx;
function context(prep) {
    if (ctx) return ctx;
    iface = new ethers.Interface(prep.abi);
    const S = load(prep.file, {});
    const e = (f, ...a) => iface.encodeFunctionData(f, a);
    return (ctx = { iface, S, e, deploy: (data) => S.evm.EvmStateMachine.createStandalone({ data: data ?? prep.bytecode }, iface) });
}
const addEvent = (who, n) => "Added " + who + " " + n;

/** the model: {state (decoded), last: participant of the last successful transition} */
const EMPTY = () => ({ state: VerifSM.encode({ number: 0n, participants: [], balances: [] }), last: ZERO });
let iface;
function transition(m, t) {
    let call = null;
    try {
        call = iface.parseTransaction({ data: t.body.data });
    } catch {}
    const s = VerifSM.decode(m.state), who = t.header.participant;
    const ok = (events) => ({ r: "ok", events, m: { state: VerifSM.encode(s), last: who } });
    switch (call && call.name) {
        case "seen":
            s.number = BigInt(t.header.timestamp);
            return ok([
                ["Seen", t.header.channelId, who, t.header.forkCnt, t.header.transactionCnt, t.header.timestamp, t.body.encodedData].join(" "),
                ["Text", ethers.id(call.args[0]), call.args[0], [...call.args[1]]].join(" "),
                addEvent(who, call.args[1].length)
            ]);
        case "leave": {
            const i = s.participants.indexOf(who);
            if (i < 0) return { r: "failed", events: [], m };
            VerifSM.drop(s, i);
            return ok([]);
        }
        case "enter":
            s.participants.push(call.args[0]);
            s.balances.push(1n);
            return ok([]);
        case "failing":
            if (call.args[0] > 6n) {
                s.number += 1n;
                if (s.number <= MAX) return ok([addEvent(who, call.args[0])]);
            }
            return { r: "failed", events: [], m };
    }
    return known(m, t);
}
function known(m, t) {
    const r = VerifSM.transition(m.state, { header: t.header, body: t.body });
    if (!r.ok) return { r: "failed", events: [], m };
    const call = VerifSM.parse(t.body.data);
    return { r: "ok", events: call && call.fn === "add" ? [addEvent(t.header.participant, call.args[0])] : [], m: { state: r.state, last: t.header.participant } };
}
/** operations: run(sm) on the real machine, model(m) -> {r, m, events} */
function operations({ iface, e }) {
    const ops = {};
    const trans = (name, t) => (ops[name] = {
        run: async (sm, log) => {
            const x = await sm.stateTransition(t);
            return { r: x.success ? "ok" : "failed", emit: x.successCallback };
        },
        model: (m) => transition(m, t)
    });
    const view = (name, data, model) => (ops["view " + name] = {
        run: async (sm) => {
            try {
                return { r: "ok " + (await sm.runView({ data })) };
            } catch (err) {
                return { r: "failed" };
            }
        },
        model: (m) => ({ r: model(m), m, events: [] })
    });
    const ret = (f, v) => "ok " + iface.encodeFunctionResult(f, v);
    trans("add 1 by 0", tx(W[0], e("add", 1)));
    trans("add 1 by 1", tx(W[1], e("add", 1)));
    trans("add 3 by 2", tx(W[2], e("add", 3), { forkCnt: 3, transactionCnt: 9 }));
    trans("add 0 by 0", tx(W[0], e("add", 0), { timestamp: MAX }));
    trans("add by an outsider", tx(X, e("add", 1)));
    trans("pay 1 40 by 0", tx(W[0], e("pay", 1, 40)));
    trans("overspend by 0", tx(W[0], e("pay", 1, 101)));
    trans("pay nobody by 0", tx(W[0], e("pay", 7, 1)));
    trans("nudge 1 by 1", tx(W[1], e("nudge", 1)));
    trans("overflow by 1", tx(W[1], e("nudge", MAX)));
    trans("fail by 0", tx(W[0], e("fail")));
    trans("unknown function", tx(W[0], "0xdeadbeef"));
    trans("no data", tx(W[0], "0x"));
    trans("cut data", tx(W[0], e("add", 1).slice(0, -2)));
    trans("failing 0", tx(W[0], e("failing", 0)));
    trans("failing 3", tx(W[0], e("failing", 3)));
    trans("seen", { header: header(W[1], { forkCnt: 3, transactionCnt: 9, timestamp: T0 + 1 }), body: { transactionType: 1, encodedData: "0x0102", data: e("seen", "text", [3, 4]) } });
    trans("leave by 1", tx(W[1], e("leave")));
    trans("enter 3", tx(W[0], e("enter", X.address)));
    trans("nested setState", tx(W[0], e("setState", STARTS.one)));
    trans("nested transition", tx(W[0], e("stateTransition", tx(W[0], e("add", 1)))));
    trans("nested slash", tx(W[0], e("slashParticipant", W[1].address)));
    ops["getter as transition"] = {
        run: async (sm) => { const x = await sm.stateTransition(tx(W[1], e("getState"))); return { r: x.success ? "ok" : "failed", emit: x.successCallback }; },
        model: (m) => ({ r: "ok", events: [], m: { state: m.state, last: W[1].address } })
    };
    const direct = (name, f, w, args) => view(name, e(f, ...args), (m) => {
        const r = VerifSM.transition(m.state, { header: { participant: m.last }, body: { data: e(f, ...args) } });
        if (!r.ok) return "failed";
        return f === "add" ? ret("add", [VerifSM.decode(r.state).number]) : "ok 0x";
    });
    view("getState", e("getState"), (m) => ret("getState", [m.state]));
    view("getNextToWrite", e("getNextToWrite"), (m) => ret("getNextToWrite", [VerifSM.next(m.state)]));
    direct("nudge", "nudge", null, [1]);
    direct("add", "add", null, [1]);
    direct("fail", "fail", null, []);
    view("transition", e("stateTransition", tx(W[0], e("add", 1))), (m) => (transition(m, tx(W[0], e("add", 1))).r === "ok" ? ret("stateTransition", [true]) : "failed"));
    view("setState", e("setState", STARTS.one), () => "ok 0x");
    view("failing 3", e("failing", 3), () => "failed");
    view("slash", e("slashParticipant", W[0].address), (m) => {
        const r = VerifSM.slash(m.state, W[0].address);
        const x = r.ok ? r.exit : { participant: ZERO, amount: 0n, data: "0x" };
        return ret("slashParticipant", [r.ok, x]);
    });
    view("unknown function", "0xdeadbeef", () => "failed");
    const set = (name, s, ok) => (ops["set " + name] = {
        run: async (sm) => {
            try {
                return { r: (await sm.setState(s)) ? "ok true" : "failed" };
            } catch {
                return { r: "failed" };
            }
        },
        model: (m) => (ok ? { r: "ok true", m: { ...m, state: s }, events: [] } : { r: "failed", m, events: [] })
    });
    set("three", st(7n, 3), true);
    set("one", st(1n, 1), true);
    set("malformed", "0x1234", false);
    set("empty", "0x", false);
    // more than the machine can take: refused, or done
    set("huge", HUGE, true);
    ops["set huge"].perhaps = ops["set huge"].single = true;
    for (const n of [1, 2, 4, 5, 6, 9]) {
        trans("failing " + n, tx(W[0], e("failing", n)));
        ops["failing " + n].single = true;
    }
    for (const n of [0, 1, 4, 5, 6]) {
        view("failing " + n, e("failing", n), () => "failed");
        ops["view failing " + n].single = true;
    }
    // getters of the node
    const get = (name, f) => (ops[name] = { run: async (sm) => ({ r: String(await sm[name]()) }), model: (m) => ({ r: String(f(m.state)), m, events: [] }) });
    get("getState", (s) => s);
    get("getNextToWrite", VerifSM.next);
    get("getParticipants", VerifSM.participants);
    return ops;
}
async function observe(sm) {
    const r = {};
    for (const f of ["getState", "getNextToWrite", "getParticipants"])
        try {
            r[f] = String(await sm[f]());
        } catch (e) {
            r[f] = "failed " + e.message;
        }
    return r;
}
const expected = (m) => ({ getState: m.state, getNextToWrite: String(VerifSM.next(m.state)), getParticipants: String(VerifSM.participants(m.state)) });
const diff = (a, b) => Object.keys(b).filter((k) => a[k] !== b[k]);
function eventsOf(sm) {
    const seen = [];
    const show = (x) => (x && x.hash && x._isIndexed ? x.hash : Array.isArray(x) ? [...x] : x);
    sm.setP2pContractInstance({ emit: (name, ...a) => seen.push([name, ...a.map(show)].join(" ")) });
    return seen;
}
async function machine(c, start) {
    const sm = await c.deploy();
    const seen = eventsOf(sm);
    if (STARTS[start]) await sm.setState(STARTS[start]);
    const m = EMPTY();
    if (STARTS[start]) m.state = STARTS[start];
    return { sm, m, seen };
}
/** the operations one after the other; the events of each are asked for at the end, in both orders */
async function sequence(prep, start, names, rec) {
    const c = context(prep), ops = operations(c);
    let { sm, m, seen } = await machine(c, start);
    const trouble = [], callbacks = [];
    const check = async (label) => {
        const d = diff(await observe(sm), expected(m));
        if (d.length) trouble.push(`${label}: ${d.join()} differs`);
    };
    for (const name of [...names, "add 1 by 0"]) {
        let want = ops[name].model(m);
        const got = await ops[name].run(sm);
        if (ops[name].perhaps && got.r === "failed") want = { ...want, r: "failed", m };
        m = want.m;
        rec.transition();
        rec.outcome((name.startsWith("view") ? "view " : "") + want.r.split(" ")[0].slice(0, 6).replace(/^0x.*/, "value"));
        if (got.r !== want.r) trouble.push(`${name}: ${got.r.slice(0, 80)} instead of ${want.r.slice(0, 80)}`);
        if (seen.length) trouble.push(`${name}: event before the transaction was accepted`), (seen.length = 0);
        if (got.emit) callbacks.push([name, got.emit, want.events]);
        await check(name);
        rec.state([m]);
    }
    for (const [name, f, want] of callbacks.reverse()) {
        seen.length = 0;
        try {
            f();
        } catch (e) {
            trouble.push(`${name}: events: ${e.message}`);
        }
        if (seen.join() !== want.join()) trouble.push(`${name}: events ${seen.join()} instead of ${want.join()}`);
    }
    await check("after the events");
    rec.add("traces");
    if (trouble.length) rec.violation(`sequence: ${trouble[0].replace(/0x[0-9a-f]+/g, "")}`, `${start}: ${names.join(", ")}: ${trouble.join(" | ")}`, { kind: "sequence", start, names });
    else rec.sample({ start, names });
}
const OVERLAP = ["add 1 by 0", "add 1 by 1", "pay 1 40 by 0", "overspend by 0", "nudge 1 by 1", "fail by 0", "nested setState", "view nudge", "view fail", "view getState", "set three", "set malformed", "getNextToWrite", "getState"];
const TRIPLE = ["add 1 by 0", "nudge 1 by 1", "fail by 0", "view nudge", "set three", "getState"];
function orders(a) {
    if (a.length < 2) return [a];
    return a.flatMap((x, i) => orders([...a.slice(0, i), ...a.slice(i + 1)]).map((r) => [x, ...r]));
}
/** the operations, each started so many steps after the previous one: as if they came one at a time */
async function overlap(prep, start, names, stride, rec) {
    const c = context(prep), ops = operations(c);
    const begin = EMPTY();
    if (STARTS[start]) begin.state = STARTS[start];
    const allowed = new Map();
    for (const o of orders(names.map((_, i) => i))) {
        let m = begin;
        const res = [];
        for (const i of o) {
            const w = ops[names[i]].model(m);
            m = w.m;
            res[i] = w.r;
        }
        allowed.set(JSON.stringify([res, expected(m)]), { m, o });
    }
    let made = await machine(c, start);
    let done = false;
    for (let gap = 0; !done; gap += stride) {
        if (STARTS[start]) await made.sm.setState(STARTS[start]);
        else made = await machine(c, start);
        const { sm } = made;
        const running = [];
        let ended = 0;
        for (const name of names) {
            if (running.length) for (let i = 0; i < gap; i++) await 0;
            // once the first ends before the second starts, all offsets are covered
            if (running.length && ended === running.length) done = true;
            running.push(ops[name].run(sm).then((r) => (ended++, r), (e) => (ended++, { r: "error " + e.message })));
        }
        const res = (await Promise.all(running)).map((x) => x.r);
        const ob = await observe(sm);
        const ok = allowed.get(JSON.stringify([res, ob]));
        const trouble = [];
        if (!ok) trouble.push(`results ${res.map((x) => x.slice(0, 30)).join(" / ")}, differing from one at a time`);
        else {
            // and it goes on
            const t = ops["nudge 1 by 1"], w = t.model(ok.m), g = await t.run(sm);
            if (g.r !== w.r || diff(await observe(sm), expected(w.m)).length) trouble.push("wrong afterwards");
        }
        rec.transition(names.length + 1);
        rec.add("schedules");
        rec.state([start, names, res, ob.getState]);
        if (trouble.length) {
            rec.violation(`overlap: ${names.join(" / ")}`, `${start}: ${names.join(" / ")} with ${gap} steps between: ${trouble.join(" | ")}`, { kind: "overlap", start, names, stride });
            return;
        }
        // a machine of which the hidden last participant may differ starts again
        if (gap % (stride * 16) === 0) made = await machine(c, start);
    }
    rec.add("traces");
}
async function deployments(prep, rec) {
    const c = context(prep);
    const cases = { "contract": [prep.bytecode, true], "constructor reverts": ["0x60006000fd", false], "invalid code": ["0xfe", false] };
    for (const k in cases) {
        let ok = true, sm;
        try {
            sm = await c.deploy(cases[k][0]);
            if (cases[k][1] && diff(await observe(sm), expected(EMPTY())).length) ok = "different";
        } catch {
            ok = false;
        }
        rec.transition();
        if (ok !== cases[k][1]) rec.violation("deployment: " + k, `${k}: ${ok}`, { kind: "deployment" });
    }
    // two machines are two machines
    const a = await c.deploy(), b = await c.deploy();
    await a.setState(STARTS.three);
    if (diff(await observe(b), expected(EMPTY())).length) rec.violation("deployment: shared", "two machines share their state", { kind: "deployment" });
    rec.add("traces");
}
exports.run = async ({ opt, prep, rec, mine }) => {
    const deep = opt.tier === "thorough";
    const ops = operations(context(prep));
    const names = Object.keys(ops).filter((x) => !ops[x].single);
    const stride = deep ? 3 : 40;
    let i = 0;
    if (await mine(i++)) await deployments(prep, rec);
    for (const start of ["three", "fresh"]) for (const a of OVERLAP) for (const b of OVERLAP) if (start === "three" || deep) if (await mine(i++)) await overlap(prep, start, [a, b], stride, rec);
    for (const a of TRIPLE) for (const b of TRIPLE) for (const c of TRIPLE) if (deep || (a !== b && b !== c && c !== a)) if (await mine(i++)) await overlap(prep, "three", [a, b, c], deep ? 30 : 150, rec);
    for (const x of Object.keys(ops).filter((x) => ops[x].single)) for (const start of ["three", "full"]) if (await mine(i++)) await sequence(prep, start, [x], rec);
    for (const start in STARTS)
        for (const a of names) {
            if (!(await mine(i++))) continue;
            if (!deep && start !== "three" && start !== "full") {
                await sequence(prep, start, [a], rec);
                continue;
            }
            for (const b of names)
                if (!deep) await sequence(prep, start, [a, b], rec);
                else for (const c of names) await sequence(prep, start, [a, b, c], rec);
        }
};
exports.replay = async (v, rec, prep) => {
    if (v.kind === "sequence") return sequence(prep, v.start, v.names, rec);
    if (v.kind === "overlap") return overlap(prep, v.start, v.names, v.stride, rec);
    return deployments(prep, rec);
};
exports.expect = ({ counts, outcomes }) => (!outcomes.ok || !outcomes.failed || !outcomes["view ok"] || !outcomes["view failed"] || !counts.schedules ? "some outcome never occurred: " + JSON.stringify(outcomes) : null);
