"use strict";
// Exhaustive exploration of the schedules of one node: which event arrives, which asynchronous operation
// completes, which due timer fires next. Stateless: every schedule is a run of the real node from the start.
const N = require("./node");
const { drain } = require("./ts");

/** all outputs of a run, in order */
function sink() {
    return { sent: [], signed: [], calls: [], errors: [], events: [], closed: [], logs: [] };
}
const KINDS = Object.keys(sink());

/**
 * One run. mk() -> {n, ...} builds the node (in a quiet state); events: [{name, ev, after?: index}] ;
 * prefix: choices; returns {ctx, log, trail: [{n: number of alternatives, pick, label}]}.
 * bound: how many times an event may overtake (arrive while an operation or a due timer is outstanding), or an
 * operation may complete before an older one.
 */
async function runOne({ mk, events, hold, prefix, bound, onStep, faults = 0 }) {
    const ctx = await mk();
    const n = ctx.n;
    n.hold = new Set([...n.hold, ...hold]);
    n.o.holdTimers = true;
    const log = sink();
    const left = new Set(events.keys());
    const doneEv = new Set();
    const trail = [];
    const seen = new Set(); // blocks the node has sent
    let used = 0, failed = 0;
    const held = () => [...n.pending.entries()].filter(([, p]) => hold.includes(p.kind));
    for (let step = 0; ; step++) {
        if (step > 2000) {
            log.errors.push("the node never comes to rest");
            break;
        }
        const ops = held();
        const due = n.due();
        const busy = ops.length || due.length;
        const choices = [];
        ops.forEach(([id, p], i) => {
            const cost = i ? 1 : 0;
            if (used + cost > bound) return;
            choices.push({ label: "complete " + p.name, ev: { t: "ans", id }, cost });
            if (failed < faults && p.kind === "sign") choices.push({ label: "fail " + p.name, ev: { t: "ans", id, error: "refused" }, cost: cost, fault: 1 });
        });
        if (due.length && used + (ops.length ? 1 : 0) <= bound) choices.push({ label: "timer", ev: { t: "tick" }, cost: ops.length ? 1 : 0 });
        for (const k of left) {
            if (events[k].after !== undefined && !doneEv.has(events[k].after)) continue;
            if (events[k].when && !seen.has(events[k].when)) continue;
            // equal events are interchangeable
            if ([...left].some((j) => j < k && events[j].name === events[k].name)) continue;
            if (used + (busy ? 1 : 0) <= bound) choices.push({ label: events[k].name, k, cost: busy ? 1 : 0 });
        }
        if (!choices.length) break;
        const pick = step < prefix.length ? prefix[step] : 0;
        const c = choices[pick];
        trail.push({ n: choices.length, pick, label: c.label });
        used += c.cost;
        failed += c.fault || 0;
        let ev = c.ev;
        if (c.k !== undefined) {
            left.delete(c.k);
            doneEv.add(c.k);
            ev = typeof events[c.k].ev === "function" ? events[c.k].ev(ctx) : events[c.k].ev;
        }
        const out = await n.step(ev);
        for (const k of KINDS) for (const x of out[k]) log[k].push(k === "sent" || k === "calls" ? { ...x, step } : k === "signed" ? { hash: x, step } : x);
        for (const m of out.sent) {
            const x = JSON.parse(m.data);
            if (x.params[0] && x.params[0].encodedBlock) seen.add(x.params[0].encodedBlock);
        }
        if (onStep) onStep({ ctx, step, label: c.label, out, k: c.k });
    }
    return { ctx, log, trail };
}
/** leaves exploration mode and lets the node come to rest */
async function settle(n) {
    n.hold.delete("sm");
    n.hold.delete("sign");
    n.o.holdTimers = false;
    n.now += 0;
    return n.step({ t: "time" });
}
/** all schedules; visit(run) is awaited for each; returns their number */
async function explore(o, visit, limit = Infinity) {
    let stack = [[]], runs = 0;
    while (stack.length) {
        const prefix = stack.pop();
        const r = await runOne({ ...o, prefix });
        runs++;
        for (let i = r.trail.length - 1; i >= prefix.length; i--) for (let p = r.trail[i].n - 1; p > 0; p--) stack.push([...r.trail.slice(0, i).map((t) => t.pick), p]);
        await visit(r);
        if (runs >= limit) return { runs, complete: false };
    }
    return { runs, complete: true };
}
module.exports = { explore, runOne, settle };
