"use strict";
// The exploration that C14, C16 and C17 share (see court.js): situations x what the others do x schedules.
const C = require("./court");

/** o: {situations(tier), plans(tier, s) -> [{depth, bound, faults?}], judge(ctx, trail) -> [what], skip?(action) , note?(ctx) -> outcome} */
module.exports = function trials(o) {
    const name = (s) => `${s.np} participants, node ${s.me}, ${s.pre} blocks${s.agreed === false ? " not agreed upon" : ""}${s.hold ? ", slow " + s.hold : ""}${s.only ? ", race" : ""}`;
    async function* cases(prep, opt) {
        for (const s of o.situations(opt.tier)) {
            s.actions = C.actions(s, s);
            s.name = name(s);
            for (const p of o.plans(opt.tier, s)) {
                // every script of up to two actions, then any
                const firsts = await C.enabled(prep, s, []);
                for (const a of firsts) {
                    if (p.depth === 1) yield { s, script: [a], ...p };
                    else for (const b of p.bound ? s.actions.map((x) => x.name) : await C.enabled(prep, s, [a])) yield { s, script: [a, b], ...p };
                }
            }
        }
    }
    async function one(prep, c, rec, prefix) {
        const visit = async (r) => {
            const { ctx } = r;
            rec.transition(r.trail.length);
            rec.add("traces");
            await C.rest(ctx);
            const d = ctx.spec.c(require("./node").CH).dispute;
            rec.state([c.s.name, ctx.spec.latestFork(require("./node").CH), d && [d.forkCnt, d.challengeCnt, d.slashedParticipants, d.timedoutParticipant, d.postedStateDisputer, d.encodedLatestCorrectState], ctx.n.sm.state, ctx.submitted.map((x) => [x.name, x.ok, x.mined])]);
            rec.outcome(!d ? "no dispute" : d.slashedParticipants.length ? "somebody was slashed" : "somebody was timed out");
            const bad = [...new Set(o.judge(ctx, r.trail))];
            const what = r.trail.map((t) => t.label).join(", ");
            if (bad.length) rec.violation(o.key ? o.key(bad[0], ctx, c) : `${bad[0]}: ${c.script.join(", ")}`, `${c.s.name}: ${what}: ${bad.join("; ")}`, { s: c.s.name, script: c.script, depth: c.depth, bound: c.bound, faults: c.faults, prefix: r.trail.map((t) => t.pick) });
            else rec.sample({ situation: c.s.name, schedule: what, submitted: ctx.submitted.map((x) => x.name) });
        };
        const q = { prep, s: c.s, script: c.script, depth: c.depth, bound: c.bound, faults: c.faults };
        if (prefix) return visit(await C.runOne({ ...q, prefix }));
        await C.explore(q, visit);
    }
    return {
        prepare: require("./nodecheck").prepare,
        run: async ({ opt, prep, rec, mine }) => {
            let i = 0;
            for await (const c of cases(prep, opt)) if (await mine(i++)) await one(prep, c, rec);
        },
        replay: async (v, rec, prep, opt) => {
            for (const tier of ["quick", "thorough"])
                for (const s of o.situations(tier)) {
                    s.actions = C.actions(s, s);
                    s.name = name(s);
                    if (s.name === v.s) return one(prep, { ...v, s }, rec, v.prefix);
                }
        }
    };
};
