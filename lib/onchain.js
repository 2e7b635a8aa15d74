"use strict";
// Helpers shared by the on-chain explorations.
const { norm } = require("./world");

/** Short, stable text of an operation for replays and samples. */
const show = (x) => JSON.stringify(norm(x));

/**
 * Applies op on the real contracts and on the model from the current state, compares, and (unless
 * keep) undoes it. label identifies the case; returns {ok} (the model's verdict) .
 */
async function probe(w, rec, op, label, { keep = false, ids = [op.id], base, replay } = {}) {
    const s = keep ? null : base || (await w.snap());
    const before = { spec: w.spec, time: w.time };
    const r = await w.step(op);
    rec.transition();
    let bad = null;
    if (r.impl.ok !== r.model.ok) {
        bad = r.impl.ok
            ? { key: `accepted: ${r.model.why} [${label}]`, what: `the chain accepts what must be rejected (${r.model.why})` }
            : { key: `rejected: [${label}]`, what: `the chain rejects what must be accepted: ${r.impl.err}` };
    } else if (r.impl.ok) {
        for (const id of ids) {
            const d = await w.differs(id);
            if (d) {
                bad = {
                    key: `effect: ${d.field} [${label}]`,
                    what: `accepted, but ${d.field} is ${show(d.impl)} where ${show(d.model)} is due`
                };
                break;
            }
        }
        for (const id of ids) rec.state(show([id, w.expect(id)]));
    }
    rec.outcome(r.model.ok ? "accept" : "reject:" + r.model.why);
    if (bad) rec.violation(bad.key, bad.what, replay ? replay(op) : { ops: [norm(op)], label });
    if (!keep) {
        if (r.impl.ok) {
            await w.back(s);
            if (base) base.id = await w.chain.snapshot();
        } else {
            w.spec = before.spec;
            w.time = before.time;
        }
    }
    return r;
}
/** all k-subsets etc. */
function* subsets(a) {
    for (let m = 0; m < 1 << a.length; m++) yield a.filter((_, i) => m & (1 << i));
}
function* product(...lists) {
    if (!lists.length) {
        yield [];
        return;
    }
    const [h, ...t] = lists;
    for (const x of h) for (const r of product(...t)) yield [x, ...r];
}
module.exports = { probe, subsets, product, show };
/** all assignments of the factors that differ from the defaults (first values) in at most k places */
function* deviations(factors, k) {
    const names = Object.keys(factors);
    function* go(i, left, cur) {
        if (i === names.length) {
            yield { ...cur };
            return;
        }
        const vals = factors[names[i]];
        for (let v = 0; v < vals.length; v++) {
            if (v && !left) break;
            cur[names[i]] = vals[v];
            yield* go(i + 1, left - (v ? 1 : 0), cur);
        }
    }
    yield* go(0, k, {});
}
/**
 * Depth-first exploration of operation sequences with state matching: ops(w, depth, path) yields
 * [label, op]; every op is probed in every state; accepted ones are followed.
 * Sharded on (first, second) operation.
 */
async function explore(w, rec, { depth, ops, ids, shard, shards, monitor, from = [] }) {
    const seen = new Map();
    let idx = 0;
    async function visit(d, path) {
        const list = [...ops(w, d, path)];
        for (const [label, mk] of list) {
            const op = typeof mk === "function" ? mk() : mk;
            if (!op) continue;
            const here = idx;
            if (d === depth && (d > 1 || from.length)) {
                // leaves are divided among the shards
                if (idx++ % shards !== shard) continue;
            }
            const s = await w.snap();
            const p = [...path, [label, op]];
            const prev = monitor ? await monitor.before(w) : null;
            const r = await probe(w, rec, op, p.map((x) => x[0]).join(" ; "), {
                keep: true, ids, replay: () => ({ path: p.map((x) => x[0]) })
            });
            rec.add("traces");
            if (monitor) await monitor.after(w, prev, r, p);
            if (r.impl.ok && r.model.ok && d < depth) {
                const k = show(w.spec.ch) + w.time + (w.tag || "");
                if ((seen.get(k) || 0) < depth - d) {
                    seen.set(k, depth - d);
                    await visit(d + 1, p);
                }
            }
            if (r.model.ok) rec.sample(p.map((x) => x[0]));
            await w.back(s);
        }
    }
    await visit(1, from);
}
/** follow a recorded path of labels */
async function follow(w, rec, { path, ops, ids, monitor }) {
    const done = [];
    for (const l of path) {
        const e = [...ops(w, done.length + 1, done)].find((x) => x[0] === l);
        if (!e) return console.log("cannot follow: " + l);
        const op = typeof e[1] === "function" ? e[1]() : e[1];
        const prev = monitor ? await monitor.before(w) : null;
        done.push([l, op]);
        const r = await probe(w, rec, op, done.map((x) => x[0]).join(" ; "), { keep: true, ids });
        if (monitor) await monitor.after(w, prev, r, done);
    }
}
Object.assign(module.exports, { deviations, explore, follow });
