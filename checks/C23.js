"use strict";
// The building blocks everything else relies on: locks, barriers, retries, scheduled tasks, collections of signatures, sets.
const { bundle, load, drain } = require("../lib/ts");

exports.level = "model_checking";
exports.assumptions = ["an operation that is refused throws; promises are JavaScript's own"];
exports.bounds = {
    quick: "lock: every program of up to 3 tasks (each 1-2 sections of 0-2 steps, ending well or not) in every interleaving with up to 10 steps, and every sequence of 9 lock/unlock calls; barrier: every sequence of 10 calls; retry: every outcome of up to 4 attempts (late, at once, failing late or at once), 0-3 retries, 3 delays, 3 factors; up to 3 scheduled tasks of 4 kinds and 3 delays; collections of signatures: every sequence of 5 of 9 operations; sets: every pair of subsets of 4 elements, in 2 orders",
    thorough: "12 lock/unlock calls, 13 of the barrier, 6 operations on collections, 4 tasks"
};
exports.prepare = async () => ({ file: await bundle() });

/** a world with its own clock */
function world(prep) {
    const w = { now: 0, timers: [], errors: 0, id: 0 };
    w.S = load(prep.file, {
        setTimeout: (f, ms) => (w.timers.push({ f, at: w.now + (ms || 0), id: ++w.id }), w.id),
        clearTimeout: (id) => void (w.timers = w.timers.filter((t) => t.id !== id))
    });
    w.tick = async () => {
        await drain();
        w.timers.sort((a, b) => a.at - b.at || a.id - b.id);
        const t = w.timers.shift();
        if (!t) return false;
        w.now = t.at;
        t.f();
        await drain();
        return true;
    };
    return w;
}
function* words(alphabet, n) {
    if (!n) return void (yield []);
    for (const w of words(alphabet, n - 1)) for (const a of alphabet) yield [...w, a];
}
const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);

const PARTS = {
    // lock() calls are served one at a time, in order; the next one by unlock(), which without any frees the lock
    async "lock calls"(w, thorough, rec, bad, mine) {
        for (const word of words(["L", "U"], thorough ? 12 : 9)) {
            if (!(await mine(word.slice(0, 4).join("")))) continue;
            const m = new w.S.utils.Mutex(), got = [], want = [];
            let held = 0, waiting = [], k = 0;
            for (const [i, x] of word.entries()) {
                if (x === "L") {
                    const id = k++;
                    m.lock().then(() => got.push(id));
                    if (held) waiting.push(id);
                    else (held = 1), want.push(id);
                } else if (held) {
                    m.unlock();
                    if (waiting.length) want.push(waiting.shift());
                    else held = 0;
                } // (an unlock without a lock isn't specified)
                if (word[i + 1] === "U") await drain(); // (who unlocks has been served)
            }
            await drain();
            rec.state("lock" + held + waiting.length);
            if (!eq(got, want)) bad("lock calls", word, `served: ${got} instead of ${want}`);
        }
    },
    // whole programs, in every interleaving of their steps
    async "lock programs"(w, thorough, rec, bad, mine) {
        const sections = [["."], ["..", "!"], ["", "."], ["!"]]; // a character is a step; ! ends a section in an error
        const programs = [];
        for (const a of sections) for (const b of sections) for (const c of [null, ...sections]) programs.push(c ? [a, b, c] : [a, b]);
        for (const p of programs) {
            if (!(await mine(JSON.stringify(p)))) continue;
            // choices: which pending step goes on
            const run = async (choices) => {
                const m = new w.S.utils.Mutex(), pend = [], log = [];
                let inside = 0, over = 0, order = [], entered = [];
                const task = async (id) => {
                    for (const [k, s] of p[id].entries()) {
                        await new Promise((r) => pend.push({ id, r }));
                        order.push(id + "" + k);
                        await m.lock();
                        entered.push(id + "" + k);
                        inside++;
                        if (inside > 1) log.push("two are inside");
                        try {
                            for (const c of s) {
                                await new Promise((r) => pend.push({ id, r }));
                                if (c === "!") throw new Error("x");
                            }
                        } catch {
                        } finally {
                            inside--;
                            m.unlock();
                        }
                    }
                    over++;
                };
                p.forEach((_, id) => void task(id));
                await drain();
                const branching = [];
                for (let i = 0; pend.length; i++) {
                    pend.sort((a, b) => a.id - b.id);
                    const c = choices[i] ?? 0;
                    branching.push(pend.length);
                    pend.splice(c, 1)[0].r();
                    await drain();
                    if (i > 60) return { log: ["never ends"], branching };
                }
                if (over !== p.length) log.push(over + " of " + p.length + " tasks come to an end");
                else if (!eq(order, entered)) log.push(`entered in the order ${entered} instead of ${order}`);
                return { log, branching };
            };
            const go = async (choices) => {
                const r = await run(choices);
                rec.add("traces");
                rec.transition(r.branching.length);
                if (r.log.length) return bad("lock programs", [p, choices], r.log[0]);
                for (let i = choices.length; i < Math.min(10, r.branching.length); i++) for (let c = 1; c < r.branching[i]; c++) await go([...choices, ...Array(i - choices.length).fill(0), c]);
            };
            await go([]);
        }
    },
    async barrier(w, thorough, rec, bad, mine) {
        for (const word of words(["P", "A"], thorough ? 13 : 10)) {
            if (!(await mine(word.slice(0, 4).join("")))) continue;
            const b = w.S.utils.BarrierLocal.createNewInstance(), got = [], want = [];
            let free = 0, waiting = [], k = 0;
            for (const x of word) {
                if (x === "P") {
                    const id = k++;
                    b.tryPass().then(() => got.push(id));
                    if (free) free--, want.push(id);
                    else waiting.push(id);
                } else {
                    b.allowOne();
                    if (waiting.length) want.push(waiting.shift());
                    else free++;
                }
                await null;
            }
            await drain();
            rec.state("barrier" + free + "/" + waiting.length);
            if (!eq(got, want)) bad("barrier", word, `passed: ${got} instead of ${want}`);
        }
    },
    async retry(w, thorough, rec, bad, mine) {
        const outcomes = ["ok", "late", "fail", "late fail", "throw"];
        const configs = [];
        for (const maxRetries of [0, 1, 2, 3])
            for (const delayMs of [undefined, 0, 100])
                for (const [useExponentialBackoff, backoffFactor] of [[undefined], [false, 3], [true, undefined], [true, 3], [true, 1]])
                    for (const told of [true, false]) configs.push({ maxRetries, delayMs, useExponentialBackoff, backoffFactor, told });
        for (const c of configs) {
            if (!(await mine(JSON.stringify(c)))) continue;
            for (const word of words(outcomes, c.maxRetries + 1)) {
                const first = word.findIndex((o) => o === "ok" || o === "late");
                if (first >= 0 && word.slice(first + 1).some((o) => o !== "ok")) continue; // (never reached)
                const calls = [], told = [];
                const errors = word.map((_, i) => new Error("e" + i));
                const t0 = w.now;
                let at = 0, want = [], wantTold = [], n = first < 0 ? word.length : first + 1;
                for (let i = 0; i < n; i++) {
                    want.push(at);
                    if (word[i].startsWith("late")) at += 7;
                    if (i < n - 1 || (first < 0 && i < c.maxRetries)) {
                        wantTold.push([i + 1, i]);
                        at += c.delayMs ? c.delayMs * (c.useExponentialBackoff ? Math.pow(c.backoffFactor ?? 2, i) : 1) : 0;
                    }
                }
                let res = "nothing";
                const f = () => {
                    const i = calls.push(w.now - t0) - 1, o = word[i] ?? "ok";
                    if (o === "throw") throw errors[i];
                    const end = (r, j) => (o.endsWith("fail") ? j(errors[i]) : r("v" + i));
                    return new Promise((r, j) => (o.startsWith("late") ? w.timers.push({ at: w.now + 7, id: ++w.id, f: () => end(r, j) }) : end(r, j)));
                };
                const config = { ...c };
                delete config.told;
                for (const k in config) if (config[k] === undefined) delete config[k];
                if (c.told) config.onRetry = (k, e) => told.push([k, errors.indexOf(e)]);
                w.S.utils.retry(f, config).then((v) => (res = v), (e) => (res = e));
                await null;
                for (let i = 0; res === "nothing" && i < 40; i++) await w.tick();
                const wantRes = first < 0 ? errors[word.length - 1] : "v" + first;
                rec.state(["retry", c.maxRetries, first, told.length].join());
                if (!eq(calls, want)) bad("retry", [c, word], `called at ${calls} instead of ${want}`);
                else if (res !== wantRes) bad("retry", [c, word], `ends with ${res} instead of ${wantRes}`);
                else if (c.told && !eq(told, wantTold)) bad("retry", [c, word], `tells of ${JSON.stringify(told)} instead of ${JSON.stringify(wantTold)}`);
                else if (w.now - t0 !== at) bad("retry", [c, word], `ends at ${w.now - t0} instead of ${at}`);
            }
        }
    },
    async scheduled(w, thorough, rec, bad, mine) {
        const kinds = ["ok", "throws", "rejects", "waits"], delays = [0, 5, 1000];
        const tasks = kinds.flatMap((k) => delays.map((d) => ({ k, d })));
        for (const word of words(tasks, thorough ? 4 : 3)) {
            if (!(await mine(word[0].k + word[1].d))) continue;
            const got = [], t0 = w.now;
            let lost = 0;
            const onLost = () => lost++;
            process.on("unhandledRejection", onLost);
            for (const [i, t] of word.entries())
                w.S.utils.scheduleTask(() => {
                    got.push(i + "@" + (w.now - t0));
                    if (t.k === "throws") throw new Error("x");
                    if (t.k === "rejects") return Promise.reject(new Error("x"));
                    if (t.k === "waits") return new Promise(() => {});
                }, t.d, "task " + i);
            const early = got.length;
            try {
                while (await w.tick());
            } catch (e) {
                bad("scheduled", word, "an error escapes: " + e.message);
                w.timers = [];
            }
            await drain();
            process.off("unhandledRejection", onLost);
            const want = word.map((t, i) => [t.d, i]).sort((a, b) => a[0] - b[0] || a[1] - b[1]).map(([d, i]) => i + "@" + d);
            rec.state(["scheduled", ...word.map((t) => t.k)].join());
            if (early) bad("scheduled", word, "a task runs at once");
            else if (!eq(got, want)) bad("scheduled", word, `runs ${got} instead of ${want}`);
            else if (lost) bad("scheduled", word, "an error isn't handled");
        }
    },
    async signatures(w, thorough, rec, bad, mine) {
        const ops = ["a:A1", "a:A2", "a:B1", "a:C1", "b:A1", "b:B1", "remove a", "remove b", "clear"];
        for (const word of words(ops, thorough ? 6 : 5)) {
            if (!(await mine(word.slice(0, 2).join()))) continue;
            const c = new w.S.utils.SignatureCollectionMap(), m = new Map();
            for (const o of word) {
                if (o === "clear") c.clear(), m.clear();
                else if (o.startsWith("remove")) c.remove(o[7]), m.delete(o[7]);
                else {
                    const key = o[0], v = { signerAddress: o[2], signature: o.slice(2) };
                    c.tryInsert(key, { ...v });
                    if (!m.has(key)) m.set(key, []);
                    if (!m.get(key).some((x) => x.signerAddress === o[2])) m.get(key).push(v);
                }
            }
            const view = (x) => JSON.stringify([...x].sort((p, q) => (p[0] < q[0] ? -1 : 1)));
            rec.state(view(m));
            if (view(c.entries()) !== view(m)) bad("signatures", word, `holds ${view(c.entries())} instead of ${view(m)}`);
            for (const key of ["a", "b", "c"]) {
                if (c.has(key) !== m.has(key)) bad("signatures", word, "has " + key);
                if (!eq(c.get(key), m.get(key) || [])) bad("signatures", word, "get " + key);
                for (const who of [[], ["A"], ["A", "B"], ["B", "C"], ["A", "B", "C"], ["D"]])
                    if (c.didEveryoneSign(key, who) !== who.every((x) => (m.get(key) || []).some((y) => y.signerAddress === x))) bad("signatures", word, `did ${who} sign ${key}`);
            }
            if (c.size() !== m.size) bad("signatures", word, "size");
        }
    },
    async sets(w, thorough, rec, bad, mine) {
        const U = w.S.utils, E = ["p", "q", "r", "s"];
        const all = [...Array(16).keys()].flatMap((k) => { const x = E.filter((_, i) => k & (1 << i)); return [x, [...x].reverse()]; });
        if (!U.union) return void rec.add("no sets"); // (not exported)
        for (const a of all) {
            if (!(await mine(a.join()))) continue;
            for (const b of all) {
                const A = new Set(a), B = new Set(b), s = (x) => [...x].sort().join("");
                const want = { union: E.filter((x) => A.has(x) || B.has(x)), intersection: E.filter((x) => A.has(x) && B.has(x)), difference: E.filter((x) => A.has(x) && !B.has(x)), symmetricDifference: E.filter((x) => A.has(x) !== B.has(x)) };
                for (const f in want) {
                    if (s(U[f](A, B)) !== want[f].join("")) bad("sets", [f, a, b], `${f}: ${s(U[f](A, B))}`);
                    if (!eq([...A], [...new Set(a)]) || !eq([...B], [...new Set(b)])) bad("sets", [f, a, b], f + " changes what it's given");
                }
                if (U.isSubset(A, B) !== a.every((x) => B.has(x))) bad("sets", ["isSubset", a, b], "isSubset");
                if (U.isSuperset(A, B) !== b.every((x) => A.has(x))) bad("sets", ["isSuperset", a, b], "isSuperset");
                if (!eq(U.excludeFromArray(a, B), a.filter((x) => !B.has(x)))) bad("sets", ["excludeFromArray", a, b], "excludeFromArray");
                rec.state("sets" + s(A) + "/" + s(B));
            }
        }
    }
};
async function part(prep, name, opt, rec, bad, mine) {
    const w = world(prep);
    let n = 0;
    await PARTS[name](w, opt.tier === "thorough", { ...proxy(rec), add: (k, v) => rec.add(k, v) }, (p, x, what) => bad(p, x, what), async (key) => {
        const r = await mine(key);
        if (r) n++;
        return r;
    });
    return n;
}
const proxy = (rec) => ({ state: (x) => (rec.state(x), rec.add("traces"), rec.transition()), transition: (n) => rec.transition(n) });
exports.run = async ({ opt, prep, rec, mine }) => {
    let i = 0;
    for (const name of Object.keys(PARTS)) {
        const cases = new Map(); // case -> is it this worker's
        let n = 0;
        n = await part(prep, name, opt, rec, (p, x, what) => rec.violation(p + ": " + what.replace(/\d+/g, "#").slice(0, 100), `${p}: ${JSON.stringify(x)}: ${what}`, { name: p, x }), async (key) => {
            if (!cases.has(key)) cases.set(key, await mine(i++));
            return cases.get(key);
        });
        if (n) rec.outcome(name);
        rec.sample({ part: name }, 3);
    }
};
exports.replay = async (v, rec, prep) => {
    let hit = false;
    await part(prep, v.name, { tier: "quick" }, rec, (p, x, what) => {
        if (hit || !eq(x, v.x)) return;
        hit = true;
        rec.violation(p + ": " + what, JSON.stringify(x), v);
    }, async () => true);
};
exports.expect = ({ outcomes }) => (Object.keys(PARTS).every((p) => outcomes[p]) ? null : "a part has not been looked at");
