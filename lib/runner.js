"use strict";
// Runs one check: forks shard workers, merges what they measured, reports violations and known
// findings, writes the evidence file.
//   node run.js <ID> [--tier quick|thorough] [--replay FILE] [--jobs N]   (VERIF_FIRST=1: stop at the first violation)
const fs = require("fs");
const os = require("os");
const path = require("path");
const crypto = require("crypto");
const { fork } = require("child_process");
const VERIF = path.resolve(__dirname, "..");

function loadKnown() {
    const p = path.join(VERIF, "known-findings.json");
    return fs.existsSync(p) ? JSON.parse(fs.readFileSync(p, "utf8")) : [];
}

class Recorder {
    constructor() {
        this.counts = {};
        this.samples = [];
        this.outcomes = {};
        this.violations = [];
        this.vkeys = new Map();
        this.stateSet = new Set();
    }
    add(name, n = 1) {
        this.counts[name] = (this.counts[name] || 0) + n;
    }
    /** a distinct state (hash key) */
    state(key) {
        const k = crypto
            .createHash("sha1")
            .update(typeof key === "string" ? key : JSON.stringify(key, bigs))
            .digest("base64")
            .slice(0, 16);
        if (this.stateSet.has(k)) return false;
        this.stateSet.add(k);
        return true;
    }
    transition(n = 1) {
        this.add("transitions", n);
    }
    outcome(name) {
        this.outcomes[name] = (this.outcomes[name] || 0) + 1;
    }
    sample(x, max = 3) {
        if (this.samples.length < max) this.samples.push(x);
    }
    /** key: stable identity of the failing input / call site / history */
    violation(key, what, replay) {
        this.add("violating_executions");
        const n = this.vkeys.get(key) || 0;
        this.vkeys.set(key, n + 1);
        if (n === 0 && process.env.VERIF_FIRST && process.send) process.send({ first: key });
        if (n === 0 && this.violations.length < 200)
            this.violations.push({ key, what, replay });
    }
    dump() {
        return {
            counts: this.counts,
            samples: this.samples,
            outcomes: this.outcomes,
            violations: this.violations,
            states: [...this.stateSet]
        };
    }
}
const bigs = (_, v) => (typeof v === "bigint" ? "0x" + v.toString(16) : v);

function fail(e) {
    console.error(e && e.stack ? e.stack : e);
    process.exit(3);
}

async function main(argv) {
    const id = argv[0];
    const opt = { tier: process.env.VERIF_TIER || "quick" };
    for (let i = 1; i < argv.length; i++) {
        if (argv[i] === "--tier") opt.tier = argv[++i];
        else if (argv[i] === "--replay") opt.replay = argv[++i];
        else if (argv[i] === "--jobs") opt.jobs = +argv[++i];
    }
    const seed = parseInt(process.env.VERIF_SEED || "1", 10) || 1;
    const t0 = Date.now();
    const check = require(path.join(VERIF, "checks", id + ".js"));
    const prep = check.prepare ? await check.prepare(opt) : {};
    if (opt.replay) {
        const v = JSON.parse(fs.readFileSync(opt.replay, "utf8"));
        const rec = new Recorder();
        await check.replay(v.replay, rec, prep, opt);
        for (const x of rec.violations)
            console.log(`VIOLATION property=${id} replay=${opt.replay}\n  ${x.key}: ${x.what}`);
        console.log(rec.violations.length ? "reproduced" : "not reproduced");
        process.exit(rec.violations.length ? 1 : 0);
    }
    const jobs = Math.max(
        1,
        Math.min(opt.jobs || os.cpus().length, check.maxJobs || 64)
    );
    let tickets = 0;
    // VERIF_FIRST=1 (for trying out planted bugs): end at the first violation
    const kids = [];
    const first = (key) => {
        if (loadKnown().some((k) => k.property === id && k.key === key)) return;
        console.log(`${id} first: ${key}`);
        for (const c of kids) c.kill("SIGKILL");
        process.exit(1);
    };
    const parts = await Promise.all(
        [...Array(jobs).keys()].map(
            (i) =>
                new Promise((resolve, reject) => {
                    const c = fork(
                        path.join(VERIF, "run.js"),
                        ["--worker", id],
                        {
                            stdio: ["ignore", 2, 2, "ipc"],
                            execArgv: [
                                "--max-old-space-size=3500",
                                ...(check.execArgv || [])
                            ],
                            serialization: "advanced"
                        }
                    );
                    let got;
                    kids.push(c);
                    c.on("message", (m) => (m && m.first ? first(m.first) : m === "next" ? c.send({ ticket: tickets++ }) : m && m.states ? (got = m) : 0));
                    c.on("exit", (code) =>
                        got
                            ? resolve(got)
                            : reject(
                                  new Error(`worker ${i} of ${id} ended (${code}) without a result`)
                              )
                    );
                    c.send({ opt, prep, shard: i, shards: jobs, seed });
                })
        )
    ).catch(fail);
    const counts = {};
    const outcomes = {};
    const states = new Set();
    let samples = [];
    const vio = new Map();
    for (const p of parts) {
        for (const k in p.counts) counts[k] = (counts[k] || 0) + p.counts[k];
        for (const k in p.outcomes)
            outcomes[k] = (outcomes[k] || 0) + p.outcomes[k];
        for (const s of p.states) states.add(s);
        samples = samples.concat(p.samples);
        for (const v of p.violations) if (!vio.has(v.key)) vio.set(v.key, v);
    }
    const known = loadKnown().filter((k) => k.property === id && k.key);
    const seenKnown = new Set();
    const fresh = [];
    for (const v of vio.values()) {
        const k = known.find((k) => k.key === v.key);
        if (k) seenKnown.add(k.key);
        else fresh.push(v);
    }
    let problem = null;
    if (check.expect) problem = check.expect({ counts, outcomes, states: states.size }, opt);
    const evidence = {
        property: id,
        tier: opt.tier,
        seed,
        level: check.level || "model_checking",
        coverage: {
            states: states.size,
            transitions: counts.transitions || 0,
            traces_validated_against_impl: counts.traces || 0,
            samples: samples.slice(0, 6),
            exhaustive: true,
            bounds: check.bounds ? (check.bounds[opt.tier] || check.bounds) : "",
            counts,
            outcomes,
            known_findings_seen: seenKnown.size,
            workers: jobs
        },
        assumptions: check.assumptions || [],
        wall_s: (Date.now() - t0) / 1000,
        violations: fresh.length
    };
    fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
    fs.writeFileSync(
        path.join(VERIF, "evidence", id + ".json"),
        JSON.stringify(evidence, bigs, 1)
    );
    console.log(
        `${id} ${opt.tier}: states=${states.size} transitions=${counts.transitions || 0} ` +
            `traces=${counts.traces || 0} outcomes=${JSON.stringify(outcomes)} wall=${evidence.wall_s.toFixed(1)}s`
    );
    for (const k of known)
        if (seenKnown.has(k.key))
            console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
    if (fresh.length) {
        const dir = path.join(VERIF, "replays");
        fs.mkdirSync(dir, { recursive: true });
        for (const v of fresh.slice(0, 20)) {
            const h = crypto.createHash("sha1").update(v.key).digest("hex").slice(0, 10);
            const f = path.join(dir, `${id}-${h}.json`);
            fs.writeFileSync(
                f,
                JSON.stringify({ property: id, key: v.key, what: v.what, replay: v.replay }, bigs, 1)
            );
            console.log(`VIOLATION property=${id} replay=${f}`);
            console.log(`  ${v.key}: ${v.what}`);
        }
        process.exit(1);
    }
    if (problem) {
        console.error(`${id}: exploration is not what was intended: ${problem}`);
        process.exit(2);
    }
    process.exit(0);
}

/** hands out cases to whoever is free: mine(i) tells whether case i (asked for in order) is this worker's */
function tickets() {
    let ticket = null;
    return async (i) => {
        if (ticket === null || ticket < i)
            ticket = await new Promise((resolve) => {
                process.once("message", (m) => resolve(m.ticket));
                process.send("next");
            });
        return ticket === i;
    };
}
async function worker(id) {
    process.once("message", async (m) => {
        try {
            const check = require(path.join(VERIF, "checks", id + ".js"));
            const rec = new Recorder();
            await check.run({ ...m, rec, mine: tickets() });
            process.send(rec.dump(), () => process.exit(0));
        } catch (e) {
            fail(e);
        }
    });
}

module.exports = { main, worker, Recorder };
