"use strict";
// Writes DESIGN.md: node tools/design.js
const fs = require("fs"), path = require("path");
const V = path.resolve(__dirname, ".."), D = path.join(__dirname, "design");
const notes = require("./design/notes");
const times = JSON.parse(fs.readFileSync(path.join(D, "times.json")));
const props = fs.readFileSync(path.join(V, "properties.jsonl"), "utf8").trim().split("\n").map((l) => JSON.parse(l)).sort((a, b) => (a.id < b.id ? -1 : 1));
const man = JSON.parse(fs.readFileSync(path.join(V, "MANIFEST.json")));
const bugs = (dir) => fs.readdirSync(path.join(V, dir)).sort().map((id) => ({ id, dir, ...JSON.parse(fs.readFileSync(path.join(V, dir, id, "meta.json"))) }));
const all = [...bugs("seeded"), ...bugs("onchain-bugs")];
const caught = JSON.parse(fs.readFileSync(path.join(D, "caught.json")));
const cell = (s) => String(s).replace(/\|/g, "/").replace(/\n/g, " ");
let out = fs.readFileSync(path.join(D, "head.md"), "utf8");
for (const p of props) {
    const c = man.checks.find((x) => x.property === p.id), m = require(path.join(V, "checks", p.id + ".js"));
    const b = typeof m.bounds === "string" ? { quick: m.bounds } : m.bounds, t = times[p.id] || [];
    out += `\n### ${p.id} ${p.title}\n\n`;
    if (!c) { out += "Not claimed: " + man.not_applicable.find((n) => n.property === p.id).reason + "\n"; continue; }
    out += `*Technique:* ${c.technique}.\n\n*How:* ${(notes[p.id] || {}).how || "?"}\n\n*Bounds (quick):* ${b.quick}.\n\n`;
    if (b.thorough) out += `*Bounds (thorough):* ${b.thorough}.\n\n`;
    if ((m.assumptions || []).length) out += `*Assumes:* ${m.assumptions.join("; ")}.\n\n`;
    out += `*Why tests can't:* ${p.why_tests_cant}\n\n*Cost:* ${t[0] ? "quick " + t[0] + " s" : ""}${t[1] ? ", thorough " + t[1] + " s" : ""} on 8 cores.\n`;
}
out += "\n## Planted bugs and what catches them\n\n`seeded/` holds those that count for vcheck (TypeScript). `onchain-bugs/` holds the same for the contracts. Each compiles and passes the existing tests, and has a demonstration. \"quick\"/\"thorough\" is the tier of the property's check that reports it; a bug some check missed at first led to the deepening named in the last column.\n\n| bug | property | what it breaks | needs | caught by | missed at first |\n|---|---|---|---|---|---|\n";
for (const b of all) out += `| ${b.id}${b.dir === "onchain-bugs" ? " (contracts)" : ""} | ${b.property} | ${cell(b.what_it_breaks)} | ${cell(b.needs)} | ${(caught[b.id] || ["?"])[0]} | ${cell((caught[b.id] || [])[1] || "")} |\n`;
out += "\n" + fs.readFileSync(path.join(D, "tail.md"), "utf8");
fs.writeFileSync(path.join(V, "DESIGN.md"), out);
