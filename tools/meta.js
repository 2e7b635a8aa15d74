"use strict";
// Single source of properties.jsonl and MANIFEST.json: node tools/meta.js
const fs = require("fs");
const path = require("path");
const V = path.resolve(__dirname, "..");
const P = "contracts/V1/StateChannelDiamondProxy/";
const MGR = P + "AStateChannelManagerProxy.sol", FACET = P + "DisputeManagerFacet.sol", COMMON = P + "StateChannelCommon.sol", UTIL = P + "StateChannelUtilLibrary.sol", STORE = P + "StateChannelManagerStorage.sol", ASM = "contracts/V1/AStateMachine.sol";
const m = (name, where) => ({ name, where });
const props = [];
const checks = [];
const na = [];
function prop(id, title, statement, over, text, why, files, mechanism, extra = {}) {
    props.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, ...(extra.state ? { state: extra.state } : {}), mechanism, observe_at: extra.observe || [], hook_needed: null } });
}
function check(id, technique, note) {
    checks.push({ property: id, quick_cmd: `node run.js ${id} --tier quick`, thorough_cmd: `node run.js ${id} --tier thorough`, evidence_file: `evidence/${id}.json`, technique, level: "model_checking", level_note: note });
}
module.exports = { prop, check, m, na, MGR, FACET, COMMON, UTIL, STORE, ASM };
for (const f of fs.readdirSync(path.join(V, "tools", "props")).sort()) require("./props/" + f);
fs.writeFileSync(path.join(V, "properties.jsonl"), props.map((p) => JSON.stringify(p)).join("\n") + "\n");
const bad = props.filter((p) => p.title.length > 80 || !p.statement);
if (bad.length) throw new Error("title too long: " + bad.map((b) => b.id));
const ids = new Set(props.map((p) => p.id));
const claimed = new Set(checks.map((c) => c.property));
for (const c of claimed) if (!ids.has(c)) throw new Error("no property " + c);
for (const p of ids) if (!claimed.has(p) && !na.some((n) => n.property === p)) throw new Error("unclaimed " + p);
fs.writeFileSync(path.join(V, "MANIFEST.json"), JSON.stringify({ version: 1, setup_cmd: "node setup.js", checks, not_applicable: na, notes: "Generated by tools/meta.js. No hooks in /repo; see DESIGN.md." }, null, 1) + "\n");
