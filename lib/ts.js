"use strict";
// Loads the SDK (TypeScript, /repo/src) as it is in the working tree. Every call of load() gives an isolated
// instance of all its modules, whose timers, clock, console and sockets are the ones passed in.
const fs = require("fs");
const path = require("path");
const vm = require("vm");
const crypto = require("crypto");
const Module = require("module");
const { REPO, CACHE: BUILD } = require("./solc");
const { memo, valueKey } = require("./memo");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const rq = Module.createRequire(path.join(REPO, "package.json"));
const ethersReal = rq("ethers");

const ENTRY = `
export { default as StateManager } from "@/stateManager";
export { default as ValidationService } from "@/stateManager/ValidationService";
export { default as AgreementManager } from "@/agreementManager";
export { default as ForkService } from "@/agreementManager/ForkService";
export { default as DisputeHandler } from "@/DisputeHandler";
export { default as ProofManager } from "@/ProofManager";
export { default as P2PManager } from "@/P2PManager";
export { default as ProfileManager } from "@/ProfileManager";
export { default as PeerProfile } from "@/PeerProfile";
export { default as Clock } from "@/Clock";
export * as utils from "@/utils";
export * as evm from "@/evm";
export * as transport from "@/transport";
export * as types from "@/types";
export * as disputeTypes from "@/types/disputes";
export * as ethersTypes from "@/types/ethers";
export * as rpc from "@/rpc";
`;
const STUBS = {
    "get-webrtc": `export class RTCPeerConnection { constructor(){ this.remote=[]; this.local=[]; this.ice=[]; if (globalThis.__rtc) globalThis.__rtc(this); }
        createDataChannel(n){ return this.channel = { n, sent: [], send(x){ this.sent.push(x); }, close(){ this.closed = true; } }; }
        async createOffer(){ return { type: "offer" }; } async createAnswer(){ return { type: "answer" }; }
        async setLocalDescription(d){ this.local.push(d); } async setRemoteDescription(d){ this.remote.push(d); } async addIceCandidate(c){ this.ice.push(c); } }
        export class RTCIceCandidate { constructor(x){ Object.assign(this, x); } }`,
    hyperswarm: `export default class Hyperswarm { constructor(){ this.h = {}; this.topics = []; } on(e,f){ (this.h[e] ||= []).push(f); return this; }
        removeAllListeners(e){ for (const x of [].concat(e || [])) delete this.h[x]; } join(t){ this.topics.push(t); return {}; } leave(t){ this.topics = this.topics.filter((x) => x !== t); } }`,
    "@hyperswarm/dht-relay": "export default class DHT {}",
    "@hyperswarm/dht-relay/ws": "export default class Stream {}",
    ws: "export default class WebSocket { on(){} send(){} } export class WebSocketServer { on(){} }"
};
function srcFiles(dir = path.join(REPO, "src"), out = []) {
    for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
        const p = path.join(dir, e.name);
        if (e.isDirectory()) srcFiles(p, out);
        else if (/\.(ts|js|json)$/.test(e.name)) out.push(p);
    }
    return out.sort();
}
/** bundle of the working tree, cached by content */
async function bundle() {
    const h = crypto.createHash("sha256").update(ENTRY + JSON.stringify(STUBS) + fs.readFileSync(__filename));
    for (const f of srcFiles()) h.update(f).update(fs.readFileSync(f));
    const out = path.join(BUILD, "sdk-" + h.digest("hex").slice(0, 24) + ".js");
    if (!fs.existsSync(out)) {
        const src = path.join(REPO, "src");
        const r = await esbuild.build({
            stdin: { contents: ENTRY, resolveDir: src, loader: "ts" },
            bundle: true, write: false, platform: "node", format: "cjs", target: "node22", logLevel: "silent", nodePaths: [path.join(REPO, "node_modules")],
            tsconfigRaw: { compilerOptions: { target: "es2020", useDefineForClassFields: false } },
            plugins: [{
                name: "sdk",
                setup(b) {
                    b.onResolve({ filter: /^@\// }, (a) => {
                        const p = path.join(src, a.path.slice(2));
                        for (const c of [p + ".ts", path.join(p, "index.ts"), p]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return { path: c };
                        return { path: p };
                    });
                    b.onResolve({ filter: /typechain-types/ }, () => ({ path: "typechain", namespace: "stub" }));
                    b.onResolve({ filter: /./ }, (a) => {
                        if (STUBS[a.path]) return { path: a.path, namespace: "stub" };
                        if (/^[a-z@]/i.test(a.path) && !a.path.startsWith("/")) return { path: a.path, external: true };
                    });
                    b.onLoad({ filter: /./, namespace: "stub" }, (a) => ({ contents: STUBS[a.path] || "export default {}", loader: "js" }));
                }
            }]
        });
        fs.mkdirSync(BUILD, { recursive: true });
        fs.writeFileSync(out + "." + process.pid, r.outputFiles[0].text);
        fs.renameSync(out + "." + process.pid, out);
    }
    return out;
}
// --- ethers with the expensive pure functions memoised ---
const hexOf = (x) => (typeof x === "string" ? "s" + x : x instanceof Uint8Array ? "b" + Buffer.from(x).toString("hex") : null);
const verifyMessage = memo(ethersReal.ethers.verifyMessage, (m, s) => {
    const a = hexOf(m);
    return a && typeof s === "string" ? a + "|" + s : null;
});
// type strings are parsed once; decoding gives immutable results
const abi = ethersReal.ethers.AbiCoder.defaultAbiCoder();
const params = new Map();
const param = (t) => {
    if (typeof t !== "string") return t;
    if (!params.has(t)) params.set(t, ethersReal.ethers.ParamType.from(t));
    return params.get(t);
};
const decodeMemo = memo(
    (types, data) => abi.decode(types.map(param), data),
    (types, data, loose) => (loose || typeof data !== "string" || !types.every((t) => typeof t === "string") ? null : types.join() + "|" + data)
);
const encodeMemo = memo(
    (types, values) => abi.encode(types.map(param), values),
    (types, values) => {
        if (!types.every((t) => typeof t === "string")) return null;
        const k = valueKey(values);
        return k === null ? null : types.join() + "|" + k;
    }
);
const coder = {
    encode: encodeMemo,
    decode: (types, data, loose) => (loose ? abi.decode(types.map(param), data, loose) : decodeMemo(types, data)),
    getDefaultValue: (types) => abi.getDefaultValue(types)
};
const keccak256 = memo(ethersReal.ethers.keccak256, (x) => (typeof x === "string" ? x : null));
const child = (ns) => {
    const o = {};
    for (const k of Object.keys(ns)) o[k] = ns[k];
    const def = (k, v) => Object.defineProperty(o, k, { enumerable: true, configurable: true, value: v });
    return { o, def };
};
const inner0 = child(ethersReal.ethers);
inner0.def("verifyMessage", verifyMessage);
inner0.def("keccak256", keccak256);
inner0.def("AbiCoder", { defaultAbiCoder: () => coder });
const outer0 = child(ethersReal);
for (const k of ["verifyMessage", "keccak256", "AbiCoder"]) outer0.def(k, inner0.o[k]);
outer0.def("ethers", inner0.o);
Object.defineProperty(outer0.o, "__esModule", { value: true });
/** an ethers module for one instance of the SDK; random supplies its random bytes */
function ethersFor(random) {
    if (!random) return outer0.o;
    const inner = child(inner0.o);
    inner.def("randomBytes", random);
    const outer = child(outer0.o);
    outer.def("ethers", inner.o);
    outer.def("randomBytes", random);
    Object.defineProperty(outer.o, "__esModule", { value: true });
    return outer.o;
}
const sharedEthers = ethersFor(null);
const scripts = new Map();
const QUIET = new Proxy({}, { get: () => () => {} });
function load(file, env = {}) {
    if (!scripts.has(file))
        scripts.set(file, new vm.Script(`(function(module, exports, require, setTimeout, clearTimeout, setInterval, clearInterval, setImmediate, Date, console){${fs.readFileSync(file, "utf8")}\n})`, { filename: file }));
    const e = env.random ? ethersFor(env.random) : sharedEthers;
    const m = { exports: {} };
    scripts.get(file).runInThisContext()(
        m, m.exports, (n) => (n === "ethers" ? e : rq(n)),
        env.setTimeout || setTimeout, env.clearTimeout || clearTimeout, env.setInterval || setInterval, env.clearInterval || clearInterval, env.setImmediate || setImmediate,
        env.Date || Date, env.console || QUIET
    );
    return m.exports;
}
/** runs until nothing but timers is left to run */
const drain = () => new Promise((r) => setImmediate(r));
module.exports = { bundle, load, drain, verifyMessage, coder, keccak256, ethers: ethersReal.ethers, rq };
