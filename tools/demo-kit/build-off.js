"use strict";
// Builds off.js, the single file that demonstrations of planted off-chain bugs carry with them:
// the node harness of lib/, reading the SDK and the interface from the current directory.
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const path = require("path");
const lib = path.resolve(__dirname, "../../lib");
const ENTRY = `
const fs = require("fs"), path = require("path");
const ts = require("./ts"), Ty = require("./types"), N = require("./node"), { FullNode } = require("./full"), Bk = require("./blocks"), P = require("./peer"), { VerifSM } = require("./spec");
const { REPO, CACHE } = require("./solc");
const find = (d, n) => { for (const e of fs.readdirSync(d, { withFileTypes: true })) { const p = path.join(d, e.name); if (e.isDirectory()) { const r = find(p, n); if (r) return r; } else if (e.name === n) return p; } };
const iface = (n = "AStateChannelManagerProxy") => new ts.ethers.Interface(JSON.parse(fs.readFileSync(find(path.join(REPO, "artifacts"), n + ".json"), "utf8")).abi);
const setState = (state, fork, t) => ({ t: "chain", name: "SetState", args: { channelId: N.CH, encodedState: state, forkCnt: BigInt(fork), timestamp: BigInt(t) } });
const msgBlock = (b, from = "x") => ({ t: "msg", from, data: N.rpc("onSignedBlock", { encodedBlock: b.bytes, signature: b.sig }) });
const msgConf = (b, conf, from = "x") => ({ t: "msg", from, data: N.rpc("onBlockConfirmation", { encodedBlock: b.bytes, signature: b.sig }, conf) });
const genesis = (n, number = 0n) => VerifSM.encode({ number, participants: Bk.W.slice(0, n).map((w) => w.address), balances: Bk.W.slice(0, n).map((_, i) => BigInt(100 + i)) });
let file;
/** a node set up by the SDK itself, with the state machine EXECUTION */
const full = async (o) => new FullNode({ file: (file ||= await ts.bundle()), iface: iface(), peers: ["x"], sm: EXECUTION, ...o, answer: (name, args, kind) => (name === "getDispute" ? [NO_DISPUTE] : N.defaultAnswer(name, args, kind)) }).start();
const node = async (o) => new N.Node({ file: (file ||= await ts.bundle()), iface: iface(), peers: ["x"], ...o }).start();
/** runs a demonstration: f returns a list of what is wrong */
const demo = async (f) => {
    let bad;
    try { bad = await f(); } catch (e) { console.error(e); bad = ["the demonstration failed: " + e.message]; }
    fs.rmSync(CACHE, { recursive: true, force: true });
    for (const b of bad) console.log("WRONG:", b);
    console.log(bad.length ? "the property does not hold" : "the property holds");
    process.exit(bad.length ? 1 : 0);
};
const Court = require("./court");
/** a trial: what the others do and what overtakes what, by label (everything else in the usual order), then rest; o.judge(Court, ctx) -> what is wrong */
const trial = async (s, labels, o = {}) => {
    const actions = Court.actions(s, s);
    const ctx = await new Court.Court({ ...s, actions }).start({ file: (file ||= await ts.bundle()), abi: JSON.parse(iface().formatJson()) });
    ctx.failed = 0;
    for (const l of labels) {
        for (let i = 0; ; i++) {
            const cs = ctx.choices(null, Infinity, Infinity), c = cs.find((x) => x.label === l);
            if (c) { await c.run(); break; }
            const d = cs.find((x) => !x.action);
            if (!d || i > 200) throw new Error("cannot happen now: " + l);
            await d.run();
        }
        if (!o.fast) await 0;
    }
    await Court.rest(ctx);
    return ctx;
};
/** nodes 0..np-1 with links [[a,b]]; step(i, ev), pass(a, b, n) delivers (n) messages from a to b, settle() everything */
const network = async (np, links, o = {}) => {
    const near = (i) => [...Array(np).keys()].filter((j) => links.some(([a, b]) => (a === i && b === j) || (a === j && b === i)));
    const ns = [], q = {};
    for (let i = 0; i < np; i++) ns.push(await node({ wallet: Bk.W[i], peers: near(i).map(String), ...o }));
    let count = 0;
    const step = async (i, ev) => {
        const out = await ns[i].step(ev);
        for (const m of out.sent) (q[i + ">" + m.to] ||= []).push(m.data);
        return out;
    };
    const pass = async (a, b, n = 1000) => {
        for (; n-- && (q[a + ">" + b] || []).length; ) {
            if (++count > 5000) throw new Error("messages never stop");
            await step(b, { t: "msg", from: String(a), data: q[a + ">" + b].shift() });
        }
    };
    const settle = async () => {
        for (let more = true; more; ) {
            more = false;
            for (const k in q) if (q[k].length) (more = true), await pass(...k.split(">"), 1);
        }
    };
    return { ns, q, step, pass, settle };
};
const R = require("./races");
const NO_DISPUTE = R.disputeOf(0, { channelId: ts.ethers.ZeroHash, postedStateDisputer: ts.ethers.ZeroAddress, creationTimestamp: 0n, deadlineTimestamp: 0n });
module.exports = { full, R, EXECUTION, network, Court, trial, ts, Ty, N, ...N, ...Bk, ...P, VerifSM, setState, msgBlock, msgConf, genesis, node, demo, iface, REPO, ethers: ts.ethers };
`;
const SHIM = {
    solc: `const fs=require("fs"),os=require("os"),path=require("path"); module.exports = { REPO: process.cwd(), CACHE: fs.mkdtempSync(path.join(os.tmpdir(), "demo-")) };`,
    chain: `module.exports = { ethers: require("module").createRequire(process.cwd() + "/package.json")("ethers").ethers };`
};
(async () => {
const art = (await require("../../lib/solc").compile(["verif/VerifExecution.sol:VerifExecution"])).VerifExecution;
await esbuild.build({
    stdin: { contents: "const EXECUTION = " + JSON.stringify({ abi: art.abi, bytecode: "0x" + art.bytecode }) + ";\n" + ENTRY, resolveDir: lib, loader: "js" }, bundle: true, platform: "node", format: "cjs", target: "node22", outfile: path.join(__dirname, "off.js"), external: ["/opt/*"],
    plugins: [{ name: "shim", setup(b) {
        b.onResolve({ filter: /^\.\/(solc|chain)$/ }, (a) => ({ path: a.path.slice(2), namespace: "shim" }));
        b.onLoad({ filter: /./, namespace: "shim" }, (a) => ({ contents: SHIM[a.path], loader: "js", resolveDir: lib }));
    } }]
});
console.log("off.js built");
})();
