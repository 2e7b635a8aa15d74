"use strict";
// Stand-alone kit of a demonstration: compiles the contracts of the repository in the current directory
// (with the two small harness contracts beside this file) and runs them on an in-process chain.
const fs = require("fs");
const path = require("path");
const REPO = process.cwd();
const nm = (p) => require(path.join(REPO, "node_modules", p));
const { ethers } = nm("ethers");
const coder = ethers.AbiCoder.defaultAbiCoder();

const T = {};
T.Header = "tuple(bytes32 channelId,address participant,uint256 forkCnt,uint256 transactionCnt,uint256 timestamp)";
T.Body = "tuple(uint8 transactionType,bytes encodedData,bytes data)";
T.Transaction = `tuple(${T.Header} header,${T.Body} body)`;
T.Block = `tuple(${T.Transaction} transaction,bytes32 stateHash,bytes32 previousStateHash)`;
T.SignedBlock = "tuple(bytes encodedBlock,bytes signature)";
T.JoinChannel = "tuple(bytes32 channelId,address participant,uint256 amount,uint256 deadlineTimestamp,bytes data)";
T.SignedJoinChannel = "tuple(bytes encodedJoinChannel,bytes signature)";
T.JoinChannelAgreement = `tuple(${T.SignedJoinChannel} signedJoinChannel,address submitter,uint256 forkCnt,uint256 transactionCnt,bytes32 previousStateHash)`;
T.LeaveChannel = "tuple(bytes32 channelId,address participant,uint256 forkCnt,uint256 transactionCnt,bytes32 previousStateHash,uint256 deadlineTimestamp,bytes data)";
T.FoldRechallenge = "tuple(bytes encodedBlock,bytes[] signatures)";
T.DoubleSign = `tuple(tuple(${T.SignedBlock} block1,${T.SignedBlock} block2)[] doubleSigns)`;
T.IncorrectData = `tuple(${T.SignedBlock} block1,${T.SignedBlock} block2,bytes encodedState)`;
T.NewerState = "tuple(bytes encodedBlock,bytes confirmationSignature)";
T.FoldPriorBlock = "tuple(uint256 transactionCnt)";
T.BlockTooFarInFuture = `tuple(${T.SignedBlock} block1)`;
T.JoinProof = "tuple(bytes encodedSignedJoinChannel,bytes[] signatures)";
T.State = "tuple(uint256 number,address[] participants,uint256[] balances)";
const PROOF = { FoldRechallenge: 0, DoubleSign: 1, IncorrectData: 2, NewerState: 3, FoldPriorBlock: 4, BlockTooFarInFuture: 5, JoinChannel: 6 };
const enc = (t, v) => coder.encode([T[t] || t], [v]);
const dec = (t, b) => coder.decode([T[t] || t], b)[0];
const H = ethers.keccak256;
const wallet = (i) => new ethers.Wallet(ethers.zeroPadValue(ethers.toBeHex(0x1000 + i), 32));
const W = [0, 1, 2, 3, 4].map(wallet);
const sign = (w, b) => w.signMessageSync(ethers.getBytes(H(b)));
const sb = (b, w) => ({ encodedBlock: b, signature: sign(w, b) });
const conf = (b, ws) => ({ encodedBlock: b, signatures: ws.map((w) => sign(w, b)) });
const state = (number, ws, balances) => enc("State", { number, participants: ws.map((w) => w.address), balances });
const block = ({ id, by, fork = 0, cnt, ts, data = "0x", next, prev }) =>
    enc("Block", { transaction: { header: { channelId: id, participant: by.address, forkCnt: fork, transactionCnt: cnt, timestamp: ts }, body: { transactionType: 0, encodedData: "0x", data } }, stateHash: H(next), previousStateHash: H(prev) });

function compile() {
    const solc = require(require.resolve("solc", { paths: [path.join(REPO, "node_modules/hardhat")] }));
    const V = "contracts/V1/StateChannelDiamondProxy/";
    const sources = {};
    const at = (n) => (n.startsWith("demo/") ? path.join(__dirname, n.slice(5)) : n.startsWith("@") ? path.join(REPO, "node_modules", n) : path.join(REPO, n));
    const add = (n) => {
        if (sources[n]) return;
        const content = fs.readFileSync(at(n), "utf8");
        sources[n] = { content };
        for (const m of content.matchAll(/^\s*import\s+(?:[^"';]*from\s+)?["']([^"']+)["']/gm)) {
            const t = m[1].startsWith(".") ? path.posix.join(path.posix.dirname(n), m[1]) : m[1];
            add(t);
        }
    };
    add("demo/Manager.sol");
    const want = { "demo/Manager.sol": ["DemoManager"], "demo/StateMachine.sol": ["DemoStateMachine"], [V + "DisputeManagerFacet.sol"]: ["DisputeManagerFacet"], [V + "StateChannelUtilLibrary.sol"]: ["StateChannelUtilLibrary"] };
    const outputSelection = {};
    for (const f in want) for (const c of want[f]) (outputSelection[f] ||= {})[c] = ["abi", "evm.bytecode"];
    const out = JSON.parse(solc.compile(JSON.stringify({ language: "Solidity", sources, settings: { viaIR: true, optimizer: { enabled: true, runs: 100 }, outputSelection } })));
    const errs = (out.errors || []).filter((e) => e.severity === "error");
    if (errs.length) throw new Error(errs[0].formattedMessage);
    const r = {};
    for (const f in want) for (const c of want[f]) r[c] = { abi: out.contracts[f][c].abi, bytecode: out.contracts[f][c].evm.bytecode.object, links: out.contracts[f][c].evm.bytecode.linkReferences };
    return r;
}
const GAS = "0x2540be400";
class Chain {
    static async create(time = 1_000_000_000 - 100) {
        const { createHardhatNetworkProvider } = nm("hardhat/internal/hardhat-network/provider/provider");
        const { defaultHardhatNetworkParams } = nm("hardhat/internal/core/config/default-config");
        const c = new Chain();
        c.dep = wallet(99);
        c.p = await createHardhatNetworkProvider(
            {
                chainId: 31337, networkId: 31337, hardfork: "cancun", blockGasLimit: 1e12, minGasPrice: 0n, automine: true, intervalMining: 0, mempoolOrder: "fifo", initialBaseFeePerGas: 0,
                genesisAccounts: [c.dep, ...W].map((w) => ({ privateKey: w.privateKey, balance: "0xffffffffffffffffffff" })),
                chains: defaultHardhatNetworkParams.chains, allowBlocksWithSameTimestamp: true, allowUnlimitedContractSize: true, throwOnTransactionFailures: true, throwOnCallFailures: true,
                initialDate: new Date(time * 1000), enableTransientStorage: false, enableRip7212: false
            },
            { enabled: false }, undefined
        );
        const art = compile();
        const lib = await c.deploy(art.StateChannelUtilLibrary);
        const L = { StateChannelUtilLibrary: lib.address };
        c.lib = lib;
        c.sm = await c.deploy(art.DemoStateMachine);
        c.facet = await c.deploy(art.DisputeManagerFacet, [], L);
        c.m = await c.deploy(art.DemoManager, [c.sm.address, c.facet.address], L);
        return c;
    }
    async rpc(method, ...params) {
        const r = await this.p._provider.handleRequest(JSON.stringify({ method, params }));
        const d = typeof r.data === "string" ? JSON.parse(r.data) : r.data;
        if (d.error) throw new Error(d.error.message);
        return d.result;
    }
    async deploy(art, args = [], libs = {}) {
        let b = art.bytecode;
        for (const f in art.links) for (const l in art.links[f]) for (const r of art.links[f][l]) b = b.slice(0, r.start * 2) + libs[l].slice(2).toLowerCase() + b.slice(r.start * 2 + r.length * 2);
        const iface = new ethers.Interface(art.abi);
        const h = await this.rpc("eth_sendTransaction", { from: this.dep.address, data: "0x" + b + iface.encodeDeploy(args).slice(2), gas: GAS });
        return { address: (await this.rpc("eth_getTransactionReceipt", h)).contractAddress, iface };
    }
    /** a transaction to the manager in a block of the given time: true if accepted, false if refused */
    async send(who, fn, args, ts, to = this.m) {
        if (ts !== undefined) await this.rpc("evm_setNextBlockTimestamp", ts);
        try {
            const h = await this.rpc("eth_sendTransaction", { from: who.address, to: to.address, data: to.iface.encodeFunctionData(fn, args), gas: GAS, gasPrice: "0x0" });
            const rc = await this.rpc("eth_getTransactionReceipt", h);
            this.events = rc.logs.filter((l) => l.address.toLowerCase() === to.address.toLowerCase()).map((l) => to.iface.parseLog(l)).filter(Boolean);
            return true;
        } catch (e) {
            this.err = e.message;
            return false;
        }
    }
    async call(fn, args, to = this.m, who = this.dep) {
        const r = to.iface.decodeFunctionResult(fn, await this.rpc("eth_call", { from: who.address, to: to.address, data: to.iface.encodeFunctionData(fn, args), gas: GAS, gasPrice: "0x0" }));
        return r.length === 1 ? r[0] : r;
    }
    add(n) {
        return this.sm.iface.encodeFunctionData("add", [n]);
    }
}
let failed = 0;
function expect(what, cond) {
    console.log((cond ? "ok   " : "WRONG ") + what);
    if (!cond) failed++;
}
const main = (f) => f().then(() => process.exit(failed ? 1 : 0), (e) => { console.error(e); process.exit(2); });
module.exports = { ethers, enc, dec, H, W, sign, sb, conf, state, block, PROOF, Chain, expect, main, coder, T, T0: 1_000_000_000, ZERO: ethers.ZeroAddress };
