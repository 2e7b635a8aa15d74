"use strict";
// An in-process EVM chain (the EDR engine hardhat uses) with controlled time, snapshots and
// unsigned deterministic senders.
const path = require("path");
const { REPO } = require("./solc");
const nm = (p) => require(path.join(REPO, "node_modules", p));
const { ethers } = nm("ethers");

const GAS = "0x2540be400";

class Chain {
    static async create({ keys = [], initialTime = 1_000_000_000 } = {}) {
        const {
            createHardhatNetworkProvider
        } = nm("hardhat/internal/hardhat-network/provider/provider");
        const {
            defaultHardhatNetworkParams
        } = nm("hardhat/internal/core/config/default-config");
        const c = new Chain();
        c.p = await createHardhatNetworkProvider(
            {
                chainId: 31337,
                networkId: 31337,
                hardfork: "cancun",
                blockGasLimit: 1e12,
                minGasPrice: 0n,
                automine: true,
                intervalMining: 0,
                mempoolOrder: "fifo",
                initialBaseFeePerGas: 0,
                genesisAccounts: [
                    { privateKey: DEPLOYER.privateKey },
                    ...keys.map((k) => ({ privateKey: k }))
                ].map((a) => ({
                    ...a,
                    balance: "0xffffffffffffffffffff"
                })),
                chains: defaultHardhatNetworkParams.chains,
                allowBlocksWithSameTimestamp: true,
                allowUnlimitedContractSize: true,
                throwOnTransactionFailures: true,
                throwOnCallFailures: true,
                initialDate: new Date(initialTime * 1000),
                enableTransientStorage: false,
                enableRip7212: false
            },
            { enabled: false },
            undefined
        );
        c.time = initialTime + 1;
        c.txs = 0;
        return c;
    }
    async rpc(method, ...params) {
        // the engine itself, without hardhat's decoding of stack traces
        const r = await this.p._provider.handleRequest(
            JSON.stringify({ method, params })
        );
        const d = typeof r.data === "string" ? JSON.parse(r.data) : r.data;
        if (d.error) throw new Error(d.error.message);
        return d.result;
    }
    async deploy(art, args = [], libs = {}) {
        let b = art.bytecode;
        for (const f in art.links)
            for (const l in art.links[f])
                for (const r of art.links[f][l])
                    b =
                        b.slice(0, r.start * 2) +
                        libs[l].slice(2).toLowerCase() +
                        b.slice(r.start * 2 + r.length * 2);
        const iface = new ethers.Interface(art.abi);
        const h = await this.rpc("eth_sendTransaction", {
            from: DEPLOYER.address,
            data: "0x" + b + iface.encodeDeploy(args).slice(2),
            gas: GAS
        });
        const r = await this.rpc("eth_getTransactionReceipt", h);
        return { address: r.contractAddress, iface };
    }
    async snapshot() {
        return this.rpc("evm_snapshot");
    }
    async revert(id) {
        await this.rpc("evm_revert", id);
    }
    /** send a transaction in a block with timestamp ts; {ok, logs, ret} */
    async send(to, from, fn, args, ts, opts = {}) {
        this.txs++;
        if (ts !== undefined)
            await this.rpc("evm_setNextBlockTimestamp", ts);
        const data = typeof fn === "string" && fn.startsWith("0x")
            ? fn
            : to.iface.encodeFunctionData(fn, args);
        try {
            const h = await this.rpc("eth_sendTransaction", {
                from,
                to: to.address,
                data,
                gas: opts.gas || GAS,
                gasPrice: "0x0"
            });
            const out = { ok: true };
            if (opts.logs) {
                const r = await this.rpc("eth_getTransactionReceipt", h);
                out.logs = r.logs
                    .filter(
                        (l) =>
                            l.address.toLowerCase() ===
                            to.address.toLowerCase()
                    )
                    .map((l) => {
                        const d = to.iface.parseLog(l);
                        return d && { name: d.name, args: d.args };
                    });
            }
            return out;
        } catch (e) {
            return rejected(e);
        }
    }
    /** eth_call on the latest (or a pending, time-shifted) block */
    async call(to, fn, args, from = DEPLOYER.address) {
        this.txs++;
        try {
            const r = await this.rpc("eth_call", {
                from,
                to: to.address,
                data: to.iface.encodeFunctionData(fn, args),
                gas: GAS,
                gasPrice: "0x0"
            });
            return {
                ok: true,
                ret: to.iface.decodeFunctionResult(fn, r)
            };
        } catch (e) {
            return rejected(e);
        }
    }
}
function rejected(e) {
    const m = String((e && e.message) || e);
    if (!/revert|VM Exception|panic|invalid opcode|out of gas|unexpected amount of data/i.test(m))
        throw e; // a harness problem, not a verdict of the contract
    return { ok: false, err: m.slice(0, 200) };
}
const DEPLOYER = new ethers.Wallet("0x" + "d1".repeat(32));
module.exports = { Chain, ethers, nm, DEPLOYER };
