"use strict";
// C01: unanimous consent. Every list of up to 3 (4) addresses against every list of up to 4 signatures
// of a pool with valid, foreign, malleable and malformed ones.
const { compile } = require("../lib/solc");
const { Chain } = require("../lib/chain");
const { ethers, H, recover, sign, wallet } = require("../lib/types");
const [A, B, C, X] = [0, 1, 2, 3].map(wallet);
const N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
const DATA = ["0x", "0x1234", "0x" + "ab".repeat(100)];
function malleable(sig) {
    const s = BigInt("0x" + sig.slice(66, 130));
    const v = parseInt(sig.slice(130), 16);
    return sig.slice(0, 66) + (N - s).toString(16).padStart(64, "0") + (v === 27 ? "1c" : "1b");
}
function raw(w, data) {
    // signed without the EIP-191 prefix
    return w.signingKey.sign(H(data)).serialized;
}
/** name -> signature bytes */
function pool(data) {
    const s = (w) => sign(w, data);
    return {
        A: s(A), B: s(B), C: s(C), X: s(X),
        "A/other data": sign(A, data + "00"), "A/malleable": malleable(s(A)), "A/64 bytes": s(A).slice(0, 130), "A/raw": raw(A, data)
    };
}
const EXTRA = (data) => {
    const s = sign(A, data);
    const c = ethers.Signature.from(s);
    return {
        "v=0": s.slice(0, 130) + "00", "v=1": s.slice(0, 130) + "01", "v=29": s.slice(0, 130) + "1d", "v flipped": s.slice(0, 130) + (s.endsWith("1b") ? "1c" : "1b"),
        "66 bytes": s + "00", "65 zero bytes": "0x" + "00".repeat(65), empty: "0x", compact: c.compactSerialized,
        "r=0": "0x" + "00".repeat(32) + s.slice(66), "s=0": s.slice(0, 66) + "00".repeat(32) + s.slice(130), "r=N": "0x" + N.toString(16) + s.slice(66),
        "hash signed": A.signMessageSync(ethers.getBytes(H(H(data)))), "data signed": A.signMessageSync(ethers.getBytes(data))
    };
};
const ADDRS = { A: A.address, B: B.address, C: C.address, X: X.address, 0: ethers.ZeroAddress };
function lists(names, max) {
    let out = [[]], last = [[]];
    for (let i = 0; i < max; i++) {
        last = last.flatMap((l) => names.map((n) => [...l, n]));
        out = out.concat(last);
    }
    return out;
}
/** what the protocol demands: every listed address has a valid signature of its own */
function model(addrs, data, sigs) {
    const left = sigs.map((s) => recover(data, s));
    for (const a of addrs) {
        const i = left.indexOf(a);
        if (i < 0) return false;
        left.splice(i, 1);
    }
    return true;
}
/** [payload index, tag, address lists, signature lists] */
function cases(tier) {
    const big = tier === "thorough";
    const of = (n, l) => l.filter((x) => x.length === n);
    const kinds = ["A", "B", "C", "X", "A/other data", "A/malleable", "A/64 bytes", "A/raw"];
    const odd = ["A", "B", "v=0", "v=1", "v=29", "v flipped", "66 bytes", "65 zero bytes", "empty", "compact", "r=0", "s=0", "r=N", "hash signed", "data signed"];
    const al = lists(["A", "B", "C"], 3).concat(lists(["A", "0"], 2).filter((x) => x.includes("0")));
    const al4 = of(4, lists(["A", "B", "C"], 4)).filter((x) => new Set(x).size === 3);
    const small = lists(["A", "B", "C"], 2);
    const four = big ? kinds : ["A", "B", "X"];
    return [
        [1, "", al, lists(kinds, 3)],
        [1, "4", al, of(4, lists(four, 4))],
        [1, "4x4", al4, of(4, lists(big ? kinds.slice(0, 5) : ["A", "B", "C"], 4))],
        [0, "", al, lists(big ? kinds : kinds.slice(0, 5), 2)],
        [2, "", al, lists(big ? kinds : kinds.slice(0, 5), 2)],
        [1, "x", small, lists(odd, big ? 3 : 2)]
    ];
}
async function open(art) {
    const chain = await Chain.create({});
    const lib = await chain.deploy(art.StateChannelUtilLibrary);
    const u = await chain.deploy(art.VerifUtil, [], { StateChannelUtilLibrary: lib.address });
    return { chain, u };
}
function judge(rec, al, data, names, sigs, verdict, tag) {
    const want = model(al.map((n) => ADDRS[n]), data, sigs);
    rec.transition();
    const malformed = sigs.some((s) => recover(data, s) === null);
    const label = `[${al}] signed by [${names}] ${tag}`;
    if (verdict === 1 && want && malformed)
        rec.violation("malformed accepted " + label, "a signature list with a malformed signature is accepted", { al, names, data });
    if (verdict === 1 && !want)
        rec.violation("accepted " + label, "a signature list is accepted although some participant did not sign", { al, names, data });
    if (verdict !== 1 && want && !malformed)
        rec.violation("refused " + label, "a complete list of valid signatures is refused", { al, names, data });
    rec.outcome(want ? (malformed ? "covered+malformed" : "covered") : verdict === 2 ? "reverts" : "not covered");
}
module.exports = {
    level: "model_checking",
    bounds: {
        quick: "address lists <=3 over {A,B,C} and <=2 with the zero address, plus permutations with a repeated participant of length 4; signature lists <=3 over 8 kinds, 4 over 3 kinds, <=2 over 15 odd kinds; 3 payloads",
        thorough: "signature lists of 4 over 8 kinds, of 3 over 15 odd kinds"
    },
    assumptions: ["ecrecover and keccak256 are trusted"],
    async prepare() {
        return { art: await compile(["verif/VerifUtil.sol:VerifUtil", "contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol:StateChannelUtilLibrary"]) };
    },
    async run({ opt, prep, shard, shards, rec }) {
        const { chain, u } = await open(prep.art);
        let idx = 0;
        for (const [di, tag, al, list] of cases(opt.tier)) {
            const data = DATA[di];
            const p = { ...EXTRA(data), ...pool(data) };
            const addrs = al.map((l) => l.map((n) => ADDRS[n]));
            for (const names of list) {
                if (idx++ % shards !== shard) continue;
                const sigs = names.map((n) => p[n]);
                const r = await chain.call(u, "verify", [addrs, data, [sigs]]);
                if (!r.ok) throw new Error("batch: " + r.err);
                const out = Buffer.from(r.ret[0].slice(2), "hex");
                al.forEach((l, k) => judge(rec, l, data, names, sigs, out[k], `payload ${di}`));
                rec.add("traces", al.length);
                rec.state(`${di}${tag}${names}`);
                if (names.length === 3) rec.sample({ addresses: al[5], signatures: names });
            }
        }
        for (const [di, data] of DATA.entries()) {
            const p = { ...EXTRA(data), ...pool(data) };
            const addrs = lists(["A", "B", "C", "0"], 3).map((l) => l.map((n) => ADDRS[n]));
            if (di % shards !== shard) continue;
            // recovery of one signer, membership, gathering of signers
            for (const n in p) {
                const r = await chain.call(u, "signer", [data, p[n]]);
                const want = recover(data, p[n]);
                const got = r.ok ? r.ret[0] : null;
                if (got !== want) rec.violation(`signer of ${n} payload ${di}`, `recovered ${got}, signed by ${want}`, { signer: n, data });
                rec.transition();
            }
            for (const l of addrs)
                for (const a in ADDRS) {
                    const r = await chain.call(u, "contains", [l, ADDRS[a]]);
                    if (r.ret[0] !== l.includes(ADDRS[a])) rec.violation(`membership of ${a} in ${l}`, "wrong membership", { l, a });
                    rec.transition();
                }
            const seqs = lists(["A", "B", "C", "X"], 4);
            for (const ex of lists(["A", "B", "C"], 3).filter((x) => new Set(x).size === x.length)) {
                const r = await chain.call(u, "gather", [seqs.map((q) => q.map((n) => ADDRS[n])), ex.map((n) => ADDRS[n])]);
                if (!r.ok) {
                    rec.violation(`gathering the signers of [${ex}] fails`, r.err, { ex });
                    continue;
                }
                seqs.forEach((q, i) => {
                    const want = [...new Set(q.filter((n) => ex.includes(n)))].map((n) => ADDRS[n]);
                    rec.transition();
                    const got = [...r.ret[0][i]];
                    if (got.length !== want.length || want.some((x) => !got.includes(x)))
                        rec.violation(`signers among [${ex}] of sequence [${q}]`, `gathered ${got}`, { ex, q });
                });
            }
        }
        rec.add("evm_calls", chain.txs);
    },
    async replay(v, rec, prep) {
        const { chain, u } = await open(prep.art);
        if (!v.al) return console.log("re-run the check: " + JSON.stringify(v));
        const p = { ...EXTRA(v.data), ...pool(v.data) };
        const sigs = v.names.map((n) => p[n]);
        const r = await chain.call(u, "verify", [[v.al.map((n) => ADDRS[n])], v.data, [sigs]]);
        judge(rec, v.al, v.data, v.names, sigs, parseInt(r.ret[0].slice(2), 16), "");
    },
    expect({ counts, outcomes }) {
        if (!(outcomes.covered > 1000) || !(outcomes["not covered"] > 1000) || !(outcomes.reverts > 1000)) return "outcomes " + JSON.stringify(outcomes);
    }
};
