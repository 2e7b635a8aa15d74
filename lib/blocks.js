"use strict";
// Blocks as a participant, an outsider or an attacker may build them: a well-formed next block and
// every deviation from it.
const { ethers } = require("./ts");
const Ty = require("./types");
const N = require("./node");
const { VerifSM, CH, add, pay, nudge, BAD, signBytes } = N;
const { enc, dec, H, wallet } = Ty;
const N_ORDER = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
const W = [0, 1, 2, 3, 4].map(wallet);
const X = W[3]; // never a participant

/** spec -> {bytes, sig}; every field may be overridden */
function build(s) {
    const tx = {
        header: { channelId: s.channel ?? CH, participant: s.author.address, forkCnt: s.fork, transactionCnt: s.height, timestamp: s.ts },
        body: { transactionType: s.type ?? 0, encodedData: s.encodedData ?? s.data, data: s.data }
    };
    let stateHash = s.stateHash, after;
    const r = VerifSM.transition(s.state, { header: { ...tx.header, timestamp: BigInt(s.ts) }, body: tx.body });
    after = r.ok ? r.state : s.state;
    if (!stateHash) stateHash = H(after);
    let bytes = enc("Block", { transaction: tx, stateHash, previousStateHash: s.prevHash ?? H(s.state) });
    const by = s.signer ?? s.author;
    const canon = bytes;
    if (s.wire) bytes = s.wire(bytes);
    let sig;
    try {
        sig = signBytes(by, ethers.getBytes(H(s.signCanonical ? canon : bytes)));
    } catch {
        sig = signBytes(by, ethers.getBytes(H(canon)));
    }
    if (s.sig) sig = s.sig(sig, bytes, by);
    return { bytes, sig, canon, state: after };
}
const low = (x, n = 32) => ethers.toBeHex(x, n).slice(2);
/** the other valid encoding of an ECDSA signature */
const malleate = (sig) => "0x" + sig.slice(2, 66) + low(N_ORDER - BigInt("0x" + sig.slice(66, 130))) + (sig.slice(130) === "1b" ? "1c" : "1b");
const SIGS = {
    truncated: (s) => s.slice(0, -2),
    "long by a byte": (s) => s + "00",
    zero: () => "0x" + "00".repeat(65),
    empty: () => "0x",
    malleated: malleate,
    compact: (s) => ethers.Signature.from(s).compactSerialized,
    "v of 0 or 1": (s) => s.slice(0, 130) + (s.slice(130) === "1b" ? "00" : "01"),
    "v of 29": (s) => s.slice(0, 130) + "1d",
    unprefixed: (s, b, w) => w.signingKey.sign(H(b)).serialized,
    "of something else": (s, b, w) => signBytes(w, ethers.getBytes(H(b + "00")))
};
/** all single deviations {name, group, f(spec)} for a situation {author, me, participants, fork, height, latest, p2p, state, genesis, next} */
function deviations(c) {
    const d = [];
    const a = (group, name, f) => d.push({ group, name: group + "=" + name, f });
    a("channel", "other", (s) => (s.channel = ethers.id("other")));
    a("channel", "zero", (s) => (s.channel = ethers.ZeroHash));
    for (const p of c.others) a("author", "participant " + p.address.slice(2, 6), (s) => (s.author = p));
    a("author", "outsider", (s) => (s.author = X));
    for (const p of c.others) a("signer", "participant " + p.address.slice(2, 6), (s) => (s.signer = p));
    a("signer", "outsider", (s) => (s.signer = X));
    for (const k in SIGS) a("signature", k, (s) => (s.sig = SIGS[k]));
    a("fork", "+1", (s) => (s.fork = c.fork + 1));
    a("fork", "2^64", (s) => (s.fork = 2n ** 64n));
    a("fork", "2^256-1", (s) => (s.fork = 2n ** 256n - 1n));
    if (c.fork) a("fork", "-1", (s) => (s.fork = c.fork - 1));
    a("height", "+1", (s) => (s.height = c.height + 1));
    a("height", "+2", (s) => (s.height = c.height + 2));
    a("height", "2^64", (s) => (s.height = 2n ** 64n));
    if (c.height) a("height", "-1", (s) => (s.height = c.height - 1));
    a("time", "before the latest", (s) => (s.ts = c.latest - 1));
    a("time", "0", (s) => (s.ts = 0));
    a("time", "at the latest", (s) => (s.ts = c.latest));
    a("time", "at the bound", (s) => (s.ts = c.ref + c.p2p));
    a("time", "past the bound", (s) => (s.ts = c.ref + c.p2p + 1));
    a("time", "2^64", (s) => (s.ts = 2n ** 64n));
    a("data", "add 2", (s) => (s.data = add(2)));
    a("data", "nudge", (s) => (s.data = nudge(1)));
    a("data", "pay", (s) => (s.data = pay(0, 1)));
    a("data", "overspend", (s) => (s.data = pay(0, 10n ** 9n)));
    a("data", "failing", (s) => (s.data = BAD));
    a("data", "unknown", (s) => (s.data = "0xdeadbeef"));
    a("data", "empty", (s) => (s.data = "0x"));
    a("type", "1", (s) => (s.type = 1));
    a("encodedData", "other", (s) => (s.encodedData = "0x1234"));
    a("stateHash", "of the state before", (s) => (s.stateHash = H(c.state)));
    a("stateHash", "random", (s) => (s.stateHash = ethers.id("r")));
    a("stateHash", "zero", (s) => (s.stateHash = ethers.ZeroHash));
    a("previous", "random", (s) => (s.prevHash = ethers.id("p")));
    a("previous", "zero", (s) => (s.prevHash = ethers.ZeroHash));
    if (c.height) a("previous", "genesis", (s) => (s.prevHash = H(c.genesis)));
    a("wire", "trailing word", (s) => (s.wire = (b) => b + "00".repeat(32)));
    a("wire", "trailing word, canonical signed", (s) => ((s.wire = (b) => b + "00".repeat(32)), (s.signCanonical = true)));
    a("wire", "upper case", (s) => (s.wire = (b) => "0x" + b.slice(2).toUpperCase()));
    a("wire", "shifted offset", (s) => (s.wire = (b) => "0x" + low(64) + "00".repeat(32) + b.slice(66)));
    a("wire", "truncated", (s) => (s.wire = (b) => b.slice(0, -64)));
    a("wire", "empty", (s) => (s.wire = () => "0x"));
    return d;
}
module.exports = { W, X, build, deviations, SIGS, malleate, low };
