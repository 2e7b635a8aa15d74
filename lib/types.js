"use strict";
// The wire/ABI format of the protocol's structures, and memoised signing / recovery.
const { ethers } = require("./chain");
const { memo, valueKey } = require("./memo");
const coder = ethers.AbiCoder.defaultAbiCoder();
const T = {};
T.Header =
    "tuple(bytes32 channelId,address participant,uint256 forkCnt,uint256 transactionCnt,uint256 timestamp)";
T.Body = "tuple(uint8 transactionType,bytes encodedData,bytes data)";
T.Transaction = `tuple(${T.Header} header,${T.Body} body)`;
T.Block = `tuple(${T.Transaction} transaction,bytes32 stateHash,bytes32 previousStateHash)`;
T.SignedBlock = "tuple(bytes encodedBlock,bytes signature)";
T.ConfirmedBlock = "tuple(bytes encodedBlock,bytes[] signatures)";
T.JoinChannel =
    "tuple(bytes32 channelId,address participant,uint256 amount,uint256 deadlineTimestamp,bytes data)";
T.SignedJoinChannel = "tuple(bytes encodedJoinChannel,bytes signature)";
T.JoinChannelAgreement = `tuple(${T.SignedJoinChannel} signedJoinChannel,address submitter,uint256 forkCnt,uint256 transactionCnt,bytes32 previousStateHash)`;
T.LeaveChannel =
    "tuple(bytes32 channelId,address participant,uint256 forkCnt,uint256 transactionCnt,bytes32 previousStateHash,uint256 deadlineTimestamp,bytes data)";
T.ProcessExit = "tuple(address participant,uint256 amount,bytes data)";
T.Proof = "tuple(uint8 proofType,bytes encodedProof)";
T.FoldRechallenge = "tuple(bytes encodedBlock,bytes[] signatures)";
T.DoubleSign = `tuple(tuple(${T.SignedBlock} block1,${T.SignedBlock} block2)[] doubleSigns)`;
T.IncorrectData = `tuple(${T.SignedBlock} block1,${T.SignedBlock} block2,bytes encodedState)`;
T.NewerState = "tuple(bytes encodedBlock,bytes confirmationSignature)";
T.FoldPriorBlock = "tuple(uint256 transactionCnt)";
T.BlockTooFarInFuture = `tuple(${T.SignedBlock} block1)`;
T.JoinProof =
    "tuple(bytes encodedSignedJoinChannel,bytes[] signatures)";
T.MathState = "tuple(uint256 number,address[] participants)";
T.VerifState =
    "tuple(uint256 number,address[] participants,uint256[] balances)";

const PROOF = {
    FoldRechallenge: 0,
    DoubleSign: 1,
    IncorrectData: 2,
    NewerState: 3,
    FoldPriorBlock: 4,
    BlockTooFarInFuture: 5,
    JoinChannel: 6,
    LeaveChannelForce: 7
};

const parsed = new Map();
const pt = (t) => {
    let p = parsed.get(t);
    if (!p) parsed.set(t, (p = [ethers.ParamType.from(T[t] || t)]));
    return p;
};
const enc = memo(
    (t, v) => coder.encode(pt(t), [v]),
    (t, v) => {
        const k = valueKey(v);
        return k === null ? null : t + "|" + k;
    }
);
const memoDec = new Map();
const plain = (r) =>
    Array.isArray(r) && typeof r.toObject === "function"
        ? (() => {
              let o;
              try {
                  o = r.toObject(false);
              } catch {
                  o = {};
              }
              const keys = Object.keys(o).filter((k) => k !== "_");
              if (r.length && keys.length === r.length && keys.every((k) => !/^\d+$/.test(k))) {
                  const x = {};
                  for (const k of keys) x[k] = plain(o[k]);
                  return x;
              }
              return [...r].map(plain);
          })()
        : r;
function dec(t, bytes) {
    const k = t + bytes;
    if (memoDec.has(k)) return memoDec.get(k);
    const v = plain(coder.decode(pt(t), bytes)[0]);
    if (memoDec.size > 200000) memoDec.clear();
    memoDec.set(k, v);
    return v;
}
const H = memo((b) => ethers.keccak256(b), (b) => (typeof b === "string" ? b : null));
const memoRec = new Map();
/** signer of keccak(data) under EIP-191, or null if the signature is not a valid 65-byte one */
function recover(data, sig) {
    const k = data + sig;
    if (memoRec.has(k)) return memoRec.get(k);
    let r = null;
    try {
        if (ethers.getBytes(sig).length === 65) {
            const v = parseInt(sig.slice(-2), 16);
            const s = BigInt("0x" + sig.slice(66, 130));
            if (
                (v === 27 || v === 28) &&
                s <= 0x7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0n
            )
                r = ethers.verifyMessage(ethers.getBytes(H(data)), sig);
        }
    } catch {
        r = null;
    }
    if (memoRec.size > 200000) memoRec.clear();
    memoRec.set(k, r);
    return r;
}
const memoSig = new Map();
function sign(wallet, data) {
    const k = wallet.address + data;
    let s = memoSig.get(k);
    if (!s) {
        s = wallet.signMessageSync(ethers.getBytes(H(data)));
        if (memoSig.size > 200000) memoSig.clear();
        memoSig.set(k, s);
    }
    return s;
}
const wallet = (i) =>
    new ethers.Wallet(ethers.zeroPadValue(ethers.toBeHex(0x1000 + i), 32));

function block({ channelId, participant, fork, cnt, ts, data = "0x", type = 0, encodedData = "0x", stateHash, prev }) {
    return enc("Block", {
        transaction: {
            header: {
                channelId,
                participant,
                forkCnt: fork,
                transactionCnt: cnt,
                timestamp: ts
            },
            body: { transactionType: type, encodedData, data }
        },
        stateHash,
        previousStateHash: prev
    });
}
module.exports = { T, PROOF, enc, dec, H, recover, sign, wallet, block, ethers, coder, plain };
