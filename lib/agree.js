"use strict";
// Builders for join/leave agreements.
const { enc, H, sign, ethers } = require("./types");
function joinAgreement({ id, joiner, amount = 50, deadline, submitter, fork, cnt = 0, state, signers, by = joiner, rawSigs = [], innerId }) {
    const ej = enc("JoinChannel", { channelId: innerId || id, participant: joiner.address, amount, deadlineTimestamp: deadline, data: "0x" });
    const e = enc("JoinChannelAgreement", {
        signedJoinChannel: { encodedJoinChannel: ej, signature: sign(by, ej) },
        submitter: submitter.address, forkCnt: fork, transactionCnt: cnt, previousStateHash: H(state)
    });
    return { encodedJoinChannelAgreement: e, signatures: [...signers.map((s) => sign(s, e)), ...rawSigs] };
}
function leaveAgreement({ id, who, fork, cnt = 0, state, deadline, signers, rawSigs = [] }) {
    const e = enc("LeaveChannel", { channelId: id, participant: who.address, forkCnt: fork, transactionCnt: cnt, previousStateHash: H(state), deadlineTimestamp: deadline, data: "0x" });
    return { encodedLeaveChannel: e, signatures: [...signers.map((s) => sign(s, e)), ...rawSigs] };
}
module.exports = { joinAgreement, leaveAgreement };
