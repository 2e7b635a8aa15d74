"use strict";
const { prop, check, m } = require("../meta");
const P2P = "src/P2PManager.ts", HS = "src/rpc/services/InitHandshakeService.ts", JS = "src/rpc/services/JoinChannelService.ts", PRM = "src/ProfileManager.ts", RTC = "src/rpc/services/WebRTCSetupService.ts", SGN = "src/evm/P2pSigner.ts", SCM = "src/utils/SignatureCollectionMap.ts", MRS = "src/rpc/MainRpcService.ts", RPC = "src/rpc/Rpc.ts", EU = "src/utils/EvmUtils.ts", SM = "src/stateManager/StateManager.ts";
const DIRECT = "The real SDK (all of /repo/src, bundled from the working tree) runs as a node whose every input is an explicit event, so an execution is a function of the event sequence; ";

prop("C18", "No message from a peer can bring a node down or change its course",
    "Whatever arrives over a connection - something that isn't JSON, an envelope without method or parameters, names of members that aren't remote procedures, parameters missing, added or of any other type, encoded blocks with any word altered, signatures by strangers - the node raises no unhandled error and doesn't hang; it adopts, sends, signs and submits nothing because of it; and it handles everything that comes before, at the same time and afterwards exactly as if it had not come.",
    ["inputs", "histories", "schedules"], "Some 900 malformed messages for all remote procedures at each of 8-9 points of a history of 8 events (next fork, blocks and confirmations by others, own transactions) in 3 situations of a node; one of each kind arriving while two events of the history are being processed, every schedule with 2 overtakings.",
    "Peers are adversaries; the tests send only well-formed messages, and where a malformed one leaves a lock taken or a state half changed shows only in what happens afterwards.",
    [P2P, RPC, MRS, "src/rpc/services/StateTransitionService.ts", SM, EU, HS, JS, RTC], [m("onRpc", P2P), m("deserializeRpc", RPC), m("onSignedBlock, onBlockConfirmation", SM), m("decodeBlock, retrieveSignerAddressBlock", EU)],
    { observe: ["messages sent", "signing requests", "calls of the contracts", "unhandled rejections", "adopted chain, signatures and state"] });
check("C18", "exhaustive enumeration of malformed messages at every point of a history, and of the schedules in which they race it, on the real node", DIRECT + "outputs of every step and the final chain must equal those of the same history without the message.");

prop("C19", "A connection counts as a peer's only if the peer answered that very challenge",
    "A connection is attributed to an address, and reported as connected, only if the answer received over it is a signature by that address on the fresh random challenge sent over this connection, not answered before, within the agreement time and with a time stamp within it; answers for other connections, earlier challenges, reflected ones, late, early, malformed ones don't do. A timely answer is always accepted, and the latest connection of an address is the one it's reached over. A node answers timely challenges on the connection they came over, and what it signs for that is of no use as its signature on anything else in the protocol: no block, join request, state, whatever challenge is sent.",
    ["histories", "inputs", "schedules"], "Two connections and a history of up to 3 events (thorough: 4) out of 21 core events, up to 2 (3) out of 46: opening, closing, time passing, answers by two peers and reflected ones to this, the other and the previous challenge, 9 variants of answers, 18 challenges incl. hashes of blocks, join requests, states; slow signing in every order of completion.",
    "Authentication is about what no sequence of messages may achieve; no existing test covers the handshake at all.",
    [HS, PRM, P2P, SGN], [m("initHandshake, onInitHandshakeRequest, onInitHandshakeResponse", HS), m("registerProfile, updateTransport", PRM), m("signMessage", SGN)],
    { observe: ["attribution of transports by the profile manager", "onConnection hook", "answers sent, and over which connection", "what the signer is asked to sign"] });
check("C19", "exhaustive enumeration of bounded event sequences on the real node in lock-step with a model", DIRECT + "a model of each connection (challenge, time, answered, whose) is kept next to it and compared after each event; answers come from other real nodes; every signature given is tested for use as a signature on valuable data.");

prop("C20", "Open connections, their owners and what is sent over them stay consistent",
    "However connections come up, are identified, fail, hang up, are replaced by a newer one of the same peer, are upgraded to WebRTC or removed: exactly the open ones count as open, each once; a broadcast is sent once over each of them, even if sending over another one fails; an ended one is no longer attributed to its peer, and its socket is closed once; a peer is reached over its latest identified connection if that is open; errors of sockets raise no unhandled error; WebRTC offers, answers and candidates of a peer go to the WebRTC connection with that peer; disconnecting or disposing of a node closes all connections, leaves the topics and stops listening to the chain.",
    ["histories", "fault_sequences"], "8 combinations of up to two sockets (hyperswarm, ws) and WebRTC connections offered by or to one or two peers: all states up to 4 events deep (thorough: 5), each socket opened up to twice, failing to send, failing or hanging up at any point.",
    "The transports are never exercised by the existing tests; what goes wrong needs a failure at the wrong moment of a sequence.",
    [P2P, PRM, "src/PeerProfile.ts", "src/transport/ATransport.ts", "src/transport/HolepunchTransport.ts", "src/transport/LocalTransport.ts", "src/transport/WebRTCTransport.ts", RTC, "src/Holepunch.ts", HS], [m("addConnection, removeConnection, broadcastRpc, disconnectAll, dispose", P2P), m("updateTransport, removeTransport", PRM), m("close", "src/transport/ATransport.ts"), m("initiateWebRTC, onOfferWebRTC, onAnswerWebRTC, onIceCandidate", RTC), m("join, leaveTopics", "src/Holepunch.ts")],
    { observe: ["open connections of the node", "profiles", "what is written to and how often each socket is ended", "unhandled errors"] });
check("C20", "explicit-state exploration of the real node with its real transports over simulated sockets, compared with a model after each event", DIRECT + "breadth-first over all events, states with the same contents are merged; faults of sockets are events.");

prop("C24", "A join request counts as confirmed once all current participants signed it",
    "A node confirms a request to join exactly if it is for its own channel, in the one form that the contracts accept, signed by the participant it names, and its deadline isn't over; it signs and passes on each such request once. A request counts as confirmed, once only, as soon as the node holds valid confirmations of it by all current participants, and then with exactly one signature of each of them; confirmations by others, for other requests or in other forms don't count, and none that arrives before the deadline is lost, whatever the order and even if it arrives together with the request. Among honest connected participants a request that reaches one of them ends up confirmed at all of them, and the messages come to an end.",
    ["histories", "inputs", "schedules"], "4 situations (participant of 1-3, or none): every sequence of 3 of 37 events (requests in 17 forms, confirmations by everybody in 7 forms, time, changes of the participants), of 4 of 10; 3 arrivals with signing and reading slow, every schedule with 2 overtakings; 2-3 nodes, all orders of delivery (thorough: one more each).",
    "Which confirmations arrive in which order, before or after the request, and when the deadline passes between them, is what single calls in tests don't vary; nothing tests this service at present.",
    [JS, SCM, EU, "src/rpc/RpcProxy.ts"], [m("onJoinChannelRequest", JS), m("tryInsert, didEveryoneSign", SCM), m("encodeJoinChannel, decodeJoinChannel, signJoinChannel", EU)],
    { observe: ["queue of confirmed requests", "messages sent", "signing requests"] });
check("C24", "exhaustive enumeration of bounded event sequences and schedules on the real node in lock-step with a model, and explicit-state exploration of several nodes", DIRECT + "a model of the requests known, confirmed by whom and queued is compared after each event; several real nodes exchange messages in all orders.");
