"use strict";
// What the holder of a key answers to a handshake challenge: asked from a real node with that key.
const K = require("./nodecheck");
const N = require("./node");
const answers = new Map();
/** the signature, or null if there is no answer */
async function answer(prep, w, challenge) {
    const k = w.address + challenge;
    if (!answers.has(k)) {
        const n = await new N.Node({ file: prep.file, iface: K.ifaceOf(prep), wallet: w, peers: ["x"], handshake: true }).start();
        const out = await n.step({ t: "msg", from: "x", data: N.rpc("onInitHandshakeRequest", challenge, Math.floor(n.now / 1000)) });
        const m = out.sent.map((x) => JSON.parse(x.data)).find((x) => x.method === "onInitHandshakeResponse");
        answers.set(k, m ? m.params[0] : null);
    }
    return answers.get(k);
}
module.exports = { answer };
