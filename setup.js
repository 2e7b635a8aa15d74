"use strict";
// Warms the compile cache (.build); every check rebuilds from /repo's working tree all the same.
(async () => {
    const fs = require("fs"), path = require("path");
    for (const f of fs.readdirSync(path.join(__dirname, "checks")).sort()) {
        const c = require("./checks/" + f);
        if (c.prepare) await c.prepare({ tier: "quick" });
    }
    console.log("ready");
    process.exit(0);
})().catch((e) => { console.error(e); process.exit(1); });
