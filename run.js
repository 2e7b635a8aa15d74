"use strict";
const { main, worker } = require("./lib/runner");
const a = process.argv.slice(2);
if (a[0] === "--worker") worker(a[1]);
else
    main(a).catch((e) => {
        console.error(e && e.stack ? e.stack : e);
        process.exit(3);
    });
