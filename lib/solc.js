"use strict";
// Compiles the working tree's Solidity (plus the harness contracts of /verif/contracts) with the
// solc that the repository's hardhat uses, one contract per worker process, in parallel.
// Results are cached under /verif/.build keyed by the content (comments stripped) of every source
// a contract depends on; the cache is an optimisation only.
const fs = require("fs");
const path = require("path");
const crypto = require("crypto");
const { fork } = require("child_process");

const REPO = process.env.VERIF_REPO || "/repo";
const VERIF = path.resolve(__dirname, "..");
const CACHE = path.join(VERIF, ".build");

const SETTINGS = {
    viaIR: true,
    optimizer: { enabled: true, runs: 100 },
    evmVersion: "paris"
};

function stripComments(src) {
    // string literals are kept as they are
    return src
        .replace(
            /("(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')|\/\/[^\n]*|\/\*[\s\S]*?\*\//g,
            (m, s) => (s ? s : " ")
        )
        .replace(/[ \t\r]+/g, " ")
        .replace(/ ?\n\s*/g, "\n");
}

function sourcePath(name) {
    if (name.startsWith("verif/"))
        return path.join(VERIF, "contracts", name.slice(6));
    if (name.startsWith("@")) return path.join(REPO, "node_modules", name);
    return path.join(REPO, name);
}

function collect(name, out = {}) {
    if (out[name]) return out;
    const content = stripComments(fs.readFileSync(sourcePath(name), "utf8"));
    out[name] = { content };
    for (const m of content.matchAll(
        /\bimport\s+(?:[^"';]*from\s+)?["']([^"']+)["']/g
    )) {
        let t = m[1];
        if (t.startsWith("."))
            t = path.posix.join(path.posix.dirname(name), t);
        collect(t, out);
    }
    return out;
}

/** targets: ["file.sol:Contract", ...] -> { Contract: {abi, bytecode, links} } */
async function compile(targets) {
    fs.mkdirSync(CACHE, { recursive: true });
    const results = {};
    await Promise.all(
        targets.map(async (t) => {
            const [file, contract] = t.split(":");
            const sources = collect(file);
            const key = crypto
                .createHash("sha256")
                .update(JSON.stringify([t, SETTINGS, sources]))
                .digest("hex");
            const cacheFile = path.join(CACHE, `${contract}-${key}.json`);
            let r;
            if (fs.existsSync(cacheFile)) {
                try {
                    r = JSON.parse(fs.readFileSync(cacheFile, "utf8"));
                } catch {}
            }
            if (!r) {
                r = await new Promise((resolve, reject) => {
                    const c = fork(__filename, ["--worker"], {
                        stdio: ["ignore", "ignore", "inherit", "ipc"]
                    });
                    let got;
                    c.on("message", (m) => (got = m));
                    c.on("exit", () =>
                        got
                            ? resolve(got)
                            : reject(new Error(`solc worker died on ${t}`))
                    );
                    c.send({ file, contract, sources });
                });
                if (r.errors) throw new Error(`solc: ${t}\n${r.errors}`);
                fs.writeFileSync(cacheFile + "." + process.pid, JSON.stringify(r));
                fs.renameSync(cacheFile + "." + process.pid, cacheFile);
            }
            results[contract] = r;
        })
    );
    return results;
}

module.exports = { compile, REPO, VERIF, CACHE };

if (require.main === module && process.argv[2] === "--worker") {
    process.on("message", ({ file, contract, sources }) => {
        const solc = require(
            path.join(REPO, "node_modules/hardhat/node_modules/solc")
        );
        const out = JSON.parse(
            solc.compile(
                JSON.stringify({
                    language: "Solidity",
                    sources,
                    settings: {
                        ...SETTINGS,
                        outputSelection: {
                            [file]: {
                                [contract]: [
                                    "abi",
                                    "evm.bytecode.object",
                                    "evm.bytecode.linkReferences"
                                ]
                            }
                        }
                    }
                })
            )
        );
        const errs = (out.errors || []).filter((e) => e.severity === "error");
        let msg;
        if (errs.length)
            msg = { errors: errs.map((e) => e.formattedMessage).join("\n") };
        else {
            const c = out.contracts[file][contract];
            msg = {
                abi: c.abi,
                bytecode: c.evm.bytecode.object,
                links: c.evm.bytecode.linkReferences
            };
        }
        process.send(msg, () => process.exit(0));
    });
}
