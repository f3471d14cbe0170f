// node wasm_run.js WASM_EXEC WASM TEXTS OUT: calls the JavaScript entry point
// with every text (a line of JSON each; null: no argument); process k of n
const fs = require("fs");
const [, , exec, wasm, texts, out, k, n] = process.argv;
globalThis.require = require;
globalThis.fs = fs;
if (!globalThis.crypto) globalThis.crypto = require("crypto").webcrypto;
require(exec);
(async () => {
  const go = new Go();
  const { instance } = await WebAssembly.instantiate(fs.readFileSync(wasm), go.importObject);
  go.run(instance);
  const lines = fs.readFileSync(texts, "utf8").split("\n").filter((l) => l !== "").filter((_, i) => i % n == k);
  const res = [];
  for (const l of lines) {
    const t = JSON.parse(l);
    let r;
    try {
      r = t === null ? globalThis.parseSoql() : globalThis.parseSoql(t);
      r = typeof r === "string" ? { s: r } : { e: "returned a " + typeof r };
    } catch (e) {
      r = { e: String(e) };
    }
    res.push(JSON.stringify(r));
  }
  fs.writeFileSync(out, res.join("\n") + "\n");
  process.exit(0);
})().catch((e) => { console.error(e); process.exit(3); });
