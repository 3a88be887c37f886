// Runs the WebAssembly example and calls kagome_tokenize for texts.
// argv: wasm_exec.js, module, output. stdin: JSON list of lists of UTF-16 code units.
// output: one JSON value per line.
'use strict';
const fs = require('fs');
globalThis.require = require;
globalThis.fs = fs;
globalThis.path = require('path');
globalThis.TextEncoder = globalThis.TextEncoder || require('util').TextEncoder;
globalThis.TextDecoder = globalThis.TextDecoder || require('util').TextDecoder;
if (!globalThis.crypto) globalThis.crypto = require('crypto').webcrypto;
require(process.argv[2]);
const list = JSON.parse(fs.readFileSync(0, 'utf8'));
const out = fs.openSync(process.argv[4], 'w');
const go = new Go();
go.argv = ['kagome'];
go.exit = code => process.exit(code || 3);
WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then(r => {
  go.run(r.instance);
  let tries = 0;
  (function wait() {
    if (typeof globalThis.kagome_tokenize !== 'function') {
      if (tries++ > 1000) { process.stderr.write('no kagome_tokenize\n'); process.exit(4); }
      return setTimeout(wait, 10);
    }
    fs.writeSync(out, JSON.stringify({ empty: globalThis.kagome_tokenize() ?? null }) + '\n');
    for (const u of list) {
      let s = '';
      for (let i = 0; i < u.length; i += 4096) s += String.fromCharCode(...u.slice(i, i + 4096));
      const v = globalThis.kagome_tokenize(s);
      fs.writeSync(out, JSON.stringify(v ?? null) + '\n');
    }
    process.exit(0);
  })();
}).catch(e => { process.stderr.write(String(e && e.stack || e) + '\n'); process.exit(5); });
