// Keeps the orchestrator's files inside the scratch directory: anything it
// reads or writes below /tmp is taken from VORCH_TMP instead.
const fs = require('fs');
const S = process.env.VORCH_TMP, keep = process.env.VORCH_ROOT;
const map = (p) => (typeof p === 'string' && p.startsWith('/tmp/') && !p.startsWith(keep)) ? S + p.slice(4) : p;
for (const o of [fs, fs.promises]) {
  for (const f of ['readFileSync', 'writeFileSync', 'existsSync', 'unlinkSync', 'statSync', 'readFile', 'writeFile', 'unlink', 'stat',
                   'openSync', 'open', 'createReadStream', 'rmSync', 'access', 'accessSync']) {
    const g = o[f];
    if (typeof g === 'function') o[f] = function (p, ...a) { return g.call(this, map(p), ...a); };
  }
  for (const f of ['mkdtempSync', 'mkdtemp', 'mkdirSync', 'mkdir']) {
    const g = o[f];
    if (typeof g === 'function') o[f] = function (p, ...a) { return g.call(this, map(p), ...a); };
  }
}
