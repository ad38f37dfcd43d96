// node run.mjs MODULE: commands on stdin, one event per command on stdout
import fs from 'fs';
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let x = null;
const lines = fs.readFileSync(0, 'utf8').split('\n');
const out = [];
for (const l of lines) {
  if (!l.trim()) continue;
  if (!x) x = new WebAssembly.Instance(mod).exports;
  const b = Buffer.from(l, 'utf8');
  try {
    const p = x.room(b.length) >>> 0;
    new Uint8Array(x.memory.buffer, p, b.length).set(b);
    const r = BigInt.asUintN(64, x.run(p, b.length));
    const at = Number(r >> 32n), n = Number(r & 0xffffffffn);
    out.push(Buffer.from(x.memory.buffer, at, n).toString('utf8'));
  } catch (e) {
    out.push(JSON.stringify({ op: 'trap', what: String(e).slice(0, 200) }));
    x = null;
  }
}
const fd = 1, data = Buffer.from(out.join('\n') + '\n');
for (let i = 0; i < data.length;) i += fs.writeSync(fd, data, i);
