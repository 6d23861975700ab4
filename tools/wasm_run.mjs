// Runs a driver built for wasm32: node wasm_run.mjs <module> <script> <out> [<seconds per session>]
import fs from 'fs';
import { Worker, isMainThread, workerData, parentPort } from 'worker_threads';
if (isMainThread) {
  const shared = new SharedArrayBuffer(16), seen = new Int32Array(shared);
  const w = new Worker(new URL(import.meta.url), { workerData: { argv: process.argv.slice(2), shared }, resourceLimits: { stackSizeMb: 16 } });
  const limit = Number(process.argv.at(-1)) || 60;
  let last = -1, idle = 0;
  const timer = setInterval(() => {
    if (seen[1] !== last) { last = seen[1]; idle = 0; }
    else if (limit > 0 && ++idle >= limit) { console.error(`session ${seen[0]} hangs`); process.exit(97); }
  }, 1000);
  w.on('error', e => { console.error('session ' + seen[0] + ': ' + (e.stack ?? e)); process.exit(101); });
  w.on('exit', c => { clearInterval(timer); process.exitCode = c; });
} else {
  const { argv, shared } = workerData, seen = new Int32Array(shared), enc = new TextEncoder(), dec = new TextDecoder();
  let mem, file, out;
  const at = (p, n) => new Uint8Array(mem.buffer, p >>> 0, n >>> 0);
  const args = argv.map(a => enc.encode(a));
  const host = {
    arg_len: i => i < args.length ? args[i].length : -1,
    arg_get: (i, p) => { at(p, args[i].length).set(args[i]); },
    var: (p, n) => process.env[dec.decode(at(p, n))] === undefined ? 0 : 1,
    read_len: (p, n) => { file = fs.readFileSync(dec.decode(at(p, n))); return file.length; },
    read_get: p => { at(p, file.length).set(file); },
    create_file: (p, n) => { out = fs.openSync(dec.decode(at(p, n)), 'w'); },
    write_file: (p, n) => { for (let b = at(p, n); b.length;) b = b.subarray(fs.writeSync(out, b)); },
    say: (p, n) => { fs.writeSync(2, dec.decode(at(p, n)) + '\n'); },
    ticked: id => { seen[0] = id; seen[1]++; },
  };
  const { instance } = await WebAssembly.instantiate(fs.readFileSync(argv[0]), { host });
  mem = instance.exports.memory;
  const rc = instance.exports.main(0, 0);
  if (rc) throw new Error('exit code ' + rc);
}
