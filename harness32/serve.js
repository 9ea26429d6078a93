// Requests on stdin (length, bytes), answers on stdout (status, length, bytes). Status 1: it trapped.
'use strict';
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let inst = null, uses = 0;
function fresh() {
  inst = new WebAssembly.Instance(mod, {}).exports;
  uses = 0;
  if (inst.pointer_bits() !== 32) process.exit(3);
}
function readAll(n) {
  const b = Buffer.allocUnsafe(n);
  let p = 0;
  while (p < n) {
    let k;
    try {
      k = fs.readSync(0, b, p, n - p, null);
    } catch (e) {
      if (e.code === 'EAGAIN') continue;
      throw e;
    }
    if (k === 0) process.exit(0);
    p += k;
  }
  return b;
}
function writeAll(b) {
  let p = 0;
  while (p < b.length) {
    try {
      p += fs.writeSync(1, b, p, b.length - p);
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
    }
  }
}
for (;;) {
  const len = readAll(4).readUInt32LE(0);
  const req = readAll(len);
  let status = 0;
  let out = Buffer.alloc(0);
  if (!inst || uses > 200) fresh();
  uses++;
  try {
    const p = inst.request(len) >>> 0;
    new Uint8Array(inst.memory.buffer, p, len).set(req);
    inst.run(p, len);
  } catch (e) {
    status = 1;
    out = Buffer.from(String(e));
  }
  const n = inst.result_len() >>> 0;
  if (n > 0) {
    const v = Buffer.from(new Uint8Array(inst.memory.buffer, inst.result_ptr() >>> 0, n));
    out = status ? Buffer.concat([v, Buffer.from(' / '), out]) : v;
  }
  if (status) inst = null;
  const head = Buffer.alloc(5);
  head[0] = status;
  head.writeUInt32LE(out.length, 1);
  writeAll(head);
  writeAll(out);
}
