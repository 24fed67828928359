// Detection server around the WebAssembly module, with the protocol of the other servers.
// A trap (a panic) ends it with what a panic ends with.
import { readFileSync, readSync, writeSync } from 'node:fs';

const { message, answer, memory } =
  new WebAssembly.Instance(new WebAssembly.Module(readFileSync(process.argv[2])), {}).exports;

let have = Buffer.alloc(0);

function need(n) {
  while (have.length < n) {
    const b = Buffer.alloc(1 << 16);
    let k;
    try {
      k = readSync(0, b);
    } catch (e) {
      if (e.code === 'EOF') process.exit(0);
      if (e.code === 'EAGAIN') continue;
      throw e;
    }
    if (k === 0) process.exit(0);
    have = Buffer.concat([have, b.subarray(0, k)]);
  }
}

for (;;) {
  need(4);
  let end = 4;
  for (let left = have.readUInt32LE(0); left > 0; left--) {
    need(end + 12);
    end += 12 + have.readUInt32LE(end + 8);
    need(end);
  }
  const at = message(end) >>> 0;
  new Uint8Array(memory.buffer, at, end).set(have.subarray(0, end));
  have = have.subarray(end);
  let p;
  try {
    p = answer(at, end) >>> 0;
  } catch (e) {
    if (e instanceof WebAssembly.RuntimeError) process.exit(101);
    throw e;
  }
  const b = new Uint8Array(memory.buffer, p, 256);
  writeSync(1, b.subarray(0, 1 + b[0]));
}
