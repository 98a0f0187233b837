// Feeds histories from stdin to the wasm32 module and writes the logs of their results to stdout.
// request: u32 length, bytes.  answer: u32 trapped (2: for want of memory), u32 entries, u32 message length, u32 memory pages, entries, message
const fs = require("fs");
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let x;
const fresh = () => { x = new WebAssembly.Instance(mod, {}).exports; };
function read(n) {
  const b = Buffer.alloc(n);
  let at = 0;
  while (at < n) {
    let k;
    try { k = fs.readSync(0, b, at, n - at, null); } catch (e) { if (e.code === "EAGAIN") continue; if (e.code === "EOF") process.exit(0); throw e; }
    if (k === 0) process.exit(0);
    at += k;
  }
  return b;
}
function write(b) {
  let at = 0;
  while (at < b.length) {
    try { at += fs.writeSync(1, b, at, b.length - at); } catch (e) { if (e.code !== "EAGAIN") throw e; }
  }
}
fresh();
for (;;) {
  const len = read(4).readUInt32LE(0);
  const body = read(len);
  let trapped = 0, why = "";
  try {
    const p = x.input(len) >>> 0;
    new Uint8Array(x.memory.buffer, p, len).set(body);
    x.run();
  } catch (e) { trapped = x.memory_full() ? 2 : 1; why = String(e); }
  const n = x.log_len() >>> 0, lp = x.log_ptr() >>> 0, ml = x.message_len() >>> 0, mp = x.message_ptr() >>> 0;
  const log = Buffer.from(x.memory.buffer.slice(lp, lp + n * 8));
  const msg = Buffer.from(why + " " + Buffer.from(x.memory.buffer.slice(mp, mp + (trapped ? ml : 0))).toString());
  const h = Buffer.alloc(16);
  const pages = x.memory.buffer.byteLength / 65536;
  h.writeUInt32LE(trapped, 0); h.writeUInt32LE(n, 4); h.writeUInt32LE(msg.length, 8); h.writeUInt32LE(pages, 12);
  write(Buffer.concat([h, log, msg]));
  if (trapped || pages > 4096) fresh();
}
