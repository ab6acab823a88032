// A small Internet Computer around real canisters, run by node's own WebAssembly engine.
// usage: node ic.mjs CLIENT.wasm FUNCTION [-m CANISTER.wasm]... [-p PARAM]... [-v VALUES]
// exit 0 if every check of the client held, 1 otherwise.
import fs from 'fs';
import zlib from 'zlib';
const [client, func, ...rest] = process.argv.slice(2);
const mods = [null], params = [], given = new Map();
for (let i = 0; i < rest.length; i += 2) {
  if (rest[i] === '-m') mods.push(compile(rest[i + 1]));
  else if (rest[i] === '-p') params.push(BigInt(rest[i + 1]));
  else if (rest[i] === '-v') for (const l of fs.readFileSync(rest[i + 1], 'utf8').split('\n')) { const k = l.lastIndexOf('='); if (k > 0) given.set(l.slice(0, k), BigInt(l.slice(k + 1))); }
  else throw new Error('argument ' + rest[i]);
}
// export the function table too, so that callbacks can be called
function compile(path) {
  const b = fs.readFileSync(path), out = [b.subarray(0, 8)];
  const leb = p => { let r = 0, s = 0, x; do { x = b[p++]; r += (x & 127) * 2 ** s; s += 7; } while (x & 128); return [r, p]; };
  const enc = n => { const o = []; do { let x = n % 128; n = Math.floor(n / 128); o.push(n ? x | 128 : x); } while (n); return Buffer.from(o); };
  for (let p = 8; p < b.length;) {
    const id = b[p]; const [n, q] = leb(p + 1);
    if (id === 7) {
      const [cnt, r] = leb(q);
      const body = Buffer.concat([enc(cnt + 1), b.subarray(r, q + n), Buffer.from([6]), Buffer.from('$table'), Buffer.from([1, 0])]);
      out.push(Buffer.from([7]), enc(body.length), body);
    } else if (id !== 0) out.push(b.subarray(p, q + n));
    p = q + n;
  }
  const m = new WebAssembly.Module(Buffer.concat(out));
  return { m, exp: new Set(WebAssembly.Module.exports(m).map(e => e.name)) };
}
class Trap extends Error {}
class Killed extends Error {}
let time = 0n, failed = 0; const occ = new Map(), slots = [], ctxs = [], calls = []; let msg = null;
const PAGE = 65536;
const U = x => Number(BigInt.asUintN(32, BigInt(x)));
function fresh(mo) {
  const s = { mo, mem: null, id: Buffer.from([]), stable: Buffer.alloc(0), timer: 0n, cert: Buffer.alloc(0) };
  inst(s);
  return s;
}
function inst(s, mem) {
  s.i = new WebAssembly.Instance(mods[s.mo].m, { ic0: ic0(s) });
  if (mem) { const m = s.i.exports.memory; if (m.buffer.byteLength < mem.length) m.grow((mem.length - m.buffer.byteLength) / PAGE); Buffer.from(m.buffer).set(mem); }
}
const B = s => Buffer.from(s.i.exports.memory.buffer);
const get = (s, p, n) => { p = U(p); n = U(n); const b = B(s); if (p + n > b.length) throw new Trap('bounds'); return Buffer.from(b.subarray(p, p + n)); };
const put = (s, p, d) => { p = U(p); const b = B(s); if (p + d.length > b.length) throw new Trap('bounds'); b.set(d, p); };
function ic0(s) {
  const copy = d => (dst, off, n) => { off = U(off); n = U(n); if (off + n > d().length) throw new Trap('copy'); put(s, dst, d().subarray(off, off + n)); };
  const inp = () => msg.resp ? (msg.resp.code === 0 ? msg.resp.data : Buffer.alloc(0)) : ctxs[msg.ctx].arg;
  const rej = () => msg.resp && msg.resp.code !== 0 ? msg.resp.data : Buffer.alloc(0);
  const done = () => { const c = ctxs[msg.ctx]; if (c.reply || c.reject) throw new Trap('second reply'); return c; };
  return {
    time: () => BigInt.asIntN(64, time), global_timer_set: t => { const o = s.timer; s.timer = BigInt.asUintN(64, t); return o; },
    data_certificate_present: () => +(msg.kind === 1), data_certificate_size: () => 8, data_certificate_copy: copy(() => Buffer.from('CERTCERT')),
    stable64_size: () => BigInt(s.stable.length / PAGE),
    stable64_grow: n => { const o = s.stable.length / PAGE; s.stable = Buffer.concat([s.stable, Buffer.alloc(Number(n) * PAGE)]); return BigInt(o); },
    stable64_read: (d, o, n) => { o = Number(o); n = Number(n); if (o + n > s.stable.length) throw new Trap('stable'); put(s, Number(d), s.stable.subarray(o, o + n)); },
    stable64_write: (o, p, n) => { o = Number(o); const d = get(s, Number(p), Number(n)); if (o + d.length > s.stable.length) throw new Trap('stable'); d.copy(s.stable, o); },
    canister_cycle_balance128: p => put(s, p, bal()), canister_liquid_cycle_balance128: p => put(s, p, bal()),
    debug_print: (p, n) => { if (process.env.LOGS) console.error('[can] ' + get(s, p, n)); },
    trap: (p, n) => { throw new Trap('' + get(s, p, n)); },
    msg_arg_data_size: () => inp().length, msg_arg_data_copy: copy(inp),
    msg_caller_size: () => ctxs[msg.ctx].caller.length, msg_caller_copy: copy(() => ctxs[msg.ctx].caller),
    msg_reply_data_append: (p, n) => { const c = ctxs[msg.ctx]; c.out = Buffer.concat([c.out, get(s, p, n)]); },
    msg_reply: () => { const c = done(); c.reply = c.out; c.out = Buffer.alloc(0); },
    msg_reject: (p, n) => { const d = get(s, p, n); done().reject = d; },
    msg_reject_code: () => msg.resp ? msg.resp.code : 0, msg_reject_msg_size: () => rej().length, msg_reject_msg_copy: copy(rej),
    canister_version: () => 1n, certified_data_set: (p, n) => { s.cert = get(s, p, n); },
    canister_self_size: () => s.id.length, canister_self_copy: copy(() => s.id),
    call_new: (a, b, c, d, rf, re, ef, ee) => { msg.cur = { slot: s, ctx: msg.ctx, callee: get(s, a, b), method: get(s, c, d), arg: Buffer.alloc(0), rf: [U(rf), re], ef: [U(ef), ee], cf: null, state: 0 }; },
    call_data_append: (p, n) => { msg.cur.arg = Buffer.concat([msg.cur.arg, get(s, p, n)]); },
    call_on_cleanup: (f, e) => { msg.cur.cf = [U(f), e]; }, call_cycles_add128: () => {}, call_with_best_effort_response: () => {},
    call_perform: () => { msg.staged.push(msg.cur); msg.cur = null; return 0; }, cost_call: (a, b, p) => put(s, p, Buffer.alloc(16)),
  };
}
function bal() { const b = Buffer.alloc(16); b.writeBigUInt64LE(1n << 60n); return b; }
function run(s, ctx, kind, f, resp, cleanup) {
  const snap = { mem: Buffer.from(B(s)), stable: Buffer.from(s.stable), timer: s.timer, cert: s.cert }, c = ctxs[ctx], cs = { out: c.out, reply: c.reply, reject: c.reject };
  const back = () => { inst(s, snap.mem); s.stable = snap.stable; s.timer = snap.timer; s.cert = snap.cert; };
  msg = { ctx, kind, resp, staged: [], cur: null };
  try {
    f(s);
  } catch (e) {
    if (!(e instanceof Trap || e instanceof WebAssembly.RuntimeError || e instanceof RangeError)) throw e;
    if (process.env.LOGS) console.error('trap: ' + e.message);
    back(); Object.assign(c, cs); msg = null;
    if (cleanup) return run(s, ctx, 8, t => t.i.exports.$table.get(cleanup[0])(cleanup[1]), null, null);
    if (kind !== 8 && c.status === 0 && c.open === 0) c.status = 3;
    return;
  }
  if (kind === 1 || kind === 10) back();
  for (const k of msg.staged) { c.open++; calls.push(k); }
  msg = null;
  if (c.status === 0) {
    if (c.reply) c.status = 1; else if (c.reject) c.status = 2;
    else if (c.open === 0) c.status = [0, 1, 7, 8].includes(kind) ? 3 : 1;
  }
}
let H;
const HB = () => Buffer.from(H.exports.memory.buffer), hs = (p, n) => Buffer.from(HB().subarray(p >>> 0, (p >>> 0) + n));
const field = (w, i) => w === 0 ? ctxs[i].reply || Buffer.alloc(0) : w === 1 ? ctxs[i].reject || Buffer.alloc(0) : w === 2 ? calls[i].callee : w === 3 ? calls[i].method : w === 4 ? calls[i].arg : w === 5 ? slots[i].cert : Buffer.alloc(0);
const next = n => { const k = occ.get(n) || 0; occ.set(n, k + 1); return given.get(n + '#' + k) || 0n; };
const sym = {
  sym: (w, p, n) => BigInt.asIntN(64, BigInt.asUintN(w, next('' + hs(p, n)))), choose: n => Number(next('choose')), param: i => params[i] || 0n,
  assume: b => { if (!b) throw new Killed(); }, check: (b, p, n) => { if (!b) { failed++; console.log('FAILED ' + hs(p, n)); } }, cover: () => {}, kill: () => { throw new Killed(); },
  install: (sl, mo) => { slots[sl] = fresh(mo); }, set_id: (sl, p, n) => { slots[sl].id = hs(p, n); },
  upgrade: (sl, mo) => { const o = slots[sl], s = fresh(mo); s.stable = o.stable; s.id = o.id; s.cert = o.cert; slots[sl] = s; },
  msg: (kind, sl, np, nn, ap, an, cp, cn) => {
    const name = '' + hs(np, nn), s = slots[sl], ex = mods[s.mo].exp;
    let e = kind === 0 ? (ex.has('canister_update ' + name) ? 'canister_update ' : 'canister_query ') + name : kind === 1 ? 'canister_query ' + name : { 2: 'canister_init', 3: 'canister_pre_upgrade', 4: 'canister_post_upgrade', 5: 'canister_global_timer', 9: 'canister_heartbeat', 10: 'canister_inspect_message' }[kind] || name;
    const id = ctxs.length;
    ctxs.push({ arg: hs(ap, an), caller: hs(cp, cn), out: Buffer.alloc(0), reply: null, reject: null, open: 0, status: 0 });
    if (!ex.has(e)) { ctxs[id].status = [3, 4, 6].includes(kind) ? 1 : 4; return id; }
    if (kind === 5) s.timer = 0n;
    if (process.env.LOGS) console.error('-- ' + e);
    run(s, id, kind, t => t.i.exports[e](), null, null);
    return id;
  },
  respond: (c, code, p, n) => {
    const k = calls[c], d = hs(p, n); k.state = 1; ctxs[k.ctx].open--;
    const [f, env] = code === 0 ? k.rf : k.ef;
    run(k.slot, k.ctx, 7, t => t.i.exports.$table.get(f)(env), { code, data: d }, k.cf);
    return k.ctx;
  },
  status: (w, i) => w === 0 ? ctxs[i].status : w === 1 ? calls[i].state : w === 2 ? (ctxs[i].reject ? 4 : 0) : w === 3 ? slots.indexOf(calls[i].slot) : w === 4 ? calls[i].ctx : 0,
  len: (w, i) => field(w, i).length, read: (w, i, p) => { HB().set(field(w, i), p >>> 0); },
  set_time: t => { time = BigInt.asUintN(64, t); }, ncalls: () => calls.length, timer: sl => slots[sl].timer, log: (p, n) => console.log('' + hs(p, n)), is_sym: () => 0, conc: x => x,
};
const cw = fs.readFileSync(client);
H = new WebAssembly.Instance(new WebAssembly.Module(client.endsWith(".gz") ? zlib.gunzipSync(cw) : cw), { sym });
try { H.exports[func](); } catch (e) { if (!(e instanceof Killed)) { console.log('client: ' + e); failed++; } else { console.log('assumption not met'); } }
process.exit(failed ? 1 : 0);
