#!/usr/bin/env node
// Replays a counterexample found by the symbolic executor: runs the same WebAssembly module (the
// compiled repository code plus the harness) concretely in V8 with the inputs of the model.
// exit 1: the violation reproduces; exit 0: it does not; exit 2: the replay could not be done
'use strict';
const fs = require('fs');

// ---- keccak-256 ----
const RC = [];
const ROT = [];
(() => {
  let r = 1n;
  const lfsr = () => { const b = r & 1n; r = (r << 1n) ^ ((r >> 7n) * 0x171n); return b; };
  for (let i = 0; i < 24; i++) {
    let c = 0n;
    for (let j = 0; j < 7; j++) if (lfsr()) c |= 1n << ((1n << BigInt(j)) - 1n);
    RC.push(c);
  }
})();
const M64 = (1n << 64n) - 1n;
const rol = (x, n) => n === 0n ? x : ((x << n) | (x >> (64n - n))) & M64;
function keccakF(s) {
  for (let r = 0; r < 24; r++) {
    const C = [];
    for (let x = 0; x < 5; x++) C.push(s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20]);
    for (let x = 0; x < 5; x++) {
      const d = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1n);
      for (let y = 0; y < 25; y += 5) s[x + y] ^= d;
    }
    let x = 1, y = 0, cur = s[1];
    for (let t = 0; t < 24; t++) {
      const nx = y, ny = (2 * x + 3 * y) % 5;
      x = nx; y = ny;
      const sh = BigInt((((t + 1) * (t + 2)) / 2) % 64);
      const tmp = s[x + 5 * y];
      s[x + 5 * y] = rol(cur, sh);
      cur = tmp;
    }
    for (let y = 0; y < 25; y += 5) {
      const row = s.slice(y, y + 5);
      for (let x = 0; x < 5; x++) s[y + x] = row[x] ^ ((~row[(x + 1) % 5] & M64) & row[(x + 2) % 5]);
    }
    s[0] ^= RC[r];
  }
}
function keccak(b) {
  const rate = 136;
  const n = Math.floor(b.length / rate) + 1;
  const p = new Uint8Array(n * rate);
  p.set(b);
  p[b.length] ^= 1;
  p[p.length - 1] ^= 0x80;
  const s = new Array(25).fill(0n);
  for (let i = 0; i < n; i++) {
    for (let j = 0; j < rate / 8; j++) {
      let v = 0n;
      for (let k = 7; k >= 0; k--) v = (v << 8n) | BigInt(p[i * rate + j * 8 + k]);
      s[j] ^= v;
    }
    keccakF(s);
  }
  const o = new Uint8Array(32);
  for (let i = 0; i < 32; i++) o[i] = Number((s[i >> 3] >> BigInt(8 * (i & 7))) & 0xffn);
  return o;
}
const hex = (u) => Buffer.from(u).toString('hex');
const unhex = (h) => new Uint8Array(Buffer.from(h, 'hex'));

if (hex(keccak(new Uint8Array(0))) !== 'c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470') {
  console.log('replay: keccak self-test failed');
  process.exit(2);
}

const [, , wasmFile, jsonFile] = process.argv;
const M = JSON.parse(fs.readFileSync(jsonFile, 'utf8'));
const log = (...a) => console.log('replay:', ...a);

class Violation extends Error {}
class Finished extends Error {}
class Reached extends Error {}
class BadReplay extends Error {}

let inst, mem;
const u8 = () => new Uint8Array(mem.buffer);
const rd = (p, n) => u8().slice(p >>> 0, (p >>> 0) + n);
const wr = (p, b) => u8().set(b, p >>> 0);
const str = (p, n) => Buffer.from(rd(p, n)).toString('latin1');
const wr32 = (p, v) => wr(p, [v & 255, (v >> 8) & 255, (v >> 16) & 255, (v >>> 24) & 255]);

let ip = 0;
const next = (k) => {
  const i = M.inputs[ip++];
  if (!i || i[k] === undefined) throw new BadReplay(`input ${ip - 1}: expected ${k}`);
  return i;
};
const S = new Map(Object.entries(M.S0_));
const BAL = new Map(Object.entries(M.BAL_));
const env = { ...M.env };
let logs = [], calls = [], retdata = new Uint8Array(0), callback = 0, pend = [0, new Uint8Array(0)];
let trapMode = null, writes = 0;
const hash = (b) => {
  if (!M.real_keccak) { const h = M.hashes[hex(b)]; if (h) return unhex(h); }
  return keccak(b);
};
function doCall(kind, to, d, l, value, lp) {
  const rec = { kind, target: rd(to, 20), value, data: rd(d, l), status: 0, ret: new Uint8Array(0) };
  const idx = calls.length;
  calls.push(rec);
  if (callback) {
    pend = [0, new Uint8Array(0)];
    inst.exports.__indirect_function_table.get(callback)(idx);
    rec.status = pend[0];
    rec.ret = pend[1];
  } else {
    const r = next('ret');
    rec.status = r.status;
    rec.ret = unhex(r.ret);
  }
  retdata = rec.ret;
  wr32(lp, rec.ret.length);
  return rec.status;
}
const vm = {
  pay_for_memory_grow() {}, storage_flush_cache() {}, msg_reentrant: () => 0,
  msg_sender: (p) => wr(p, unhex(env.sender)),
  contract_address: (p) => wr(p, unhex(env.self)),
  msg_value: (p) => wr(p, unhex(env.value)),
  block_timestamp: () => BigInt.asIntN(64, BigInt('0x' + env.timestamp)),
  block_number: () => BigInt.asIntN(64, BigInt('0x' + env.number)),
  chainid: () => BigInt.asIntN(64, BigInt('0x' + env.chainid)),
  evm_gas_left: () => (1n << 63n) - 1n, evm_ink_left: () => (1n << 63n) - 1n, tx_ink_price: () => 10000,
  account_balance: (a, d) => wr(d, unhex(BAL.get(hex(rd(a, 20))) || '00'.repeat(32))),
  account_code_size: (a) => parseInt(M.CS_[hex(rd(a, 20))] || '0', 16) | 0,
  account_codehash: (a, d) => wr(d, unhex(M.CH_[hex(rd(a, 20))] || '00'.repeat(32))),
  storage_load_bytes32: (k, d) => wr(d, unhex(S.get(hex(rd(k, 32))) || '00'.repeat(32))),
  storage_cache_bytes32: (k, d) => { writes++; S.set(hex(rd(k, 32)), hex(rd(d, 32))); },
  native_keccak256: (p, l, d) => wr(d, hash(rd(p, l))),
  emit_log: (p, l, k) => { logs.push([rd(p, l), k]); },
  return_data_size: () => retdata.length,
  read_return_data: (d, off, sz) => {
    const k = Math.min(Math.max(retdata.length - off, 0), sz);
    wr(d, retdata.slice(off, off + k));
    return k;
  },
  write_result() {},
  call_contract: (to, d, l, v, gas, lp) => doCall(0, to, d, l, rd(v, 32), lp),
  static_call_contract: (to, d, l, gas, lp) => doCall(1, to, d, l, new Uint8Array(32), lp),
  delegate_call_contract: (to, d, l, gas, lp) => doCall(2, to, d, l, new Uint8Array(32), lp),
};
const sym = (p, n, np, nl) => {
  if (!n) return;
  const i = next('sym');
  log('  input', i.name, '=', i.num);
  wr(p, unhex(i.sym));
};
const le = (p, n) => rd(p, n).reduceRight((s, b) => (s << 8n) | BigInt(b), 0n);
const ws = {
  sym_le: sym, sym_be: sym,
  sym_u32: () => { const i = next('sym'); log('  input', i.name, '=', i.num); return Number(BigInt(i.num)) | 0; },
  sym_u64: () => { const i = next('sym'); log('  input', i.name, '=', i.num); return BigInt.asIntN(64, BigInt(i.num)); },
  bound: (a, b, q, t) => M.thorough ? t : q,
  choose: () => next('choose').choose,
  assume: (c) => { if (!c) throw new BadReplay('assumption does not hold'); },
  check: (c, p, n) => { if (!c) throw new Violation(str(p, n)); },
  cover: (p, n) => { if (M.kind === 'witness' && str(p, n) === M.msg) throw new Reached(); }, merge() {}, fresh_storage() {}, lazy() {}, cut() {},
  check_mul: (r, rn, k, a, an, b, bn, m, mn, below, p, n) => {
    if (((le(r, rn) << BigInt(k)) - le(a, an) * le(b, bn)) % le(m, mn) || (below && le(r, rn) >= le(m, mn))) throw new Violation(str(p, n));
  },
  dbg: (v, p, n) => log('  dbg', str(p, n), v), dbg_mem: (q, k, p, n) => log('  dbg', str(p, n), hex(rd(q, k))),
  expect_trap: (c) => { trapMode = ['iff', c]; },
  allow_trap: (c) => { trapMode = ['only', c]; },
  end_expect: () => { if (trapMode && trapMode[0] === 'iff' && trapMode[1]) throw new Violation('expected a trap'); trapMode = null; },
  stop: () => { throw new Finished(); },
  set_sender: (p) => { env.sender = hex(rd(p, 20)); },
  set_self: (p) => { env.self = hex(rd(p, 20)); },
  set_value: (p) => { env.value = hex(rd(p, 32)); },
  set_timestamp: (t) => { env.timestamp = BigInt.asUintN(64, t).toString(16).padStart(16, '0'); },
  set_balance: (a, v) => { BAL.set(hex(rd(a, 20)), hex(rd(v, 32))); },
  on_call: (f) => { callback = f; },
  set_return: (s, p, n) => { pend = [s, rd(p, n)]; },
  ret_lens() {},
  n_logs: () => logs.length, log_topics: (i) => logs[i][1], log_len: (i) => logs[i][0].length,
  log_read: (i, p) => wr(p, logs[i][0]),
  n_calls: () => calls.length,
  call_info: (i, p, q) => { wr(p, calls[i].target); wr(q, calls[i].value); return calls[i].kind; },
  call_len: (i) => calls[i].data.length, call_data: (i, p) => wr(p, calls[i].data),
  call_status: (i) => calls[i].status, call_ret_len: (i) => calls[i].ret.length,
  call_ret: (i, p) => wr(p, calls[i].ret),
  n_writes: () => writes,
  uf: (a, b, p, l, o, ol) => {
    const k = `${str(a, b)}_${l}:${hex(rd(p, l))}`;
    wr(o, M.ufs[k] ? unhex(M.ufs[k]) : keccak(Buffer.from(k)).slice(0, ol));
  },
};
const proxy = (o) => new Proxy(o, { get: (t, n) => t[n] || (() => { throw new BadReplay('host function ' + String(n)); }) });

if (M.kind === 'hang' && !process.env.WSYM_HANG) {
  const r = require('child_process').spawnSync(process.execPath, [__filename, wasmFile, jsonFile], { timeout: 3000, env: { ...process.env, WSYM_HANG: '1' }, killSignal: 'SIGKILL' });
  if (r.error && r.error.code === 'ETIMEDOUT') {
    log(`harness ${M.harness}: ${M.msg}`);
    for (const [k, v] of Object.entries(M.inputs || {})) log('  input', k, '=', v);
    log('REPRODUCED: the call was still running after 3 s');
    process.exit(1);
  }
  process.stdout.write(r.stdout);
  process.exit(r.status === null ? 2 : r.status);
}
const mod = new WebAssembly.Module(fs.readFileSync(wasmFile));
inst = new WebAssembly.Instance(mod, { vm_hooks: proxy(vm), wsym: proxy(ws) });
mem = inst.exports.memory;
log(`harness ${M.harness}: ${M.msg}`);
try {
  inst.exports[M.harness]();
  if (trapMode && trapMode[0] === 'iff' && trapMode[1]) {
    log('REPRODUCED: expected an abort, the call returned');
    process.exit(1);
  }
  log('not reproduced (the harness finished)');
  process.exit(M.kind === 'witness' ? 2 : 0);
} catch (e) {
  if (e instanceof Reached) { log('witness reached:', M.msg); process.exit(0); }
  if (e instanceof Violation) {
    log('REPRODUCED:', e.message);
    process.exit(1);
  }
  if (e instanceof Finished) { log('not reproduced (stopped)'); process.exit(M.kind === 'witness' ? 2 : 0); }
  if (e instanceof BadReplay) { log('cannot replay:', e.message); process.exit(2); }
  if (e instanceof WebAssembly.RuntimeError) {
    if (trapMode && trapMode[1]) { log('not reproduced (specified abort)'); process.exit(M.kind === 'witness' ? 2 : 0); }
    log('REPRODUCED: unspecified abort:', e.message, (e.stack || '').split('\n').slice(1, 12).map((x) => x.trim().split(' ')[1]).join(' <- '));
    process.exit(1);
  }
  log('error', e);
  process.exit(2);
}
