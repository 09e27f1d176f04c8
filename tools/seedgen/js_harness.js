// Runs the TypeScript client of the repository (js/src, relative to the working directory) on accounts laid out by hand,
// with small stand-ins for its three dependencies.   node js_harness.js <test>...
const fs = require("fs"), path = require("path"), Module = require("module"), assert = require("assert");
const ts = require("/opt/veriftools/node/node_modules/typescript");

// ---------------------------------------------------------------- stand-ins
class BN {
  constructor(x, base) {
    if (x instanceof BN) this.v = x.v;
    else if (typeof x === "bigint") this.v = x;
    else if (typeof x === "number") { if (!Number.isInteger(x)) throw new Error("BN of a fraction"); this.v = BigInt(x); }
    else if (typeof x === "string") this.v = base === 16 || base === "hex" ? BigInt("0x" + x) : BigInt(x);
    else if (x === undefined || x === null) this.v = 0n;
    else { this.v = 0n; const a = [...x]; if (base === "le") a.reverse(); for (const b of a) this.v = this.v * 256n + BigInt(b); }
  }
  static isBN(x) { return x instanceof BN; }
  static max(a, b) { return a.v > b.v ? a : b; }
  static min(a, b) { return a.v < b.v ? a : b; }
  clone() { return new BN(this.v); }
  toNumber() { if (this.v > 9007199254740991n || this.v < -9007199254740991n) throw new Error("Number can only safely store up to 53 bits"); return Number(this.v); }
  toString(b) { return this.v.toString(b || 10); }
  valueOf() { return NaN; }
  bitLength() { return this.v === 0n ? 0 : this.v.toString(2).length; }
  byteLength() { return Math.ceil(this.bitLength() / 8); }
  isZero() { return this.v === 0n; }
  isNeg() { return this.v < 0n; }
  isOdd() { return (this.v & 1n) === 1n; }
  isEven() { return (this.v & 1n) === 0n; }
  neg() { return new BN(-this.v); }
  abs() { return new BN(this.v < 0n ? -this.v : this.v); }
  cmp(o) { return this.v < o.v ? -1 : this.v > o.v ? 1 : 0; }
  notn(w) { return new BN(((1n << BigInt(w)) - 1n) ^ this.v); }
  inotn(w) { this.v = this.notn(w).v; return this; }
  testn(b) { return ((this.v >> BigInt(b)) & 1n) === 1n; }
  maskn(b) { return new BN(this.v & ((1n << BigInt(b)) - 1n)); }
  setn(b, x) { const m = 1n << BigInt(b); this.v = x ? this.v | m : this.v & ~m; return this; }
  bincn(b) { return new BN(this.v + (1n << BigInt(b))); }
  divRound(o) { return new BN((2n * this.v + o.v) / (2n * o.v)); }
  toArray(e, n) { const r = []; let v = this.v; while (v > 0n) { r.push(Number(v & 255n)); v >>= 8n; } while (r.length < (n || 1)) r.push(0); return e === "le" ? r : r.reverse(); }
  toArrayLike(T, e, n) { return T.from(this.toArray(e, n)); }
  toBuffer(e, n) { return Buffer.from(this.toArray(e, n)); }
}
const OPS = { add: (a, b) => a + b, sub: (a, b) => a - b, mul: (a, b) => a * b, div: (a, b) => a / b, mod: (a, b) => a % b, umod: (a, b) => ((a % b) + b) % b, pow: (a, b) => a ** b,
  and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b, shl: (a, b) => a << b, shr: (a, b) => a >> b, uand: (a, b) => a & b, uor: (a, b) => a | b, uxor: (a, b) => a ^ b };
for (const k in OPS) {
  BN.prototype[k] = function (o) { if (!(o instanceof BN)) throw new Error("not a BN"); return new BN(OPS[k](this.v, o.v)); };
  BN.prototype["i" + k] = function (o) { if (!(o instanceof BN)) throw new Error("not a BN"); this.v = OPS[k](this.v, o.v); return this; };
  BN.prototype[k + "n"] = function (o) { return new BN(OPS[k](this.v, BigInt(o))); };
  BN.prototype["i" + k + "n"] = function (o) { this.v = OPS[k](this.v, BigInt(o)); return this; };
}
BN.prototype.ushln = BN.prototype.shln; BN.prototype.ushrn = BN.prototype.shrn;
BN.prototype.divn = function (o) { return new BN(this.v / BigInt(o)); };
BN.prototype.modn = BN.prototype.modrn = function (o) { return Number(this.v % BigInt(o)); };
const CMP = { eq: (a, b) => a === b, lt: (a, b) => a < b, lte: (a, b) => a <= b, gt: (a, b) => a > b, gte: (a, b) => a >= b };
for (const k in CMP) {
  BN.prototype[k] = function (o) { return CMP[k](this.v, o.v); };
  BN.prototype[k + "n"] = function (o) { return CMP[k](this.v, BigInt(o)); };
}
BN.prototype.cmpn = function (o) { return this.cmp(new BN(o)); };
BN.BN = BN;

const WIDTH = { u8: 1, u16: 2, u32: 4, u64: 8, u128: 16, u256: 32, u512: 64 };
function rd(buf, pos, n) {
  if (pos + n > buf.length) throw new Error("Error: Reached the end of buffer when deserializing");
  let v = 0n;
  for (let i = n - 1; i >= 0; i--) v = v * 256n + BigInt(buf[pos + i]);
  return v;
}
function readField(ty, buf, at) {
  if (typeof ty === "string") {
    const n = WIDTH[ty], v = rd(buf, at.p, n);
    at.p += n;
    return n <= 4 ? Number(v) : new BN(v);
  }
  if (ty.length === 1 && typeof ty[0] === "number") {
    if (at.p + ty[0] > buf.length) throw new Error("Reached the end of buffer");
    const r = Uint8Array.from(buf.subarray ? buf.subarray(at.p, at.p + ty[0]) : buf.slice(at.p, at.p + ty[0]));
    at.p += ty[0];
    return r;
  }
  let n = ty[1];
  if (n === undefined) { n = Number(rd(buf, at.p, 4)); at.p += 4; }
  const r = [];
  for (let i = 0; i < n; i++) r.push(readField(ty[0], buf, at));
  return r;
}
function deserializeUnchecked(schema, cls, buf) {
  const s = schema.get(cls), at = { p: 0 }, o = {};
  for (const [n, t] of s.fields) o[n] = readField(t, buf, at);
  return new cls(o);
}
function deserialize(schema, cls, buf) {
  const s = schema.get(cls), at = { p: 0 }, o = {};
  for (const [n, t] of s.fields) o[n] = readField(t, buf, at);
  if (at.p < buf.length) throw new Error("Unexpected bytes after deserialized data");
  return new cls(o);
}
function writeField(ty, v, out) {
  if (typeof ty === "string") {
    if (v === undefined || v === null) throw new Error("no value");
    let x = v instanceof BN ? v.v : BigInt(v);
    for (let i = 0; i < WIDTH[ty]; i++) { out.push(Number(x & 255n)); x >>= 8n; }
  } else if (ty.length === 1 && typeof ty[0] === "number") out.push(...v);
  else { if (ty[1] === undefined) writeField("u32", v.length, out); for (const x of v) writeField(ty[0], x, out); }
}
function serialize(schema, o) {
  const out = [];
  for (const [n, t] of schema.get(o.constructor).fields) writeField(t, o[n], out);
  return Uint8Array.from(out);
}
let nkeys = 0;
class PublicKey {
  constructor(x) { this.s = typeof x === "string" ? x : Buffer.from(x).toString("hex"); }
  toBuffer() { return Buffer.alloc(32); }
  toBytes() { return new Uint8Array(32); }
  toBase58() { return this.s; }
  toString() { return this.s; }
  equals(o) { return this.s === o.s; }
}
class Keypair {
  constructor() { this.publicKey = new PublicKey("keypair" + ++nkeys); }
  static generate() { return new Keypair(); }
}
class TransactionInstruction { constructor(o) { Object.assign(this, o); } }
const STANDIN = {
  "bn.js": Object.assign(BN, { default: BN, __esModule: true }),
  borsh: { serialize, deserialize, deserializeUnchecked },
  "@solana/web3.js": { PublicKey, Keypair, TransactionInstruction, SystemProgram: { createAccount: (o) => ({ creates: o }) }, Connection: class {} },
};
const load0 = Module._load;
Module._load = function (n, ...r) { return STANDIN[n] || load0.call(this, n, ...r); };
require.extensions[".ts"] = (m, f) => m._compile(ts.transpileModule(fs.readFileSync(f, "utf8"), { compilerOptions: { module: "commonjs", target: "es2022", esModuleInterop: true, useDefineForClassFields: false } }).outputText, f);
const SRC = path.join(process.cwd(), "js", "src");
const slabm = require(path.join(SRC, "slab.ts")), eqm = require(path.join(SRC, "event_queue.ts")), msm = require(path.join(SRC, "market_state.ts")),
  rawm = require(path.join(SRC, "raw_instructions.ts")), utm = require(path.join(SRC, "utils.ts")), bim = require(path.join(SRC, "bindings.ts"));
const { Slab } = slabm, { EventQueue, EventFill, EventOut } = eqm;

// ---------------------------------------------------------------- accounts as the program lays them out
function put(b, pos, n, v) { v = BigInt(v); for (let i = 0; i < n; i++) { b[pos + i] = Number(v & 255n); v >>= 8n; } }
let seed = 12345n;
function rnd(n) { seed = (seed * 6364136223846793005n + 1442695040888963407n) & ((1n << 64n) - 1n); return Number((seed >> 33n) % BigInt(n)); }
const INNER = 1n << 31n;

/** an order book account holding orders = [[price, seq, qty], ...] */
function book(orders, cap, cb, extra = 0, tag = 131) {
  const size = 8 + 32 + 24 + cb + (cap - 1) * (24 + 32 + cb) + extra;
  const b = Buffer.alloc(size), n = Math.floor((size - 40 - 24 - cb) / (56 + cb));
  const leafOff = 40, innerOff = 40 + (n + 1) * 24, cbOff = innerOff + n * 32;
  put(b, 0, 8, tag);
  const keys = [];
  let root = null, leaves = 0, inners = 0;
  const nodes = new Map();
  const bit = (k, i) => Number((k >> (127n - BigInt(i))) & 1n);
  const plen = (a, c) => { let x = a ^ c; let l = 0; while (x) { x >>= 1n; l++; } return 128 - l; };
  for (const [price, seq, qty] of orders) {
    const key = (BigInt(price) << 64n) | BigInt(seq), h = BigInt(leaves++);
    keys.push(key);
    nodes.set(h, { leaf: true, key, qty });
    if (root === null) { root = h; continue; }
    let at = root, put_ = (x) => { root = x; };
    for (;;) {
      const nd = nodes.get(at), l = plen(nd.key, key);
      if (nd.leaf || l < nd.plen) {
        const ih = ((1n << 32n) - 1n) - BigInt(inners++);
        const me = bit(key, l), ch = me ? [at, h] : [h, at];
        nodes.set(ih, { key, plen: l, ch });
        put_(ih);
        break;
      }
      const d = bit(key, nd.plen);
      put_ = ((nd, d) => (x) => { nd.ch[d] = x; })(nd, d);
      at = nd.ch[d];
    }
  }
  for (const [h, nd] of nodes) {
    if (nd.leaf) {
      const o = leafOff + Number(h) * 24;
      put(b, o, 16, nd.key); put(b, o + 16, 8, nd.qty);
      for (let i = 0; i < cb; i++) b[cbOff + Number(h) * cb + i] = (Number(h) * 7 + i + 1) & 255;
    } else {
      const o = innerOff + Number(((1n << 32n) - 1n) ^ h) * 32;
      put(b, o, 16, nd.key); put(b, o + 16, 8, nd.plen); put(b, o + 24, 4, nd.ch[0]); put(b, o + 28, 4, nd.ch[1]);
    }
  }
  [3, 5, leaves, 1, 7, inners, root === null ? 0 : root, leaves].forEach((v, i) => put(b, 8 + 4 * i, 4, v));
  return { b, keys, nodes, root, n };
}
const sorted = (o) => [...o].sort((x, y) => (x[0] !== y[0] ? (BigInt(x[0]) < BigInt(y[0]) ? -1 : 1) : BigInt(x[1]) < BigInt(y[1]) ? -1 : 1));
const keyOf = (o) => ((BigInt(o[0]) << 64n) | BigInt(o[1])).toString();
function orders(n, prices) {
  const r = [];
  for (let i = 0; i < n; i++) r.push([BigInt(prices[rnd(prices.length)]), BigInt(i * 3 + 1), BigInt(i + 10)]);
  return r;
}
const PRICES = [[5, 6, 7, 100, 2 ** 40], [1, 2], [2n ** 63n, 2n ** 63n + 1n, 3n, 2n ** 64n - 1n], [9]];

/** queue account: 8 bytes of tag, then head, count, seq_num */
function mkqueue(cap, cb, head, events) {
  const H = 32, b = Buffer.alloc(H + cap * (40 + 2 * cb));
  put(b, 0, 8, 129); put(b, 8, 8, head); put(b, 16, 8, events.length); put(b, 24, 8, 77);
  events.forEach((e, k) => {
    const i = (head + k) % cap, o = H + i * 40, c = H + cap * 40 + 2 * i * cb;
    if (e.fill) { b[o] = 0; b[o + 1] = e.side; put(b, o + 8, 8, e.quote); put(b, o + 16, 16, e.id); put(b, o + 32, 8, e.base); }
    else { b[o] = 1; b[o + 1] = e.side; b[o + 2] = e.del; put(b, o + 16, 16, e.id); put(b, o + 32, 8, e.base); }
    for (let j = 0; j < cb; j++) { b[c + j] = (k * 5 + j + 1) & 255; b[c + cb + j] = (k * 11 + j + 100) & 255; }
  });
  return b;
}
function events(n) {
  const r = [];
  for (let k = 0; k < n; k++) r.push({ fill: rnd(3) > 0, side: rnd(2), del: rnd(2), quote: BigInt(k) * (1n << 33n) + 3n, id: (BigInt(k) << 70n) + 9n, base: BigInt(k) + (1n << 40n) });
  return r;
}
function sameEvent(e, x, k, cb) {
  assert.strictEqual(e instanceof EventFill, x.fill);
  const c1 = [], c2 = [];
  for (let j = 0; j < cb; j++) { c1.push((k * 5 + j + 1) & 255); c2.push((k * 11 + j + 100) & 255); }
  if (x.fill) {
    assert.strictEqual(e.takerSide, x.side); assert.strictEqual(e.quoteSize.v, x.quote); assert.strictEqual(e.makerOrderId.v, x.id); assert.strictEqual(e.baseSize.v, x.base);
    assert.deepStrictEqual([...e.makerCallbackInfo], c1); assert.deepStrictEqual([...e.takerCallbackInfo], c2);
  } else {
    assert(e instanceof EventOut);
    assert.strictEqual(e.side, x.side); assert.strictEqual(e.delete, x.del === 1); assert.strictEqual(e.orderId.v, x.id); assert.strictEqual(e.baseSize.v, x.base);
    assert.deepStrictEqual([...e.callbackInfo], c1);
  }
}

const T = {
  enums() {
    assert.deepStrictEqual([msm.AccountTag.Uninitialized, msm.AccountTag.Market, msm.AccountTag.EventQueue, msm.AccountTag.Bids, msm.AccountTag.Asks, msm.AccountTag.Disabled], [0, 128, 129, 130, 131, 132]);
    assert.deepStrictEqual([eqm.Side.Bid, eqm.Side.Ask, eqm.EventType.Fill, eqm.EventType.Out], [0, 1, 0, 1]);
    assert.deepStrictEqual([msm.SelfTradeBehavior.DecrementTake, msm.SelfTradeBehavior.CancelProvide, msm.SelfTradeBehavior.AbortTransaction], [0, 1, 2]);
  },
  header() {
    const { b } = book(orders(5, PRICES[0]), 9, 32, 0, 130), h = Slab.deserialize(b, 32).header;
    assert.strictEqual(h.accountTag, 130); assert.strictEqual(h.accountTag, msm.AccountTag.Bids);
    assert.deepStrictEqual([h.leafFreeListLen, h.leafFreeListHead, h.leafBumpIndex, h.innerNodeFreeListLen, h.innerNodeFreeListHead, h.innerNodeBumpIndex, h.leafCount], [3, 5, 5, 1, 7, 4, 5]);
    const q = EventQueue.parse(32, mkqueue(7, 32, 3, events(2))).header;
    assert.strictEqual(q.tag, 129); assert.strictEqual(q.tag, msm.AccountTag.EventQueue);
    assert.deepStrictEqual([q.head.v, q.count.v, q.seqNum.v], [3n, 2n, 77n]);
  },
  slab() {
    for (const cb of [1, 8, 32, 33]) for (const extra of [0, 1, 17, 55 + cb]) for (const cap of [3, 8, 21]) {
      const os = orders(cap - (cap === 21 ? 4 : 0), PRICES[0]), { b, keys, nodes, root } = book(os, cap, cb, extra);
      const s = Slab.deserialize(b, cb);
      for (const [h, nd] of nodes) {
        const g = s.getNode(Number(h));
        if (nd.leaf) {
          assert(g instanceof slabm.LeafNode); assert.strictEqual(g.key.v, nd.key); assert.strictEqual(g.baseQuantity.v, BigInt(nd.qty)); assert.strictEqual(g.getPrice().v, nd.key >> 64n);
          const c = [...s.getCallBackInfo(Number(h))];
          assert.deepStrictEqual(c, [...Array(cb).keys()].map((i) => (Number(h) * 7 + i + 1) & 255));
        } else {
          assert(g instanceof slabm.InnerNode); assert.strictEqual(g.key.v, nd.key); assert.strictEqual(g.prefixLen.v, BigInt(nd.plen)); assert.deepStrictEqual([...g.children].map(BigInt), nd.ch);
          assert.strictEqual(s.getCallBackInfo(Number(h)), undefined);
        }
      }
    }
  },
  find() {
    assert.strictEqual(Slab.deserialize(book([], 5, 32).b, 32).getNodeByKey(new BN(0)), undefined);
    for (const ps of PRICES) for (const n of [1, 2, 7, 15]) {
      const os = orders(n, ps), { b, keys } = book(os, 17, 32), s = Slab.deserialize(b, 32);
      os.forEach((o, i) => { const l = s.getNodeByKey(new BN(keys[i])); assert(l); assert.strictEqual(l.key.v, keys[i]); assert.strictEqual(l.baseQuantity.v, o[2]); });
      for (const k of keys) for (const d of [1n, 1n << 64n, 1n << 127n, 1n << 100n]) if (!keys.includes(k ^ d)) assert.strictEqual(s.getNodeByKey(new BN(k ^ d)), undefined);
      if (!keys.includes(0n)) assert.strictEqual(s.getNodeByKey(new BN(0)), undefined);
    }
  },
  items() {
    assert.deepStrictEqual([...Slab.deserialize(book([], 5, 32).b, 32).items()], []);
    for (const ps of PRICES) for (const n of [1, 2, 7, 15]) for (const desc of [false, true]) {
      const os = orders(n, ps), { b, keys } = book(os, 17, 32), s = Slab.deserialize(b, 32), want = sorted(os);
      if (desc) want.reverse();
      const got = [...s.items(desc)];
      assert.deepStrictEqual(got.map((x) => x.leafNode.key.toString()), want.map(keyOf));
      got.forEach((x) => { const h = keys.indexOf(x.leafNode.key.v); assert.strictEqual(x.callbackInfo[0], (h * 7 + 1) & 255); });
      if (!desc) assert.deepStrictEqual([...s].map((x) => x.leafNode.key.toString()), want.map(keyOf));
    }
  },
  top() {
    for (const n of [0, 1, 6, 15]) for (const k of [0, 1, 3, 15, 40]) for (const max of [false, true]) {
      const os = orders(n, PRICES[0]), s = Slab.deserialize(book(os, 17, 32).b, 32), want = sorted(os);
      if (max) want.reverse();
      assert.deepStrictEqual(s.getMinMaxNodes(k, max).map((x) => x.leafNode.key.toString()), want.slice(0, k).map(keyOf));
    }
  },
  depth() {
    for (const ps of PRICES) for (const n of [0, 1, 6, 15]) for (const k of [0, 1, 2, 3, 40]) for (const inc of [false, true]) {
      const os = orders(n, ps), s = Slab.deserialize(book(os, 17, 32).b, 32), so = sorted(os), want = [];
      if (!inc) so.reverse();
      for (const o of so) { const l = want[want.length - 1]; if (l && l[0] === BigInt(o[0])) l[1] += BigInt(o[2]); else want.push([BigInt(o[0]), BigInt(o[2])]); }
      assert.deepStrictEqual(s.getL2DepthJS(k, inc).map((x) => [x.price.v, x.size.v]), want.slice(0, k));
    }
  },
  events() {
    for (const cb of [1, 32]) for (const head of [0, 3]) {
      const es = events(7), q = EventQueue.parse(cb, mkqueue(7, cb, head, es));
      es.forEach((e, k) => sameEvent(q.parseEvent((head + k) % 7), e, k, cb));
    }
  },
  peek() {
    for (const head of [0, 3, 6]) { const es = events(6), q = EventQueue.parse(32, mkqueue(7, 32, head, es)); es.forEach((e, k) => sameEvent(q.peekAt(k), e, k, 32)); }
  },
  fills() {
    for (const head of [0, 2, 5, 6]) for (const n of [0, 1, 4, 7]) for (const lim of [undefined, 1, 2, 5, 100]) {
      const es = events(n), q = EventQueue.parse(32, mkqueue(7, 32, head, es));
      const want = es.slice(0, lim === undefined ? n : lim).map((e, k) => [e, k]).filter(([e]) => e.fill), got = q.parseFill(lim);
      assert.strictEqual(got.length, want.length);
      want.forEach(([e, k], i) => sameEvent(got[i], e, k, 32));
    }
  },
  sizes() {
    for (const cb of [1, 8, 32]) for (const n of [1, 2, 10, 1000]) {
      assert.strictEqual(Slab.computeAllocationSize(n, cb), 8 + 32 + 24 + cb + (n - 1) * (24 + 32 + cb));
      assert.strictEqual(EventQueue.computeAllocationSize(n, cb), 8 + 24 + n * (40 + 2 * cb));
    }
  },
  price() {
    for (const p of [0n, 1n, 77n << 32n, (1n << 64n) - 1n]) for (const s of [0n, 5n, (1n << 64n) - 1n]) assert.strictEqual(utm.getPriceFromKey(new BN((p << 64n) | s)).v, p);
  },
  async market() {
    const b = Buffer.alloc(8 + 96 + 16);
    put(b, 0, 8, 128);
    for (let i = 0; i < 96; i++) b[8 + i] = 1 + (i >> 5);
    put(b, 104, 8, 1000); put(b, 112, 8, 1n << 40n);
    const m = msm.MarketState.deserialize(b, 32), hex = (x) => Buffer.alloc(32, x).toString("hex");
    assert.strictEqual(m.tag.v, 128n); assert.strictEqual(m.eventQueue.s, hex(1)); assert.strictEqual(m.bids.s, hex(2)); assert.strictEqual(m.asks.s, hex(3));
    assert.strictEqual(m.minBaseOrderSize.v, 1000n); assert.strictEqual(m.tickSize.v, 1n << 40n); assert.strictEqual(m.callbackInfoLen, 32); assert.strictEqual(msm.MarketState.LEN, 120);
    const asked = [], bb = book(orders(4, PRICES[0]), 9, 32, 0, 130).b, ab = book(orders(4, PRICES[0]), 9, 32, 0, 131).b;
    const con = { getAccountInfo: async (k) => { asked.push(k.s); return { data: k.s === hex(2) ? bb : k.s === hex(3) ? ab : b }; } };
    assert.strictEqual((await m.loadBidsSlab(con)).header.accountTag, 130); assert.strictEqual((await m.loadAsksSlab(con)).header.accountTag, 131);
    const m2 = await msm.MarketState.retrieve(con, new PublicKey("x"), 32);
    assert.strictEqual(m2.bids.s, hex(2)); assert.strictEqual(m2.callbackInfoLen, 32);
  },
  async market_asks() {
    const b = Buffer.alloc(120), m = msm.MarketState.deserialize(b, 40), os = orders(4, PRICES[0]), k = book(os, 9, 40);
    for (const s of [await m.loadAsksSlab({ getAccountInfo: async () => ({ data: k.b }) }), await m.loadBidsSlab({ getAccountInfo: async () => ({ data: k.b }) })])
      assert.deepStrictEqual([...s.items()].map((x) => [...x.callbackInfo]), sorted(os).map((o) => { const h = os.indexOf(o); return [...Array(40).keys()].map((i) => (h * 7 + i + 1) & 255); }));
  },
  bigslab() {
    const n = 70000, b = Buffer.alloc(40 + (n + 1) * 24 + n * 32 + (n + 1)), s = Slab.deserialize(b, 1);
    for (const i of [0, 1, 65535, 65536, n - 1]) put(b, 40 + (n + 1) * 24 + i * 32, 16, i + 5);
    for (const i of [0, 1, 65535, 65536, n - 1]) assert.strictEqual(s.getNode(0xffffffff - i).key.v, BigInt(i + 5));
  },
  slab_price() {
    for (const p of [1n, 1n << 63n, (1n << 64n) - 1n]) assert.strictEqual(new slabm.LeafNode({ key: new BN((p << 64n) | 7n), baseQuantity: new BN(1) }).getPrice().v, p);
  },
  instructions() {
    const k = (n) => new PublicKey(n), P = k("program");
    const enc = (x) => { const o = []; for (const [w, v] of x) { let y = BigInt(v); for (let i = 0; i < w; i++) { o.push(Number(y & 255n)); y >>= 8n; } } return o; };
    const keys = (i) => i.keys.map((x) => x.pubkey.s + (x.isWritable ? "+" : ""));
    const has = (i, want) => want.forEach((w, j) => assert(keys(i)[j] === w || (!w.endsWith("+") && keys(i)[j] === w + "+"), keys(i) + " / " + want));
    let i = new rawm.consumeEventsInstruction({ numberOfEntriesToConsume: new BN(258) }).getInstruction(P, k("m"), k("q"), k("au"), k("rt"));
    assert.deepStrictEqual([...i.data], enc([[1, 2], [8, 258]])); has(i, ["m", "q+"]); assert.strictEqual(i.programId.s, "program");
    i = new rawm.cancelOrderInstruction({ orderId: new BN((3n << 100n) + 5n) }).getInstruction(P, k("m"), k("q"), k("b"), k("a"), k("au"));
    assert.deepStrictEqual([...i.data], enc([[1, 3], [16, (3n << 100n) + 5n]])); has(i, ["m", "q+", "b+", "a+"]);
    i = new rawm.massCancelOrderInstruction({ orderIds: [new BN(7n), new BN(1n << 90n)] }).getInstruction(P, k("m"), k("q"), k("b"), k("a"), k("au"));
    assert.deepStrictEqual([...i.data], enc([[1, 5], [4, 2], [16, 7], [16, 1n << 90n]])); has(i, ["m", "q+", "b+", "a+"]);
    i = new rawm.newOrderInstruction({ maxBaseQty: new BN(1), maxQuoteQty: new BN(2), limitPrice: new BN(3), side: 1, matchLimit: new BN(4), callbackInfo: [], postOnly: 0, postAllowed: 1, selfTradeBehavior: 2 }).getInstruction(P, k("m"), k("q"), k("b"), k("a"), k("au"));
    assert.deepStrictEqual([...i.data].slice(0, 34), enc([[1, 1], [8, 1], [8, 2], [8, 3], [1, 1], [8, 4]])); assert.deepStrictEqual([...i.data].slice(-3), [0, 1, 2]); has(i, ["m", "q+", "b+", "a+"]);
    i = new rawm.closeMarketInstruction().getInstruction(P, k("m"), k("q"), k("b"), k("a"), k("au"), k("l"));
    assert.deepStrictEqual([...i.data], [4]); has(i, ["m+", "q+", "b+", "a+"]);
  },
  async create() {
    for (const [cb, ec, oc] of [[32, 10, 20], [1, 3, 7]]) {
      const con = { getMinimumBalanceForRentExemption: async (n) => n };
      const [signers, ix] = await bim.createMarket(con, new PublicKey("ca"), cb, new BN(32), ec, oc, new BN(1), new PublicKey("payer"), new BN(1), new PublicKey("program"));
      const size = {}, own = {}, rent = {};
      for (const x of ix) if (x.creates) { size[x.creates.newAccountPubkey.s] = x.creates.space; own[x.creates.newAccountPubkey.s] = x.creates.programId.s; rent[x.creates.newAccountPubkey.s] = x.creates.lamports; }
      const c = ix.find((x) => x.keys), want = [120, 32 + ec * (40 + 2 * cb), 64 + cb + (oc - 1) * (56 + cb), 64 + cb + (oc - 1) * (56 + cb)];
      assert.strictEqual(new Set(c.keys.map((x) => x.pubkey.s)).size, 4);
      c.keys.forEach((x, j) => { assert.strictEqual(size[x.pubkey.s], want[j]); assert.strictEqual(own[x.pubkey.s], "program"); assert.strictEqual(rent[x.pubkey.s], want[j]); assert(signers.some((s) => s.publicKey.s === x.pubkey.s)); });
      assert.strictEqual(ix[ix.length - 1], c);
    }
  },
};
(async () => {
  for (const t of process.argv.slice(2).length ? process.argv.slice(2) : Object.keys(T)) {
    try { await T[t](); console.log("ok " + t); } catch (e) { console.log("FAILED " + t + ": " + (e && e.stack)); process.exitCode = 1; }
  }
})();
