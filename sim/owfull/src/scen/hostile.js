// A script that calls everything it can reach with whatever it can make.
const STANDARD = new Set(('Object Function Array Number parseFloat parseInt Infinity NaN undefined Boolean String Symbol Date Promise RegExp Error AggregateError EvalError RangeError ReferenceError SyntaxError TypeError URIError globalThis JSON Math Intl ArrayBuffer Atomics Uint8Array Int8Array Uint16Array Int16Array Uint32Array Int32Array Float32Array Float64Array Uint8ClampedArray BigUint64Array BigInt64Array DataView Map BigInt Set WeakMap WeakSet WeakRef Proxy Reflect FinalizationRegistry decodeURI decodeURIComponent encodeURI encodeURIComponent escape unescape eval isFinite isNaN SharedArrayBuffer WebAssembly Iterator gc self global ' +
  'http oddCall odd read call sock timers run pieces build whole wrap handle job say pad bytes formOf').split(' '));
const LOG = false, log = console.log;
async function assault(id, seed, n) {
  let state = seed >>> 0;
  const rnd = (m) => { state = (Math.imul(state, 1664525) + 1013904223) >>> 0; return (state >>> 8) % m; };
  const own = Object.getOwnPropertyNames, proto = Object.getPrototypeOf, desc = Object.getOwnPropertyDescriptor, imul = Math.imul;
  const apply = Reflect.apply, construct = Reflect.construct, define = Object.defineProperty, timeout = setTimeout, P = Promise;
  const boom = () => { throw new Error('hostile'); };
  const traps = {};
  for (const t of own(Reflect)) traps[t] = boom;
  const things = [];
  const dag = (n) => { let a = { x: 1 }; for (let i = 0; i < n; i++) a = { a, b: a }; return a; };
  const made = [
    () => undefined, () => null, () => NaN, () => -1, () => 0, () => 1, () => 3, () => 2 ** 53, () => 1e300, () => 7n, () => true, () => '', () => 'odd', () => 'http://odd/' + rnd(9), () => 'ws://odd/' + rnd(9), () => '\ud800', () => 'x'.repeat(5000),
    () => Symbol('s'), () => ({}), () => [], () => () => {}, () => boom, () => async () => boom(), () => { const o = {}; o.o = o; return o; }, () => { const a = []; a.push(a); return a; },
    () => { let a = []; for (let i = 0; i < 4000; i++) a = [a]; return a; },
    () => dag(8),
    () => ({ get x() { return boom(); }, get url() { return boom(); }, get body() { return boom(); } }),
    () => ({ toString: boom, valueOf: boom }), () => ({ [Symbol.toPrimitive]: boom }), () => ({ [Symbol.iterator]: boom }), () => ({ get then() { return boom(); } }), () => ({ then: boom }), () => ({ then(r) { r(1); r(2); } }), () => ({ then() {} }),
    () => new Proxy({}, traps), () => new Proxy(() => {}, traps), () => new Proxy([], {}), () => { const r = Proxy.revocable({}, {}); r.revoke(); return r.proxy; }, () => { const r = Proxy.revocable([], {}); r.revoke(); return r.proxy; },
    () => { const s = new String('odd'); s.toString = boom; s.valueOf = boom; return s; }, () => new Date(NaN), () => new Map([[{}, 1]]), () => new Set([1]), () => /x/g,
    () => new Uint8Array(0), () => new ArrayBuffer(0), () => new Uint8Array(8), () => new ArrayBuffer(5), () => new DataView(new ArrayBuffer(4), 1, 2), () => new Float64Array(3), () => new BigInt64Array(2),
    () => { const b = new ArrayBuffer(8); const v = new Uint8Array(b); b.transfer(); return v; }, () => { const b = new ArrayBuffer(8); b.transfer(); return b; }, () => { const b = new ArrayBuffer(8, { maxByteLength: 16 }); const v = new Uint8Array(b); b.resize(2); return v; },
    () => Object.freeze({ a: 1 }), () => Object.create(null), () => class { constructor() { boom(); } }, () => P.reject(new Error('hostile')), () => new P(() => {}), () => P.resolve(3),
    () => ({ method: 'POST', body: pick(), headers: pick() }), () => ({ status: pick(), headers: pick() }), () => [[pick(), pick()]], () => ({ start: pick(), pull: pick(), cancel: pick() }), () => ({ name: pick(), hash: pick(), namedCurve: pick(), salt: new Uint8Array(4), iterations: rnd(3) }),
    () => new ReadableStream({ start(c) { c.enqueue(pick()); c.close(); } }), () => new ReadableStream({ pull: boom }), () => new ReadableStream({ async pull(c) { await new P((ok) => timeout(ok, 1)); c.enqueue(pick()); } }), () => new Response(pick()), () => new Request('http://odd/', { method: 'POST', body: pick() }), () => new Headers([['a', 'b']]), () => new Blob([pick()]), () => new AbortController().signal,
    () => 'SHA-256', () => 'HMAC', () => ({ name: 'HMAC', hash: 'SHA-256' }), () => ({ name: 'ECDSA', namedCurve: 'P-256', hash: 'SHA-256' }), () => ({ name: 'RSASSA-PKCS1-v1_5', hash: 'SHA-256' }), () => ({ name: 'PBKDF2', hash: 'SHA-256', salt: new Uint8Array(0), iterations: 1 }), () => 'raw', () => 'pkcs8', () => 'spki', () => ['sign', 'verify'],
    () => 'get', () => 'put', () => 'list', () => 'KV', () => 'ST', () => 'query', () => globalThis, () => env, () => rnd(40),
  ];
  const pick = () => {
    try { return things.length && rnd(4) === 0 ? things[rnd(things.length)] : made[rnd(made.length)](); } catch (e) { return e; }
  };
  const usual = [
    () => () => {}, () => () => {}, () => boom, () => 'KV', () => 'ST', () => 'DB', () => 'SVC', () => 'get', () => 'put', () => 'list', () => 'fetch', () => 'SHA-256', () => 'SHA-512', () => 'http://odd/1', () => 'ws://odd/1',
    () => ({ key: 'odd', value: pick() }), () => ({ sql: 'odd', params: [pick()] }), () => ({ url: 'http://odd/2', method: 'POST', headers: { a: 'b' }, body: new Uint8Array(3) }), () => new Uint8Array(8), () => new Uint8Array(0), () => new Uint8Array(300),
    () => 0, () => 1, () => 2, () => rnd(40), () => 256, () => 2 ** 31, () => 2 ** 32, () => 2 ** 53, () => -1, () => NaN,
  ];
  // calls as they are meant to be, but for one thing
  const shaped = () => {
    const data = new Uint8Array(rnd(50)), subtle = crypto.subtle;
    const bend = (list) => { if (rnd(4)) list[rnd(list.length)] = pick(); return list; };
    const algo = (a) => { if (rnd(3) === 0) a[Object.keys(a)[rnd(Object.keys(a).length)]] = pick(); return a; };
    const call = (o, f, list) => { const r = o[f](...bend(list)); keep(r); return r; };
    switch (rnd(10)) {
      case 0: return call(subtle, 'importKey', ['raw', data, 'PBKDF2', false, ['deriveBits']]).then((key) => call(subtle, 'deriveBits', [algo({ name: 'PBKDF2', hash: 'SHA-256', salt: data, iterations: [0, 1, -1, NaN, 0.5, 2 ** 32, 2 ** 53][rnd(7)] }), key, [0, 8, 256, 2 ** 20, 2 ** 45, 2 ** 60][rnd(6)]]));
      case 1: return call(subtle, 'importKey', ['raw', data, algo({ name: 'HMAC', hash: 'SHA-256' }), false, ['sign', 'verify']]).then((key) => call(subtle, 'sign', ['HMAC', key, data]).then((sig) => call(subtle, 'verify', ['HMAC', key, sig, data])));
      case 2: return call(subtle, 'generateKey', [algo({ name: 'ECDSA', namedCurve: 'P-256' }), true, ['sign', 'verify']]).then((pair) => call(subtle, 'sign', [algo({ name: 'ECDSA', hash: 'SHA-256' }), pair.privateKey, data]).then((sig) => call(subtle, 'verify', [algo({ name: 'ECDSA', hash: 'SHA-256' }), pair.publicKey, sig, data])));
      case 3: return call(subtle, 'importKey', [['pkcs8', 'spki', 'raw'][rnd(3)], data, algo({ name: ['RSASSA-PKCS1-v1_5', 'ECDSA'][rnd(2)], hash: 'SHA-256', namedCurve: 'P-256' }), false, ['sign', 'verify']]).then((key) => call(subtle, 'sign', ['RSASSA-PKCS1-v1_5', key, data]));
      case 4: return call(crypto, 'getRandomValues', [new Uint8Array([0, 1, 65536][rnd(3)])]);
      case 5: return call(env.KV, ['get', 'put', 'delete', 'list'][rnd(4)], ['odd', pick(), algo({ expiresIn: 3, limit: 2, prefix: 'o' })]);
      case 6: return call(env.ST, ['get', 'put', 'head', 'list', 'delete'][rnd(5)], ['odd', data, algo({ limit: 2, prefix: 'o' })]);
      case 7: return call(globalThis, 'fetch', ['http://odd/3', algo({ method: 'POST', headers: { a: 'b' }, body: data })]);
      case 8: return call(env.DB, 'query', ['odd', [pick(), pick()]]);
      default: { const ws = new WebSocket('ws://odd/4'); ws.onopen = () => { try { ws.send(pick()); ws.close(pick(), pick()); } catch (e) {} }; return ws; }
    }
  };
  const targets = [], seen = new Set();
  const walk = (o, depth) => {
    if (o === null || typeof o !== 'object' && typeof o !== 'function' || seen.has(o) || depth > 3) return;
    seen.add(o);
    for (const k of own(o).concat(Object.getOwnPropertySymbols(o))) {
      if (o === globalThis && STANDARD.has(k) || k === 'constructor') continue;
      const d = desc(o, k);
      for (const f of [d.value, d.get, d.set]) {
        if (typeof f === 'function') targets.push([f, o, k]);
        walk(f, depth + 1);
      }
    }
    const up = proto(o);
    if (up && up !== Object.prototype && up !== Function.prototype && up !== Array.prototype && up !== P.prototype && up !== Error.prototype) walk(up, depth + 1);
  };
  walk(globalThis, 0);
  walk(env, 0);
  const settle = (r) => { try { if (r instanceof P) P.prototype.then.call(r, keep, () => {}); } catch (e) {} };
  const keep = (x) => { if (things.length < 200) things.push(x); else things[rnd(200)] = x; };
  for (let i = 0; i < n; i++) {
    try {
      if (rnd(6) === 0) {
        const r = shaped();
        keep(r);
        settle(r);
        continue;
      }
      const [f, o, k] = targets[rnd(targets.length)];
      const args = [];
      // internal functions also get what they expect, or nearly
      const near = typeof k === 'string' && k.startsWith('__') && rnd(3);
      for (let c = near ? 6 : rnd(6); c > 0; c--) args.push(near && rnd(5) ? usual[rnd(usual.length)]() : pick());
      if (LOG) log('@' + id + ' call ' + i + ' ' + String(k) + ' ' + args.map((a) => { try { return typeof a + ' ' + Object.prototype.toString.call(a); } catch (e) { return 'evil'; } }).join(', '));
      let r;
      switch (rnd(12)) {
        case 0: case 1: case 2: r = construct(f, args); break;
        case 3: r = apply(f, pick(), args); break;
        case 4: { const t = things[rnd(things.length || 1)]; r = t && typeof t === 'object' && apply(f, t, args); break; }
        case 5: {
          // what the runtime finds later is not what it has put there
          const d = desc(o, k);
          if (rnd(3) || !d || !d.configurable) r = apply(f, o, args);
          else if (rnd(2)) define(o, k, { value: pick(), configurable: true, writable: true });
          else define(o, k, { get: boom, set: boom, configurable: true });
          break;
        }
        case 6: if (rnd(4) === 0) { const b = [Object.prototype, Array.prototype, P.prototype, Function.prototype, String.prototype, Uint8Array.prototype][rnd(6)]; define(b, ['then', 'url', 'status', 'key', 'get', 'value', 'done', 'body', 'success', '0', 'toJSON'][rnd(11)], rnd(2) ? { get: boom, configurable: true } : { value: pick(), configurable: true, writable: true }); break; }
        default: r = apply(f, o, args);
      }
      keep(r);
      settle(r);
      if (rnd(6) === 0) await new P((ok) => timeout(ok, rnd(4)));
    } catch (e) { keep(e); }
  }
  return pick;
}
function hostility(p) { return p.pre.find((o) => o[0] === 'hostile'); }
async function handle(request, wu) {
  const id = +request.headers.get('x-id'), p = JSON.parse(request.headers.get('x-prog')), h = hostility(p);
  console.log('@' + id + ' hostile');
  const pick = await assault(id, h[1], h[2]);
  for (let i = h[1] % 3; i > 0; i--) wu(pick());
  switch (h[1] % 5) {
    case 0: return pick();
    case 1: throw pick();
    case 2: return new Response(pick(), pick());
    case 3: {
      // what its answer is asked for, one way or another, is not what is expected
      const r = h[1] % 2 ? new Response('odd') : Object.create(Response.prototype);
      for (const k of ['status', 'headers', 'body', '_getRawBody', '_responseStreamId', '_bodyStreamId', '_rawBody', '_stream', '_nativeStreamId', '_controller', 'locked', 'bodyUsed']) {
        const v = pick(), way = (h[1] >>> 8) % 7 + k.length;
        let patience = (h[1] >>> 16) % 5, was = k === 'status' ? 200 : k === 'headers' ? new Headers() : null;
        if (way % 3 === 0) Object.defineProperty(r, k, { get() { if (patience-- > 0) return was; throw v; }, configurable: true });
        else if (way % 3 === 1) Object.defineProperty(r, k, { value: way % 2 ? v : () => v, configurable: true });
      }
      return r;
    }
    default: return await build(id, p.resp, request);
  }
}
async function job(event, wu) {
  const id = event.payload ? event.payload.id : event.scheduledTime - 1763600000000;
  const p = event.payload || JSON.parse(await env.KV.get('prog/' + id)), h = hostility(p);
  const pick = await assault(id, h[1], h[2]);
  for (let i = h[1] % 3; i > 0; i--) wu(pick());
  if (event.respondWith && h[1] % 2) event.respondWith(pick());
  if (h[1] % 5 === 0) throw pick();
  return h[1] % 3 ? { success: true, data: pick() } : pick();
}

// and what it is when it is loaded
{
  const boom = () => { throw Symbol('hostile'); };
  const traps = {};
  for (const t of Object.getOwnPropertyNames(Reflect)) traps[t] = boom;
  const evil = [undefined, null, 3, 'odd', Symbol('s'), boom, new Proxy({}, traps), new Proxy(boom, traps), { toString: boom, get message() { boom(); }, get stack() { boom(); }, get then() { boom(); } }, class { fetch() {} }];
  const n = __SEED__, e = evil[(n >>> 5) % evil.length];
  const internal = Object.getOwnPropertyNames(globalThis).filter((k) => k.startsWith('__'));
  switch (n % 24) {
    case 0: throw e;
    case 1: Promise.reject(e); throw e;
    case 2: Promise.reject(e); break;
    case 3: globalThis.default = e; break;
    case 4: Object.defineProperty(globalThis, 'default', { get: boom, configurable: true }); break;
    case 5: globalThis.default = { get fetch() { boom(); }, get scheduled() { boom(); }, get task() { boom(); } }; break;
    case 6: globalThis.default = { fetch: e, scheduled: e, task: e }; break;
    case 7: addEventListener(e, e); addEventListener('fetch', e); addEventListener('task', e); addEventListener('scheduled', e); break;
    case 8: addEventListener('fetch', (f) => { f.respondWith(e); try { f.respondWith(e); } catch (x) {} try { f.waitUntil(e); } finally { throw e; } }); break;
    case 9: for (const k of internal) if (k.length % 5 === (n >>> 5) % 5) try { Object.defineProperty(globalThis, k, { get: boom, configurable: true }); } catch (x) {} break;
    case 10: for (const k of internal) if (k.length % 5 === (n >>> 5) % 5) try { globalThis[k] = e; } catch (x) {} break;
    case 11: for (const k of internal) if (k.length % 5 === (n >>> 5) % 5) delete globalThis[k]; break;
    case 12: Object.freeze(globalThis); break;
    case 13: Promise.prototype.then = e; break;
    case 14: Object.defineProperty(Object.prototype, ['status', 'headers', 'then', 'body', 'get', 'set'][(n >>> 9) % 6], { get: boom, set: boom, configurable: true }); break;
    case 15: for (const k of ['Request', 'Response', 'Headers', 'Promise', 'Map', 'Uint8Array']) if (k.length % 3 === (n >>> 9) % 3) globalThis[k] = e; break;
    case 16: Promise.resolve().then(() => { for (const k of internal) if (k.length % 4 === (n >>> 9) % 4) try { globalThis[k] = e; } catch (x) {} }); break;
    case 17: globalThis.default = { fetch(request) { for (const k of internal) if (k.length % 4 === (n >>> 9) % 4) try { globalThis[k] = e; } catch (x) {} return handle(request, () => {}); } }; break;
    default: break;
  }
}
