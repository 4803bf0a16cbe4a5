const ME = "__ME__";
let served = 0;
const say = (id, s) => console.log('@' + id + ' ' + s);
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
const enc = new TextEncoder();
const pad = (id, i, n) => (id + ':' + i + '|').repeat(1 + n / 3).slice(0, n);
const number = (tag) => +tag.slice(1);
// A call to an upstream service: how it is made follows from its number.
function http(kind, id, tag) {
  const to = kind === 'fetch' ? fetch : kind === 'svc' ? env.SVC.fetch : kind === 'asset' ? env.ASSETS.fetch : env.ST.fetch;
  const url = kind === 'stfetch' ? '/' + id + '/' + tag : 'http://up/' + id + '/' + tag;
  const body = 'b' + id + '/' + tag, headers = { 'x-tag': tag };
  if (kind === 'stfetch') return to(url);
  const flow = (...list) => new ReadableStream({ start(c) { for (const x of list) c.enqueue(x); c.close(); } });
  switch ((id + number(tag)) % 13) {
    case 0: return to(url, { method: 'POST', body, headers });
    case 1: return to(url, { method: 'PUT', body: enc.encode('..' + body).subarray(2), headers: new Headers(headers) });
    case 2: return to(new Request(url, { method: 'POST', body, headers }));
    case 3: return to(url, { headers });
    case 4: return to(url, { method: 'PATCH', body: new ReadableStream({ start(c) { c.enqueue(enc.encode('b' + id)); c.enqueue(enc.encode('/' + tag)); c.close(); } }), headers });
    case 5: return to(url, { method: 'PUT', body: flow('b' + id, '', '/', enc.encode('..' + tag).slice(2).buffer), headers });
    case 6: { const b = enc.encode('..' + body); return to(new Request(url, { method: 'POST', body: flow(new DataView(b.buffer, 2, 1), new Int8Array(b.buffer, 3)), headers })); }
    case 7: { const b = enc.encode(body); return to(url, { method: 'POST', body: new DataView(b.buffer), headers }); }
    case 8: { const b = enc.encode(body); return to(new Request(url, { method: 'PATCH', headers }), { method: 'PUT', body: b.buffer }); }
    case 9: return to(url, { method: 'PUT', body: new Blob(['b' + id, enc.encode('/'), tag]), headers: new Headers(headers) });
    case 10: return to(url, { method: 'POST', body: formOf(body), headers });
    case 11: return to(new Request(url, { method: 'PATCH', body: formOf(new File([enc.encode('..' + body).subarray(2)], 'f')), headers }));
    default: return to(new URL(url), { method: 'DELETE', body, headers });
  }
}
async function read(r, how) {
  switch (how % 7) {
    case 0: return await r.text();
    case 1: return new TextDecoder().decode(await r.arrayBuffer());
    case 2: {
      let out = '', over = false;
      const rd = r.body && r.body.getReader();
      while (rd && !over) {
        for (const { value, done } of await Promise.all([rd.read(), rd.read()])) {
          if (done) over = true;
          else out += new TextDecoder().decode(value);
        }
      }
      return out;
    }
    case 3: { const c = r.clone(); const [a, b] = await Promise.all([r.text(), c.text()]); return a === b ? a : 'differ ' + a + ' ' + b; }
    case 4: {
      if (!r.body) return '';
      const two = r.body.tee();
      const [a, b] = served % 2 ? two : [two[1], two[0]];
      const other = b.getReader();
      await other.read();
      await other.cancel('enough');
      return await new Response(a).text();
    }
    case 5: {
      // a reader for each chunk
      let out = '';
      while (r.body) {
        const rd = r.body.getReader();
        if (!r.body.locked) return 'not locked';
        const { value, done } = await rd.read();
        if (done) { await rd.closed; break; }
        rd.releaseLock();
        if (r.body.locked) return 'locked';
        if (out === '' && !(await rd.read().catch((e) => e instanceof TypeError))) return 'released';
        out += new TextDecoder().decode(value);
      }
      return out;
    }
    default: {
      let out = '';
      const rd = r.body && r.body.getReader();
      while (rd) {
        const { value, done } = await rd.read();
        if (done) break;
        out += new TextDecoder().decode(value);
      }
      return out;
    }
  }
}
async function call(id, kind, tag) {
  const key = id + '/' + tag, n = number(tag);
  const lim = n % 2 ? undefined : n * 60 + 5;
  try {
    let t;
    switch (kind) {
      case 'fetch': case 'svc': case 'asset': case 'stfetch': {
        const r = await http(kind, id, tag);
        say(id, 'head ' + tag + ' ' + r.status + ' ' + r.ok + ' ' + r.headers.get('x-up') + ' ' + JSON.stringify(r.headers.getSetCookie()));
        t = r.status + ' ' + (await read(r, n));
        break;
      }
      case 'kv': t = 'kv ' + JSON.stringify(await env.KV.get(key)); break;
      case 'kvput': t = 'kvput ' + (await (n % 2 ? env.KV.put(key, { a: [1, 'x', null], b: 'b' + key }, { expiresIn: 1 + id * 37 % 500 }) : env.KV.put(key, 'b' + key))); break;
      case 'kvdel': t = 'kvdel ' + (await env.KV.delete(key)); break;
      case 'kvlist': t = 'kvlist ' + JSON.stringify(await env.KV.list({ prefix: key, limit: lim })); break;
      case 'st': t = 'st ' + JSON.stringify(await env.ST.get(key)); break;
      case 'stput': t = 'stput ' + (await env.ST.put(key, n % 2 ? enc.encode('b' + key) : 'b' + key)); break;
      case 'sthead': t = 'sthead ' + JSON.stringify(await env.ST.head(key)); break;
      case 'stlist': t = 'stlist ' + JSON.stringify(await env.ST.list({ prefix: key, limit: lim })); break;
      case 'stdel': t = 'stdel ' + (await env.ST.delete(key)); break;
      case 'db': t = 'db ' + JSON.stringify(await env.DB.query(key, n % 3 === 0 ? [id] : n % 3 === 1 ? ['s' + id, true, null, id + 0.5] : [[1, id], -3])); break;
    }
    say(id, 'got ' + tag + ' ' + t);
  } catch (e) {
    say(id, 'fail ' + tag + ' ' + ((e && e.message) || e));
  }
}
// Calls that cannot be made as they are written: each of them is settled all the same.
function oddCall(id, k) {
  const key = 'odd/' + id + '/' + k, loop = {};
  loop.loop = loop;
  switch (k % 24) {
    case 0: return env.KV.put(key, 1n);
    case 1: return env.KV.get({});
    case 2: return env.KV.put(key, () => 1);
    case 3: return env.DB.query(123);
    case 4: return env.DB.query(key, [Symbol()]);
    case 5: return env.DB.query(key, 'text');
    case 6: return env.ST.put(key, {});
    case 7: return env.ST.get(Symbol('odd'));
    case 8: return fetch('http://up/' + key, { method: 'POST', body: {} });
    case 9: return fetch('http://up/' + key, { headers: { 'bad name': 'x\n' } });
    case 10: return fetch(123);
    case 11: return fetch();
    case 12: return env.SVC.fetch('http://up/' + key, { method: 7, headers: 5 });
    case 13: return env.KV.list({ prefix: key, limit: -1 });
    case 14: return env.ST.list({ prefix: key, limit: 1e300 });
    case 15: return env.DB.query(key, [loop]);
    case 16: return env.KV.put(key, undefined);
    case 17: return env.ASSETS.fetch(null);
    case 18: return env.KV.put(key, { get x() { throw new Error('odd'); } });
    case 19: return env.KV.put(key, 'x', { expiresIn: 'soon' });
    case 20: return env.ST.put(key, null);
    case 21: return env.DB.query(key, { length: 3 });
    case 22: return fetch('http://up/' + key, { method: 'POST', body: new ReadableStream({ start(c) { c.error(new Error('odd')); } }) });
    default: return env.SVC.fetch('http://up/' + key, { method: 'POST', body: new ReadableStream({ start(c) { c.enqueue(5); c.close(); } }) });
  }
}
async function odd(id, k) {
  let h;
  const late = new Promise((r) => (h = setTimeout(r, 3000, 'late')));
  const made = async () => { try { await oddCall(id, k); return 'ok'; } catch (e) { return 'fail'; } };
  const how = await Promise.race([made(), late]);
  clearTimeout(h);
  say(id, 'odd ' + k + ' ' + how);
}
// A WebSocket: how it is opened follows from its number.
async function sock(id, tag, count, gap, closes, wait) {
  const w = (x) => say(id, 'ws ' + tag + ' ' + x);
  const form = number(tag) % 4, key = id + '/' + tag;
  let done, s;
  const over = new Promise((r) => (done = r));
  const listen = () => {
    if (number(tag) % 3 === 0) {
      const gone = () => w('zombie');
      for (const t of ['message', 'close', 'error', 'open']) {
        s.addEventListener(t, gone);
        s.addEventListener(t, () => { throw new Error('listener'); });
        s.removeEventListener(t, gone);
      }
    }
    s.addEventListener('other', () => w('zombie'));
    s.addEventListener('message', (e) => w('in ' + (typeof e.data === 'string' ? 't' + e.data : 'b' + new TextDecoder().decode(e.data))));
    s.onclose = (e) => { w('close ' + s.readyState + ' ' + e.wasClean + ' ' + e.code + ' ' + e.reason); done(); };
    s.addEventListener('error', (e) => w('error ' + e.message));
  };
  const go = async () => {
    for (let k = 0; k < count; k++) {
      if (gap) await sleep(gap);
      if (s.readyState !== 1) return;
      const text = key + '>' + k, b = enc.encode('..' + text);
      w('out ' + k);
      s.send([text, b.subarray(2), b.slice(2).buffer, new DataView(b.buffer, 2, b.length - 2)][k % 4]);
    }
    if (closes && s.readyState === 1) {
      const odd = [[999], [1001], [1006], [2999, ''], [5000, 'x'], [1000, 'x'.repeat(124)], [4000, '\u00e9'.repeat(62)], [undefined, 'x'.repeat(200)]][number(tag) % 8];
      try { s.close(odd[0], odd[1]); w('zombie'); } catch (e) { if (s.readyState !== 1) w('zombie'); }
      w('closing'); s.close(4000 + id, 'bye ' + key); w('state ' + s.readyState); s.send('late'); s.close();
    }
  };
  if (form === 0 || form === 3) {
    s = new WebSocket('ws://up/' + key, ['p' + id, 'q']);
    listen();
    s.onopen = () => { w('open ' + s.readyState); go(); };
    if (form === 3) s.close();
  } else {
    try {
      const r = await fetch('http://up/' + key, { headers: { Upgrade: 'websocket', 'x-tag': tag } });
      s = r.webSocket;
      w('open ' + r.status);
      listen();
      if (form === 2) await sleep(gap + 3);
      s.accept();
      go();
    } catch (e) { w('fail ' + ((e && e.message) || e)); return; }
  }
  await Promise.race([over, sleep(wait)]);
  w('end');
}
// Timers, set, cleared and given their delays in several ways.
async function timers(id, first, list, wait) {
  const delay = (ms, f) => [ms, '' + ms, ms + 0.7, { valueOf: () => ms }, undefined, -ms, NaN, 'x', ms][f];
  list.forEach(([ms, form, ticks, clear], i) => {
    const k = first + i;
    let n = 0, h;
    const stop = () => { say(id, 'tclear ' + k); (k % 2 ? clearTimeout : clearInterval)(k % 3 ? h : '' + h); };
    say(id, 'tset ' + k);
    if (ticks) h = setInterval((x) => { say(id, 'tfire ' + k + ' ' + x); if (++n >= ticks) stop(); }, delay(ms, form), k);
    else h = setTimeout((x) => { say(id, 'tfire ' + k + ' ' + x); if (form === 8) throw new Error('timer'); }, delay(ms, form), k);
    if (clear === 0) stop();
    else if (clear !== null) setTimeout(stop, clear);
  });
  for (const x of [undefined, null, NaN, -1, 0, 0.5, 'x', {}, 1e300, Infinity, 987654321, 2 ** 53]) { clearTimeout(x); clearInterval(x); }
  const far = [];
  for (const x of [1e12, 2 ** 53, 2 ** 63, 2 ** 64, 1e300]) {
    try { far.push(setTimeout(() => say(id, 'zombie'), x), setInterval(() => say(id, 'zombie'), x)); } catch (e) { say(id, 'zombie'); }
  }
  await sleep(wait);
  far.forEach(clearTimeout);
  say(id, 'tend ' + first + ' ' + list.length);
}
async function run(id, ops, st) {
  for (const o of ops) {
    switch (o[0]) {
      case 'sleep': await new Promise((r) => setTimeout((a, b) => a === id && b === 'x' ? r() : say(id, 'args ' + a + ' ' + b), o[1], id, 'x')); break;
      case 'call': await call(id, o[1], o[2]); break;
      case 'bg': call(id, o[1], o[2]); break;
      case 'par': await Promise.all(o[1].map((x) => run(id, x, st))); break;
      case 'interval':
        await new Promise((r) => {
          let n = 0;
          const h = setInterval(() => { say(id, 'tick'); if (++n >= o[2]) { clearInterval(h); r(); } }, o[1]);
        });
        break;
      case 'leakint': setInterval(() => say(id, 'late-interval'), o[1]); break;
      case 'leakto': setTimeout(() => say(id, 'late-timeout'), o[1]); break;
      case 'clear': { const h = setTimeout(() => say(id, 'zombie'), o[1]); await sleep(o[2]); clearTimeout(h); await new Promise((r) => { setTimeout(r, 1); clearTimeout(h); clearInterval(h); clearTimeout(0); clearTimeout(-1); clearTimeout(undefined); }); break; }
      case 'burn': for (let i = 0; i < o[1]; i++) say(id, 'burn'); break;
      case 'spin': for (;;) say(id, 'burn');
      case 'eat': { const hold = []; for (let i = 0; ; i++) { hold.push(new Array(50000).fill(i)); say(id, 'ate'); } }
      case 'throw':
        switch (o[1]) {
          case 'error': throw new Error('boom ' + id);
          case 'text': throw 'boom ' + id;
          case 'undefined': throw undefined;
          case 'null': throw null;
          default: throw { code: id };
        }
      case 'hang': await new Promise(() => {}); break;
      case 'wu': say(id, 'wu ' + o[1]); st.wu((async () => { await run(id, o[2], st); say(id, 'wuend ' + o[1]); })()); break;
      case 'buffers': {
        const hold = [], mb = 1 << 20;
        let n = 0, error = '';
        try {
          for (; n < o[1]; n++) {
            const b = n % 3 ? new Uint8Array(mb) : new Uint8Array(new ArrayBuffer(mb));
            if (b[0] | b[77777] | b[mb - 1]) say(id, 'dirty');
            b[0] = b[77777] = b[mb - 1] = 7;
            if (o[2]) hold.push(b);
          }
        } catch (e) { error = ' ' + e.name; }
        say(id, 'bufs ' + n * o[2] + error);
        break;
      }
      case 'timers': await timers(id, o[1], o[2], o[3]); break;
      case 'ws': await sock(id, o[1], o[2], o[3], o[4], o[5]); break;
      case 'burst': await Promise.all(Array.from({ length: o[1] }, () => o[2] % 2 ? env.KV.get('prog/' + id) : sleep(o[2]))); break;
      case 'odd': await odd(id, o[1]); break;
      case 'mark': say(id, 'mark ' + o[1]); break;
    }
  }
}
function pieces(id, spec) {
  // spec: ['push'|'pull', [[len, delay]...], end, form]
  const list = spec[1];
  const give = (c, b, form) => {
    switch (form) {
      case 1: c.enqueue(new TextDecoder().decode(b)); break;
      case 2: { const w = new Uint8Array(b.length + 7); w.set(b, 3); c.enqueue(w.subarray(3, 3 + b.length)); break; }
      case 3: { const w = new Uint8Array(b.length + 7); w.set(b, 3); c.enqueue(new DataView(w.buffer, 3, b.length)); break; }
      case 4: c.enqueue(b.slice().buffer); break;
      case 5: c.enqueue(new Int8Array(b.slice().buffer)); break;
      case 6: c.enqueue(new Uint8Array(0)); c.enqueue(b); break;
      case 7: give(c, b, i % 7); break;
      default: c.enqueue(b);
    }
  };
  let i = 0;
  const told = (what) => say(id, 'told ' + what);
  async function one(c) {
    if (i < list.length) {
      const [len, d] = list[i];
      if (d) await sleep(d);
      give(c, enc.encode(pad(id, i, len)), spec[3]);
      i++;
      say(id, 'put ' + i);
      return true;
    }
    if (spec[2] === 'close') c.close();
    else if (spec[2] === 'error') {
      switch (id % 5) {
        case 0: c.error(new Error('src ' + id)); break;
        case 1: c.error(new TypeError('src ' + id)); break;
        case 2: c.error('src ' + id); break;
        case 3: if (spec[0] === 'pull') throw new RangeError('src ' + id); c.error(new RangeError('src ' + id)); break;
        default: c.error(undefined);
      }
    }
    else if (spec[0] === 'pull') await new Promise(() => {});
    return false;
  }
  if (spec[0] === 'push') {
    return new ReadableStream({
      start(c) {
        c.signal.addEventListener('abort', () => told('signal'));
        (async () => { try { while (await one(c)); } catch (e) { told('enqueue'); } })();
      },
      cancel() { told('cancel'); },
    });
  }
  return new ReadableStream({
    start(c) { c.signal.addEventListener('abort', () => told('signal')); },
    async pull(c) { try { await one(c); } catch (e) { if (e instanceof RangeError) throw e; told('enqueue'); } },
    cancel() { told('cancel'); },
  });
}
const bytes = (text, form) => {
  const b = enc.encode(text);
  switch (form) {
    case 1: return b;
    case 2: return b.slice().buffer;
    case 3: { const w = new Uint8Array(b.length + 7); w.set(b, 3); return w.subarray(3, 3 + b.length); }
    case 4: return text === '' ? null : text;
    case 5: { const w = new Uint8Array(b.length + 7); w.set(b, 3); return new DataView(w.buffer, 3, b.length); }
    case 6: return new Int8Array(b.slice().buffer);
    case 7: { const w = new Uint8Array(b.length + 7); w.set(b, 3); return new Blob([w.subarray(3, 3 + b.length)]); }
    case 8: return new Blob(['..', b, '..']).slice(2, 2 + b.length);
    case 9: return formOf(text);
    case 10: return formOf(new Blob([b, '']));
    default: return text;
  }
};
const formOf = (...values) => { const f = new FormData(); for (const v of values) f.append('x', v); return f; };
async function build(id, spec, request) {
  const headers = [['x-id', '' + id], ['Set-Cookie', 's=' + id], ['set-cookie', 't=' + id + ', u'], ['X-List', '' + id], ['x-list', '' + (id + 1)]];
  switch (spec[0]) {
    case 'text': return new Response(bytes(pad(id, 0, spec[1]), spec[3]), { status: spec[2], headers });
    case 'push': case 'pull': return new Response(pieces(id, spec), { status: 200, headers });
    case 'fwd': return await http(spec[1], id, spec[2]);
    case 'echo': return new Response(await request.text(), { status: 200, headers });
    case 'echobuf': return new Response(await request.arrayBuffer(), { status: 200, headers });
    case 'echotwice': {
      const c = request.clone();
      let a, b;
      if (spec[1]) [a, b] = await Promise.all([request.text(), c.text()]);
      else { a = await c.text(); b = await request.text(); }
      return new Response(a === b ? a : 'differ ' + a + ' ' + b, { status: 200, headers });
    }
    case 'echoread': case 'echopart': {
      let out = '';
      const rd = request.body && request.body.getReader();
      const dec = new TextDecoder();
      while (rd) {
        const { value, done } = await rd.read();
        if (done) break;
        out += dec.decode(value);
        if (spec[0] === 'echopart') { await rd.cancel('enough'); break; }
      }
      say(id, 'read ' + out.length);
      return new Response(out, { status: 200, headers });
    }
    case 'echostream': return new Response(request.body, { status: 200, headers });
  }
}
async function whole(r) {
  if (!(r.headers.get('content-type') || '').startsWith('multipart')) return await r.text();
  const x = (await r.formData()).get('x');
  return typeof x === 'string' ? x : await x.text();
}
function wrap(id, r, how, wu) {
  switch (how) {
    case 'keep': {
      const c = r.clone();
      wu(whole(c).then((t) => say(id, 'copy ' + t), () => say(id, 'copyfail')));
      return r;
    }
    case 'give': return r.clone();
    case 'again': return new Response(r.body, { status: r.status, headers: r.headers });
    default: return r;
  }
}
const API = 'AbortController AbortSignal Blob CryptoKey DOMException File FormData Headers ReadableStream Request Response TextDecoder TextEncoder URL URLSearchParams WebSocket addEventListener atob btoa clearInterval clearTimeout fetch queueMicrotask setInterval setTimeout structuredClone';
async function handle(request, wu) {
  const id = +request.headers.get('x-id');
  served++;
  say(id, 'start ' + ME + ' ' + env.WHO + ' ' + served);
  if (typeof SharedArrayBuffer + typeof Atomics !== 'undefinedundefined') say(id, 'shares ' + typeof SharedArrayBuffer + typeof Atomics);
  const lacks = API.split(' ').filter((x) => typeof globalThis[x] !== 'function').concat([self, global].some((g) => g !== globalThis) ? ['self'] : [], typeof performance.now() !== 'number' || crypto.randomUUID().length !== 36 || structuredClone({ a: [id] }).a[0] !== id || atob(btoa('a' + id)) !== 'a' + id ? ['working ones'] : []);
  if (lacks.length) say(id, 'lacks ' + lacks);
  const p = JSON.parse(request.headers.get('x-prog'));
  await run(id, p.pre, { wu });
  say(id, 'saw ' + request.method + ' ' + request.url + ' ' + request.headers.get('X-Seen'));
  const r = wrap(id, await build(id, p.resp, request), p.wrap, wu);
  say(id, 'resp');
  return r;
}
async function job(event, wu) {
  const id = event.payload ? event.payload.id : event.scheduledTime - 1763600000000;
  served++;
  say(id, 'start ' + ME + ' ' + env.WHO + ' ' + served);
  say(id, 'task ' + event.taskId + ' ' + event.attempt + ' ' + event.scheduledTime);
  const p = event.payload || JSON.parse(await env.KV.get('prog/' + id));
  await run(id, p.pre, { wu });
  say(id, 'resp');
  if (p.how === 'return') return { n: id, text: 'done ' + id };
  if (p.how === 'respond' && event.respondWith) { event.respondWith({ success: true, data: { n: id, text: 'done ' + id } }); return undefined; }
  if (p.how === 'value') return p.value;
  if (p.how === 'truthy') return { success: 'yes', data: { n: id, text: 'done ' + id } };
  if (p.how === 'respondvalue' && event.respondWith) { event.respondWith(p.value); return undefined; }
  if (p.how === 'both' && event.respondWith) { event.respondWith({ success: true, data: { n: id, text: 'done ' + id } }); return { n: 0 }; }
  if (p.how === 'bothfail' && event.respondWith) { event.respondWith({ success: false, error: 'no ' + id }); return { n: 0 }; }
  if (p.how === 'fail') return { success: false, error: 'no ' + id };
  return undefined;
}
