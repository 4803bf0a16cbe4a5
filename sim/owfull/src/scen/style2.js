globalThis.default = {
  async fetch(request, env, ctx) { return await handle(request, (x) => ctx.waitUntil(x)); },
  async task(event, env, ctx) { return await job(event, (x) => ctx.waitUntil(x)); },
};
