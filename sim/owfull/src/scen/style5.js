globalThis.default = { async fetch(request, env, ctx) { return await handle(request, (x) => ctx.waitUntil(x)); } };
