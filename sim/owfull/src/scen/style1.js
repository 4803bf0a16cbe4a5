addEventListener('fetch', (event) => handle(event.request, (x) => event.waitUntil(x)));
addEventListener('task', async (event) => { return await job(event, (x) => event.waitUntil(x)); });
