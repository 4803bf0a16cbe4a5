addEventListener('fetch', (event) => { event.respondWith(handle(event.request, (x) => event.waitUntil(x))); });
addEventListener('task', (event) => job(event, (x) => event.waitUntil(x)));
