addEventListener('fetch', (event) => { event.respondWith(handle(event.request, (x) => event.waitUntil(x))); });
addEventListener('scheduled', (event) => job(event, (x) => event.waitUntil(x)));
