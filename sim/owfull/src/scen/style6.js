addEventListener('fetch', (event) => handle(event.request, (x) => event.waitUntil(x)));
