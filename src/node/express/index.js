// Stand-in for express: routes requests that arrive as JSON lines on the unix
// socket VORCH_SOCK.  Only the peer address is made up; handlers are the tree's.
const net = require('net');
function compile(pat) {
  const keys = [];
  const re = new RegExp('^' + String(pat).replace(/\/:([A-Za-z_]+)/g, (_, k) => { keys.push(k); return '/([^/]+)'; }) + '/?$');
  return { re, keys };
}
function express() {
  const routes = [], uses = [];
  const app = {};
  for (const m of ['get', 'post', 'put', 'delete', 'all']) {
    app[m] = function (pat, ...hs) { if (hs.length) routes.push({ m, ...compile(pat), hs: hs.flat() }); return app; };
  }
  app.use = function (...a) { uses.push(...a.filter(x => typeof x === 'function')); return app; };
  app.set = app.disable = app.enable = function () { return app; };
  function dispatch(q, reply) {
    let done = false;
    const res = {
      statusCode: 200, headersSent: false,
      status(c) { res.statusCode = c; return res; },
      set() { return res; }, type() { return res; }, setHeader() { return res; }, header() { return res; },
      send(b) {
        if (done) { reply({ id: q.id, status: 599, body: Buffer.from('answered twice').toString('base64') }); return res; }
        done = true; res.headersSent = true;
        let buf;
        if (b === null || b === undefined) buf = Buffer.alloc(0);
        else if (Buffer.isBuffer(b)) buf = b;
        else if (typeof b === 'number') { res.statusCode = b; buf = Buffer.alloc(0); }
        else if (typeof b === 'string') buf = Buffer.from(b, 'utf8');
        else buf = Buffer.from(JSON.stringify(b), 'utf8');
        reply({ id: q.id, status: res.statusCode, body: buf.toString('base64') });
        return res;
      },
      end(b) { return res.send(b === undefined ? '' : b); },
      json(b) { return res.send(JSON.stringify(b)); },
      sendStatus(c) { res.statusCode = c; return res.send(String(c)); },
      sendFile(p) { return res.send(require('fs').readFileSync(p)); },
    };
    const sock = { remoteAddress: q.ip };
    const req = { method: q.method, url: q.url, path: q.url, originalUrl: q.url, params: {}, query: {}, headers: q.headers || {},
                  raw: q.body || '', body: {}, ip: q.ip, connection: sock, socket: sock,
                  get(h) { return req.headers[String(h).toLowerCase()]; } };
    const fail = (e) => {
      process.stderr.write('handler: ' + (e && e.stack || e) + '\n');
      if (!done) { res.statusCode = 500; res.send(String(e)); }
    };
    const chain = [...uses];
    for (const r of routes) {
      const x = r.re.exec(q.url);
      if (x && (r.m === 'all' || r.m.toUpperCase() === q.method)) {
        r.keys.forEach((k, i) => { req.params[k] = decodeURIComponent(x[i + 1]); });
        chain.push(...r.hs);
        chain.push(null);
        break;
      }
    }
    if (chain[chain.length - 1] !== null) { res.statusCode = 404; return res.send('no such route'); }
    let i = 0;
    const next = (e) => {
      if (e) return fail(e);
      const h = chain[i++];
      if (!h) return;
      try { h(req, res, next); } catch (e2) { fail(e2); }  // like express 4: a rejected promise is nobody's
    };
    next();
  }
  app.listen = function (port, ...a) {
    const cb = a.find(x => typeof x === 'function');
    const srv = net.createServer((c) => {
      let acc = '';
      c.setEncoding('utf8');
      c.on('data', (d) => {
        acc += d;
        let k;
        while ((k = acc.indexOf('\n')) >= 0) {
          const line = acc.slice(0, k); acc = acc.slice(k + 1);
          dispatch(JSON.parse(line), (o) => c.write(JSON.stringify(o) + '\n'));
        }
      });
      c.on('error', () => {});
    });
    srv.listen(process.env.VORCH_SOCK, cb);
    return srv;
  };
  return app;
}
const parser = (opts) => (req, res, next) => require('body-parser').text(opts)(req, res, next);
express.text = parser;
express.json = express.raw = express.urlencoded = express.static = () => (q, s, n) => n();
express.Router = express;
module.exports = express;
