// Stand-in for body-parser: text bodies only, with its size limit and types.
function bytes(v, d) {
  if (v === undefined || v === null) return d;
  if (typeof v === 'number') return v;
  const x = /^\s*((?:\d*\.)?\d+)\s*(b|kb|mb|gb|tb)?\s*$/i.exec(String(v));
  if (!x) return Infinity;   // bytes() gives null: no limit
  return Math.floor(parseFloat(x[1]) * Math.pow(1024, ['b', 'kb', 'mb', 'gb', 'tb'].indexOf((x[2] || 'b').toLowerCase())));
}
function matches(type, ct) {
  if (Array.isArray(type)) return type.some(t => matches(t, ct));
  if (!ct) return false;
  ct = ct.split(';')[0].trim().toLowerCase();
  let t = String(type).toLowerCase();
  if (t === 'text' || t === 'txt') t = 'text/plain';
  const [a, b] = t.split('/'), [c, d] = ct.split('/');
  return (a === '*' || a === c) && (b === '*' || b === d);
}
exports.text = function (opts) {
  const type = (opts && opts.type) || 'text/plain', limit = bytes(opts && opts.limit, 100 * 1024);
  return function (req, res, next) {
    if (!(typeof type === 'function' ? type(req) : matches(type, req.headers['content-type']))) return next();
    if (Buffer.byteLength(req.raw) > limit) { res.status(413).send('request entity too large'); return; }
    req.body = req.raw;
    next();
  };
};
exports.json = exports.raw = exports.urlencoded = () => (q, s, n) => n();
