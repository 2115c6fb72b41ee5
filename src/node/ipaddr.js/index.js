// Stand-in for ipaddr.js on top of node's own address parser.
const net = require('net');
class IPv4 {
  constructor(s) { this.s = s; }
  kind() { return 'ipv4'; }
  toString() { return this.s; }
  static isValid(s) { return net.isIPv4(s); }
  static parse(s) { if (!net.isIPv4(s)) throw new Error('invalid IPv4'); return new IPv4(s); }
}
class IPv6 {
  constructor(s) { this.s = s; }
  kind() { return 'ipv6'; }
  toString() { return this.s; }
  m() { return /^::ffff:(\d+\.\d+\.\d+\.\d+)$/i.exec(this.s); }
  isIPv4MappedAddress() { return this.m() !== null; }
  toIPv4Address() { const m = this.m(); if (!m) throw new Error('not mapped'); return new IPv4(m[1]); }
  static isValid(s) { return net.isIPv6(s); }
  static parse(s) { if (!net.isIPv6(s)) throw new Error('invalid IPv6'); return new IPv6(s); }
}
const parse = (s) => net.isIPv6(s) ? IPv6.parse(s) : IPv4.parse(s);
module.exports = { IPv4, IPv6, parse, isValid: (s) => net.isIP(s) !== 0,
  process: (s) => { const a = parse(s); return a.kind() === 'ipv6' && a.isIPv4MappedAddress() ? a.toIPv4Address() : a; } };
