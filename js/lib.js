'use strict';
// Models, generators and the runner shared by the JavaScript-level checks. The models are written byte by byte from the
// yEnc rules and the README; they share no code with /repo.
const fs = require('fs'), path = require('path');
const FC_PATHS = [process.env.FAST_CHECK, 'fast-check', '/opt/veriftools/node/node_modules/fast-check'].filter(Boolean);
let fc; for(const p of FC_PATHS) { try { fc = require(p); break; } catch(e) {} }
if(!fc) { console.error('fast-check not found'); process.exit(3); }

// ------------------------------------------------------------------ models
function modelEncode(data, ls, col, doEnd) {
	const out = Buffer.allocUnsafe(data.length*2 + 2*Math.ceil(data.length*2/ls) + 16); let o = 0;
	for(let i=0; i<data.length; i++) {
		if(col >= ls) { out[o++] = 13; out[o++] = 10; col = 0; }
		let c = (data[i] + 42) & 255;
		if(c === 0 || c === 10 || c === 13 || c === 61 || (c === 46 && col === 0) || ((c === 9 || c === 32) && (col === 0 || col >= ls-1))) {
			out[o++] = 61; c = (c + 64) & 255; col++;
		}
		out[o++] = c; col++;
	}
	if(doEnd && data.length && (out[o-1] === 9 || out[o-1] === 32)) { out[o] = (out[o-1] + 64) & 255; out[o-1] = 61; o++; col++; }
	return {out: out.subarray(0, o), col};
}
const encRef = (data, ls, col) => { ls = ls || 128; return modelEncode(data, ls, (col === undefined || col === ls) ? 0 : col, true).out; }; // a line size of 0 counts as 128

const M = {CRLF: '\r\n', EQ: '=', CR: '\r', NONE: '', CRLFDT: '\r\n.', CRLFDTCR: '\r\n.\r', CRLFEQ: '\r\n='};
const STATES = Object.values(M);
// returns {out, read, end: ''|'\r\n=y'|'\r\n.\r\n', state}
function modelDecode(data, raw, findEnd, st) {
	const out = Buffer.allocUnsafe(data.length); let o = 0;
	for(let i=0; i<data.length; i++) {
		const c = data[i];
		if(st === M.CRLF) {
			if(raw && c === 46) { st = M.CRLFDT; continue; }
			if(c === 61) { st = M.CRLFEQ; continue; }
		} else if(st === M.CRLFDT) {
			if(c === 13) { st = M.CRLFDTCR; continue; }
			if(c === 61) { st = M.CRLFEQ; continue; }
		} else if(st === M.CRLFDTCR) {
			if(c === 10) { if(findEnd) return {out: out.subarray(0,o), read: i+1, end: '\r\n.\r\n', state: '\r\n.\r\n'}; st = M.CRLF; continue; }
		} else if(st === M.CR) {
			if(c === 10) { st = M.CRLF; continue; }
		} else if(st === M.CRLFEQ || st === M.EQ) {
			if(st === M.CRLFEQ && findEnd && c === 121) return {out: out.subarray(0,o), read: i+1, end: '\r\n=y', state: '\r\n=y'};
			out[o++] = (c - 106) & 255; st = c === 13 ? M.CR : M.NONE; continue;
		}
		if(c === 13) st = M.CR; else if(c === 10) st = M.NONE; else if(c === 61) st = M.EQ; else { out[o++] = (c - 42) & 255; st = M.NONE; }
	}
	return {out: out.subarray(0,o), read: data.length, end: '', state: st};
}
const decRef = (data, raw) => modelDecode(data, raw, false, raw ? M.CRLF : M.NONE).out;

const CRCT = new Uint32Array(256); for(let i=0;i<256;i++) { let c=i; for(let k=0;k<8;k++) c = (c&1) ? (c>>>1) ^ 0xEDB88320 : c>>>1; CRCT[i]=c>>>0; }
function crcRef(data, init) { let c = ~(init||0); for(let i=0;i<data.length;i++) c = (c>>>8) ^ CRCT[(c ^ data[i]) & 255]; return (~c)>>>0; }
const b4 = (n) => { const b = Buffer.alloc(4); b.writeUInt32BE(n>>>0, 0); return b; };
const hex8 = (n) => b4(n).toString('hex');
// GF(2)[x] modulo the CRC polynomial, reflected: 0x80000000 is 1
const timesX = (a) => ((a&1) ? (a>>>1) ^ 0xEDB88320 : a>>>1)>>>0;
const divX = (a) => (a & 0x80000000) ? ((((a ^ 0xEDB88320) << 1) | 1)>>>0) : (a<<1)>>>0;
function gmul(a, b) { let r=0; for(let i=31;i>=0;i--) { if((b>>>i)&1) r ^= a; a = timesX(a); } return r>>>0; }
function gpow(base, n) { let r=0x80000000; while(n > 0n) { if(n & 1n) r = gmul(r, base); base = gmul(base, base); n >>= 1n; } return r>>>0; }
const xpow = (n) => { n = BigInt(n); return n < 0n ? gpow(divX(0x80000000), -n) : gpow(0x40000000, n); };
const maxSizeRef = (len, ls, r) => { if(!len) return 0; const e = 1 + (r === undefined ? 1 : r); return Math.ceil(len*e) + 2*Math.floor(len*e/(ls||128)) + 66; };
const minSizeRef = (len, ls) => len ? len + 2*Math.floor((len-1)/(ls||128)) : 0;
function dotStuff(b) {
	const o = []; let start = 0;
	for(let i=0;i<b.length;i++) if(b[i] === 46 && (i === 0 || (i>=2 && b[i-2] === 13 && b[i-1] === 10))) { o.push(b.subarray(start, i), Buffer.from('.')); start = i; }
	o.push(b.subarray(start)); return Buffer.concat(o);
}

// ------------------------------------------------------------------ generators
function prng(s) { s = s>>>0; return () => { s = (s + 0x9E3779B9)>>>0; let z = s; z = Math.imul(z ^ (z>>>16), 0x85ebca6b); z = Math.imul(z ^ (z>>>13), 0xc2b2ae35); return (z ^ (z>>>16))>>>0; }; }
const CRIT = [0, 10, 13, 61, 9, 32, 46].map(c => (c - 42) & 255);
const crit = fc.constantFrom(...CRIT), byte = fc.nat(255), seed = fc.nat(0x7fffffff);
const plainBytes = []; for(let i=0;i<256;i++) if(!CRIT.includes(i)) plainBytes.push(i);
function expandSeg(s) {
	if(s.t === 'rep') return Buffer.alloc(s.n, s.b);
	if(s.t === 'lit') return Buffer.from(s.v);
	const r = prng(s.s), b = Buffer.allocUnsafe(s.n);
	if(s.t === 'rnd') for(let i=0;i<s.n;i++) b[i] = r() >>> 24;
	else if(s.t === 'mix') for(let i=0;i<s.n;i++) { const x=r(); b[i] = (x>>>24) < s.d ? CRIT[(x&0xffff) % 7] : s.p !== undefined ? s.p : (x>>>8)&255; }
	return b;
}
const segs = (max) => fc.oneof(
	{weight: 3, arbitrary: fc.record({t: fc.constant('rep'), b: fc.oneof(crit, byte), n: fc.nat(max)})},
	{weight: 2, arbitrary: fc.record({t: fc.constant('rnd'), s: seed, n: fc.nat(max*2)})},
	{weight: 3, arbitrary: fc.record({t: fc.constant('mix'), s: seed, n: fc.nat(max*2), d: fc.nat(255)})},
	{weight: 1, arbitrary: fc.record({t: fc.constant('mix'), s: seed, n: fc.nat(max*2), d: fc.nat(255), p: fc.constantFrom(...plainBytes)})},
	{weight: 3, arbitrary: fc.record({t: fc.constant('lit'), v: fc.array(fc.oneof(crit, byte), {maxLength: 8})})},
);
// data for the encoders
const dataArb = (opt) => { const o = Object.assign({max: 150, segs: 6, big: 0}, opt);
	const small = fc.array(segs(o.max), {maxLength: o.segs}).map(a => Buffer.concat(a.map(expandSeg)));
	return o.big ? fc.oneof({weight: 24, arbitrary: small}, {weight: 1, arbitrary: fc.array(segs(o.big), {minLength: 1, maxLength: 3}).map(a => Buffer.concat(a.map(expandSeg)))}) : small; };
const nonEmptyData = (opt) => dataArb(opt).map(b => b.length ? b : Buffer.from([65]));
const TOK = ['\r\n','\r','\n','=','==','=y','\r\n.','\r\n..','\r\n.=','\r\n=y','\r\n.\r\n','=\r\n','.','y','\r\n=','\r\n.\r','\r\n.=y','=\r','\r\r\n','\r\n\r\n','=\r\n.','=\r\n=y','\r\n.\n','\n.\r\n','\r=y','\r\n.y','=.','==y','=\n','\r\n..\r\n','=\r\n.\r\n','===','\r.\r\n','\r\n.==y','\r\n==y'];
// data for the decoders; article-like, with boundary sequences and malformed escapes
const decDataArb = (opt) => { const o = Object.assign({max: 80, segs: 10}, opt);
	const seg = fc.oneof(
		{weight: 5, arbitrary: fc.constantFrom(...TOK).map(s => Buffer.from(s, 'latin1'))},
		{weight: 3, arbitrary: fc.nat(o.max).map(n => Buffer.alloc(n, 97))},
		{weight: 1, arbitrary: fc.tuple(seed, fc.nat(o.max)).map(([s,n]) => expandSeg({t:'rnd', s, n}))},
		{weight: 1, arbitrary: fc.nat(40).map(n => Buffer.alloc(n, 61))},
		{weight: 1, arbitrary: fc.array(fc.constantFrom(13,10,46,61,121,97), {maxLength: 10}).map(a => Buffer.from(a))},
		{weight: 1, arbitrary: fc.record({t: fc.constant('mix'), s: seed, n: fc.nat(o.max*3), d: fc.nat(255)}).map(x => modelEncode(expandSeg(x), 1+x.s%150, 0, true).out)},
	);
	return fc.array(seg, {maxLength: o.segs}).map(a => Buffer.concat(a)); };
const lsArb = fc.oneof({weight: 3, arbitrary: fc.constant(128)}, {weight: 2, arbitrary: fc.integer({min:1,max:20})}, {weight: 5, arbitrary: fc.integer({min:1,max:300})},
	{weight: 1, arbitrary: fc.constantFrom(256,512,997,998,1000,1024,4096,65535,65536,1000000,0x7ffffffe,0x7fffffff)});
const lsArb0 = fc.oneof({weight: 19, arbitrary: lsArb}, {weight: 1, arbitrary: fc.constant(0)});
const alignArb = fc.nat(127);
// memory with slack on both sides, at a chosen alignment
function at(buf, align) { const m = Buffer.allocUnsafeSlow(buf.length + 64 + align); const s = m.subarray(align, align + buf.length); buf.copy(s); return s; }
function room(len, align, fill) { const m = Buffer.alloc(len + align + 64, fill === undefined ? 0xA5 : fill); return m.subarray(align, align+len); }

// ------------------------------------------------------------------ assertions
class Fail extends Error {}
const fail = (m) => { throw new Fail(m); };
const short = (b) => Buffer.isBuffer(b) ? (b.length > 24 ? b.subarray(0,24).toString('hex') + '..' : b.toString('hex')) : String(b);
function eqBuf(what, got, want) {
	if(!Buffer.isBuffer(got)) fail(what + ' is no Buffer but ' + Object.prototype.toString.call(got));
	if(got.length === want.length && got.equals(want)) return;
	let i=0; while(i<got.length && i<want.length && got[i] === want[i]) i++;
	fail(`${what}: got ${got.length} bytes, expected ${want.length}; first difference at ${i} (got ${short(got.subarray(i,i+8))}, expected ${short(want.subarray(i,i+8))})`);
}
function eq(what, got, want) { if(!Object.is(got, want)) fail(`${what} is ${JSON.stringify(got)} (${typeof got}), expected ${JSON.stringify(want)}`); }
function throws(what, f) { let r; try { r = f(); } catch(e) { if(!(e instanceof Error)) fail(what + ' threw something that is no Error: ' + String(e)); return e; } fail(what + ' did not throw'); }
function allEq(what, buf, val, from, to) { for(let i=from;i<to;i++) if(buf[i] !== val) fail(`${what}: byte ${i} was changed`); }

// ------------------------------------------------------------------ serialisation of cases
function ser(v) {
	if(Buffer.isBuffer(v)) return {$b: v.toString('hex')};
	if(v === undefined) return {$u: 1};
	if(typeof v === 'bigint') return {$i: String(v)};
	if(typeof v === 'number' && (!Number.isFinite(v) || Object.is(v, -0))) return {$n: Object.is(v,-0) ? '-0' : String(v)};
	if(typeof v === 'string') { // keep lone surrogates
		return /[\ud800-\udfff]/.test(v) ? {$s: Array.from({length: v.length}, (_, i) => v.charCodeAt(i))} : v; }
	if(Array.isArray(v)) return v.map(ser);
	if(v && typeof v === 'object') { const o = {}; for(const k of Object.keys(v)) o[k] = ser(v[k]); return o; }
	return v;
}
function deser(v) {
	if(Array.isArray(v)) return v.map(deser);
	if(v && typeof v === 'object') {
		if('$b' in v) return Buffer.from(v.$b, 'hex'); if('$u' in v) return undefined; if('$i' in v) return BigInt(v.$i); if('$n' in v) return Number(v.$n); if('$s' in v) return String.fromCharCode(...v.$s);
		const o = {}; for(const k of Object.keys(v)) o[k] = deser(v[k]); return o;
	}
	return v;
}

module.exports = {fc, fs, path, modelEncode, encRef, M, STATES, modelDecode, decRef, crcRef, b4, hex8, timesX, divX, gmul, gpow, xpow, maxSizeRef, minSizeRef, dotStuff,
	prng, CRIT, plainBytes, expandSeg, dataArb, nonEmptyData, decDataArb, TOK, lsArb, lsArb0, alignArb, at, room, seed, byte, Fail, fail, short, eqBuf, eq, throws, allEq, ser, deser};
