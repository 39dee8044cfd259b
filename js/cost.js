'use strict';
// C24: what a call costs. The oracle is the processor time of the same kind of call at growing sizes: an absolute bound far
// above what a linear scan takes, and, where a call seems slow, the ratio between a size and four times that size.
module.exports = function(env, L, add) {
const {fc, modelEncode, expandSeg, fail, eq, b4, room, lsArb, STATES, TOK} = L, y = env.y, native = env.native;
// processor time of f in seconds; the smallest of up to three tries if it exceeds `limit`
function cpu(f, limit) {
	let best = Infinity;
	for(let k=0;k<3;k++) { const a = process.cpuUsage(); f(); const b = process.cpuUsage(a), t = (b.user + b.system) / 1e6; if(t < best) best = t; if(best <= limit || t > 12 * limit) break; }
	return best;
}
const fmt = (t) => t.toFixed(2) + ' s';
// make(n) returns a function to be timed on input of about n bytes
function linear(what, make, sizes, perByte, ctx) {
	for(const n of sizes) {
		const limit = 0.4 + n * perByte; let t = cpu(make(n), limit);
		if(t > limit) fail(`${what}: ${n} bytes take ${fmt(t)}`);
		if(t > 0.25 && n === sizes[sizes.length - 1]) { // slow: does four times as much take (far) more than four times as long?
			ctx.cls('measured at four times the size'); const t4 = cpu(make(n * 4), t * 8); t = Math.max(t, 0.25);
			if(t4 > 9 * t && t4 > 2) { const again = Math.max(0.25, cpu(make(n), 0)), again4 = cpu(make(n * 4), again * 8); if(again4 > 9 * again && again4 > 2) fail(`${what}: ${n} bytes take ${fmt(again)}, four times as many ${fmt(again4)}`); }
		}
	}
}
const repTo = (pat, n) => Buffer.alloc(n, pat.length ? pat : 'x');
// text repeated up to n bytes; %d counts
function fill(f, n) {
	if(!f) return Buffer.alloc(0);
	if(!f.pat.includes('%d')) return repTo(Buffer.from(f.pat, 'latin1'), Math.floor(n * f.share));
	let s = [], len = 0; for(let k=0;len < n * f.share;k++) { const x = f.pat.replace(/%d/g, String(k)); s.push(x); len += x.length; }
	return Buffer.from(s.join(''), 'latin1');
}
const PAT = ['a', 'a9', '9', '9a', '_', 'a=', 'a=1 ', 'a%d=1 ', 'size=1 ', 'part=%d ', 'name=', 'name=x ', '=', '==', ' ', '  x', '\t', '\r', '\n', '\r\n', '\n\r', '\r\n\r', '\r\n=', '\r\n=y', '\r\n=ye', '\r\n=yend', '\r\n=yend ', '\r\n=yend\r\n', '\r\n=ybegin ', '\r\n=ybegin', '\r\n=ypart ', '\r\n=ypart begin=1 end=2', '\r\n=ypart part=%d', '\r\n=yx%d a=1', '\r\n=y%d a', '\r\n=ya b c', '\r\n.', '\r\n.\r\n', '\r\n..', '\r\n.=y', '\r\n=\r\n', 'A', 'a-', '-a', '-9', 'a=b=', '\xff', '\x80', '\0', '\xe9=', '.', 'x\r\n', 'x', 'yend', '=y', '=yend ', 'a=\xa0', '\xa0', '"', '\\', '$&', '%', '0=', 'crc32=%d '];
const alpha = ['a', '9', '_', '=', ' ', '\r', '\n', 'y', '.', '-', 'e', '\xe9'];
const patArb = fc.oneof({weight: 4, arbitrary: fc.constantFrom(...PAT)}, {weight: 1, arbitrary: fc.tuple(fc.constantFrom(...PAT), fc.constantFrom(...PAT)).map(a => a.join(''))}, {weight: 2, arbitrary: fc.array(fc.constantFrom(...alpha), {minLength: 1, maxLength: 7}).map(a => a.join(''))});
const fillArb = fc.record({pat: patArb, share: fc.constantFrom(1, 1, 0.5)});
const REGIONS = ['pre', 'begin', 'beginx', 'lines', 'data', 'end', 'endx', 'post'];
const SIZES = [1<<14, 1<<16, 1<<18, 1<<20];
// an article whose parts are long in a few places
add('C24', 'from_post', 2500, fc.record({fills: fc.array(fc.tuple(fc.constantFrom(...REGIONS), fillArb), {minLength: 1, maxLength: 3}), part: fc.boolean(), name: fc.boolean(), noEnd: fc.nat(5), noBegin: fc.nat(9), nl: fc.boolean(), raw: fc.boolean(), enc: fc.constantFrom('utf8', 'utf8', 'latin1')}), (c, ctx) => {
	const F = {}; for(const [r, f] of c.fills) F[r] = f;
	const art = (n) => { const R = (r) => fill(F[r], n), T = (s) => Buffer.from(s, 'latin1');
		return Buffer.concat([R('pre'), T(c.noBegin ? (F.pre ? '\r\n' : '') + '=ybegin ' : ''), R('begin'), T(' line=128 size=3' + (c.part ? ' part=1 total=2' : '')), T(c.name ? ' name=' : ' '), R('beginx'), T(c.name ? '' : ' name=x'), R('lines'), T(c.part ? '\r\n=ypart begin=1 end=3' : ''), T('\r\nabc'), R('data'), T(c.noEnd ? '\r\n=yend ' : ''), R('end'), T(' size=3 '), R('endx'), T(c.nl ? '\r\n' : ''), R('post')]); };
	y.encoding = c.enc; let kind = '';
	linear('from_post', (n) => { const a = art(n); return () => { const r = y.from_post(a, c.raw); kind = r.code || (r.warnings ? 'read, with warnings' : 'read'); }; }, SIZES, 2e-6, ctx);
	ctx.cls(kind); ctx.nt(); for(const r in F) ctx.cls('long: ' + r);
}, {slow: true});
const bytesArb = fc.oneof({weight: 2, arbitrary: patArb.map(s => Buffer.from(s.replace(/%d/g, '1'), 'latin1'))}, {weight: 1, arbitrary: fc.uint8Array({minLength: 1, maxLength: 20}).map(a => Buffer.from(a))}, {weight: 1, arbitrary: fc.constantFrom(...L.CRIT).map(b => Buffer.from([b]))}, {weight: 1, arbitrary: fc.tuple(fc.integer({min: 1, max: 5000}), L.seed, fc.nat(255)).map(([n, s, d]) => expandSeg({t: 'mix', s, n, d}))}, {weight: 1, arbitrary: fc.tuple(fc.nat(300), fc.constantFrom(...TOK)).map(([n, t]) => Buffer.concat([Buffer.alloc(n, 97), Buffer.from(t, 'latin1')]))});
// encoding, decoding, CRC
add('C24', 'kernels', 3000, fc.record({p: bytesArb, ls: fc.oneof(fc.integer({min: 1, max: 4}), lsArb), raw: fc.boolean(), st: fc.constantFrom(null, ...STATES), f: fc.constantFrom('encode', 'decode', 'decodeTo', 'decodeChunk', 'insitu', 'crc32', 'post', 'encodeTo')}), (c, ctx) => {
	linear(c.f, (n) => { const d = repTo(c.p, n), out = c.f === 'encodeTo' ? Buffer.alloc(y.maxSize(n, c.ls)) : c.f === 'decodeTo' || c.f === 'decodeChunk' ? Buffer.alloc(n) : null;
		return {encode: () => y.encode(d, c.ls), encodeTo: () => y.encodeTo(d, out, c.ls), decode: () => y.decode(d, c.raw), decodeTo: () => y.decodeTo(d, out, c.raw), decodeChunk: () => y.decodeChunk(d, c.st, out), insitu: () => y.decodeTo(d, d, c.raw), crc32: () => y.crc32(d, b4(5)), post: () => y.post('n', d, c.ls)}[c.f]; }, [1<<17, 1<<22], 2e-7, ctx);
	ctx.cls(c.f); ctx.nt();
}, {slow: true});
// many small calls: each costs what its own data costs
let wide; const WIDE = () => wide = wide || Buffer.alloc(1<<26, 97);
add('C24', 'many calls', 600, fc.record({p: bytesArb, k: fc.oneof(fc.integer({min: 1, max: 40}), fc.integer({min: 1, max: 900})), ls: lsArb, f: fc.constantFrom('decodeChunk', 'encodeIncr', 'crc32', 'parts', 'early', 'early', 'wide encodeTo', 'wide decodeTo', 'wide decodeChunk', 'arithmetic', 'chained crc'), mark: fc.constantFrom('\r\n=y', '\r\n.\r\n', '\r\n.=y'), a: fc.nat(1000), neg: fc.boolean(), e: fc.integer({min: 0, max: 53})}), (c, ctx) => {
	const piece = repTo(c.p, c.k), W = WIDE(), calls = (N, f) => () => { for(let i=0;i<N;i++) f(i); };
	const make = {
		decodeChunk: (N) => () => { let s = null; for(let i=0;i<N;i++) s = y.decodeChunk(piece, s).state; if(!STATES.includes(s)) s = null; },
		encodeIncr: (N) => () => { if(!native.encodeIncr) return; let col = 0, ls = Math.min(c.ls, 0x7fff0000); for(let i=0;i<N;i++) col = native.encodeIncr(piece, ls, col).col; },
		crc32: (N) => calls(N, () => y.crc32(piece)),
		'chained crc': (N) => () => { let x = b4(0); for(let i=0;i<N;i++) x = y.crc32(piece, x); },
		parts: (N) => () => { const e = y.multi_post('name', piece.length * N, N, c.ls); for(let i=0;i<N;i++) e.encode(piece); eq('parts', e.part, N); },
		'wide encodeTo': (N) => calls(N, () => y.encodeTo(piece, W, 128)), 'wide decodeTo': (N) => calls(N, () => y.decodeTo(piece, W, c.neg)), 'wide decodeChunk': (N) => calls(N, () => y.decodeChunk(piece, null, W)),
		// an end marker early in 64 MiB
		early: (N) => { const b = Buffer.from(W.subarray(0, 4000)), m = Buffer.from(c.mark + 'aaaa', 'latin1'), d = W, o = c.a; d.fill(97, 0, 4096); m.copy(d, o); if(!early2) early2 = Buffer.alloc(1<<26); return () => { for(let i=0;i<N;i++) { const r = y.decodeChunk(d, null, early2); if(!r.ended || r.read !== o + c.mark.length) fail('the end marker was not found'); } }; },
		arithmetic: (N) => { const n = (2 ** c.e - 1) * (c.neg ? -1 : 1), u = b4(0x12345678 + c.a), v = b4(c.a * 77777); return calls(N, () => { y.crc32_zeroes(n, u); y.crc32_shift(n, v); if(n >= 0) y.crc32_combine(u, v, n); y.crc32_multiply(u, v); }); },
	}[c.f];
	// the bound is per call: 20 microseconds and 0.2 per byte on top of a constant
	const per = 40e-6 + c.k * 2e-7;
	try { for(const N of [200, 5000, 20000]) { const t = cpu(make(N), 0.4 + N * per); if(t > 0.4 + N * per) fail(`${c.f}: ${N} calls with ${c.k} bytes each take ${fmt(t)}`);
		if(N === 5000 && t > 0.15) { const t4 = cpu(make(20000), t * 8); if(t4 > 9 * Math.max(0.15, t) && t4 > 2 && cpu(make(20000), 0) > 9 * Math.max(0.15, cpu(make(5000), 0))) fail(`${c.f}: 5000 calls take ${fmt(t)}, 20000 take ${fmt(t4)}`); } } }
	finally { if(c.f === 'early' || c.f.startsWith('wide')) W.fill(97, 0, 1<<16); }
	ctx.cls(c.f); ctx.nt();
}, {slow: true});
let early2;
};
