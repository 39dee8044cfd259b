'use strict';
// The executable form of the properties at the level of the JavaScript API.
module.exports = function(env, L) {
const {fc, modelEncode, encRef, M, STATES, modelDecode, decRef, crcRef, b4, hex8, gmul, xpow, maxSizeRef, minSizeRef, dotStuff, CRIT, plainBytes,
	expandSeg, dataArb, nonEmptyData, decDataArb, lsArb, lsArb0, alignArb, at, room, Fail, fail, eqBuf, eq, throws, allEq, ser} = L;
const y = env.y, native = env.native, zlib = require('zlib');
const S = {}; const add = (prop, name, runs, arb, run, extra) => (S[prop] = S[prop] || []).push(Object.assign({name, runs, arb, run}, extra));
const hasCrit = (d) => { for(let i=0;i<d.length;i++) if(CRIT.includes(d[i])) return true; return false; };
const isArr = Array.isArray;

// column arguments: undefined = left out
const encArgs = fc.record({data: dataArb({big: 6000}), ls: fc.option(lsArb0, {nil: undefined, freq: 6}), colf: fc.option(fc.oneof(fc.nat(1000), fc.constantFrom(1000, 999, 1)), {nil: undefined, freq: 3}), a: alignArb, b: alignArb})
	.map(x => { const o = {data: x.data, a: x.a, b: x.b, ls: x.ls, col: undefined}; if(x.ls !== undefined && x.colf !== undefined) o.col = Math.floor(Math.min(x.ls || 128, 100000) * x.colf / 1000); if(x.colf === 1000 && x.ls !== undefined) o.col = x.ls || 128; return o; });
const callArgs = (c) => c.ls === undefined ? [] : c.col === undefined ? [c.ls] : [c.ls, c.col];
const clsEnc = (c, ctx, out) => { if(c.col) ctx.cls('column offset'); if(c.ls === undefined) ctx.cls('default line size'); if(out.includes('\r\n')) ctx.cls('several lines'); if(c.data.length > 5000) ctx.cls('over 5000 bytes'); if(hasCrit(c.data) && c.data.length >= 16) { ctx.cls('critical characters'); ctx.nt(); } };

// ------------------------------------------------------------------ C01
add('C01', 'api', 30000, encArgs, (c, ctx) => {
	const want = encRef(c.data, c.ls, c.col), args = callArgs(c);
	const out = y.encode(at(c.data, c.a), ...args);
	eqBuf('encode', out, want);
	const dst = room(y.maxSize(c.data.length, c.ls) + (c.b % 3), c.b);
	const n = y.encodeTo(at(c.data, c.a), dst, ...args);
	eq('return value of encodeTo', n, want.length);
	eqBuf('output of encodeTo', dst.subarray(0, n), want);
	clsEnc(c, ctx, out);
});
// ------------------------------------------------------------------ C02
function validEncoding(out, ls, col, dataLen) {
	if(!dataLen) { eq('length of the encoding of nothing', out.length, 0); return; }
	const lines = []; let start = 0;
	for(let i=0;i<out.length;i++) {
		if(out[i] === 0) fail('NUL at ' + i);
		if(out[i] === 10) fail('LF alone at ' + i);
		if(out[i] === 13) { if(out[i+1] !== 10) fail('CR alone at ' + i); lines.push(out.subarray(start, i)); i++; start = i+1; }
	}
	lines.push(out.subarray(start));
	lines.forEach((l, k) => {
		const c0 = k ? 0 : col, last = k === lines.length-1, width = c0 + l.length;
		if(!l.length) fail('empty line ' + k);
		if(last ? width > ls+1 : width !== ls && width !== ls+1) fail(`line ${k} is ${width} columns, line size ${ls}`);
		if(width === ls+1 && l[l.length-2] !== 61) fail(`line ${k} exceeds the line size without an escape at its end`);
		if(c0 === 0 && l[0] === 46) fail(`line ${k} starts with '.'`);
		if((c0 === 0 && (l[0] === 9 || l[0] === 32)) || l[l.length-1] === 9 || l[l.length-1] === 32) fail(`line ${k} starts or ends with TAB or SPACE`);
		for(let i=0;i<l.length;i++) if(l[i] === 61) {
			if(++i >= l.length) fail(`line ${k} ends in '='`);
			if(![0,9,10,13,32,46,61].includes((l[i] - 64) & 255)) fail(`'=' followed by ${l[i]}`);
		}
	});
}
add('C02', 'api', 30000, encArgs, (c, ctx) => {
	const ls = c.ls || 128, col = c.col === undefined || c.col === ls ? 0 : c.col;
	const out = y.encode(at(c.data, c.a), ...callArgs(c));
	validEncoding(out, ls, col, c.data.length);
	const dst = room(y.maxSize(c.data.length, c.ls), c.b);
	validEncoding(dst.subarray(0, y.encodeTo(at(c.data, c.a), dst, ...callArgs(c))), ls, col, c.data.length);
	clsEnc(c, ctx, out);
});
// ------------------------------------------------------------------ C03
add('C03', 'api', 25000, encArgs, (c, ctx) => {
	const args = callArgs(c), enc = y.encode(at(c.data, c.a), ...args);
	if(enc.length < c.data.length) fail(`${c.data.length} bytes encoded as ${enc.length}`);
	eqBuf('decode(encode(x))', y.decode(at(enc, c.b)), c.data);
	eqBuf('decode(encode(x), false)', y.decode(enc, false), c.data);
	const ls = c.ls || 128, atStart = !c.col || c.col === ls;
	if(atStart) eqBuf('decode(encode(x), true)', y.decode(at(enc, c.b), true), c.data);
	const dst = room(y.maxSize(c.data.length, c.ls), c.b), n = y.encodeTo(c.data, dst, ...args);
	const back = room(n, c.a), m = y.decodeTo(dst.subarray(0, n), back, false);
	eqBuf('decodeTo(encodeTo(x))', back.subarray(0, m), c.data);
	if(atStart) {
		const m2 = y.decodeTo(dst.subarray(0, n), back, true); eqBuf('decodeTo(encodeTo(x), true)', back.subarray(0, m2), c.data);
		const ch = y.decodeChunk(at(enc, c.a)); eq('ended', ch.ended, false); eqBuf('decodeChunk(encode(x)).output', ch.output.subarray(0, ch.written), c.data);
	}
	const st = dotStuff(enc); if(st.length !== enc.length) ctx.cls('dot-stuffed');
	eqBuf('decode(dot-stuffed encode(x), true)', y.decode(at(st, c.b), true), c.data);
	clsEnc(c, ctx, enc);
});
// ------------------------------------------------------------------ C04
const clsDec = (d, ctx) => {
	const eqs = d.includes(61), dot = d.includes('\r\n.'), ee = d.includes('==');
	if(eqs) ctx.cls("'='"); if(dot) ctx.cls('CRLF.'); if(ee) ctx.cls("'=='"); if(d.includes('\r\n=y')) ctx.cls('CRLF=y'); if(d.includes('\r\n.\r\n')) ctx.cls('CRLF.CRLF'); if(d.length >= 130) ctx.cls('longer than a vector block');
	if(d.length >= 8 && ((eqs && d.includes(13)) || dot || ee)) ctx.nt();
};
add('C04', 'api', 40000, fc.record({d: decDataArb(), raw: fc.constantFrom(undefined, false, true, true), a: alignArb, b: alignArb}), (c, ctx) => {
	const want = decRef(c.d, !!c.raw), args = c.raw === undefined ? [] : [c.raw];
	eqBuf('decode', y.decode(at(c.d, c.a), ...args), want);
	const dst = room(c.d.length + c.b % 3, c.b), n = y.decodeTo(at(c.d, c.a), dst, ...args);
	eq('return value of decodeTo', n, want.length);
	eqBuf('output of decodeTo', dst.subarray(0, n), want);
	clsDec(c.d, ctx);
});
// ------------------------------------------------------------------ C05, C06, C09: decodeChunk
// how a chunk is passed: the ways the documentation allows to give state and output
const FORMS = ['d,s', 'd,s,o', 'd,o,s', 'd,s,in', 'd,in,s', 'd,s,und', 'd,s,null', 'd,null,s', 'd,und,s'], FORMS0 = ['d', 'd,null', 'd,und', 'd,o', 'd,null,o', 'd,und,o', 'd,o,null', 'd,in'];
function callChunk(form, d, state, al) {
	let out = null, args;
	const mk = () => out = room(d.length + al % 5, al);
	switch(form) {
		case 'd': args = [d]; break; case 'd,null': args = [d, null]; break; case 'd,und': args = [d, undefined]; break;
		case 'd,o': args = [d, mk()]; break; case 'd,null,o': args = [d, null, mk()]; break; case 'd,und,o': args = [d, undefined, mk()]; break; case 'd,o,null': args = [d, mk(), null]; break;
		case 'd,in': out = d; args = [d, d]; break;
		case 'd,s': args = [d, state]; break; case 'd,s,o': args = [d, state, mk()]; break; case 'd,o,s': args = [d, mk(), state]; break;
		case 'd,s,in': out = d; args = [d, state, d]; break; case 'd,in,s': out = d; args = [d, d, state]; break;
		case 'd,s,und': args = [d, state, undefined]; break; case 'd,s,null': args = [d, state, null]; break;
		case 'd,null,s': args = [d, null, state]; break; case 'd,und,s': args = [d, undefined, state]; break;
	}
	const len = d.length, tail = out && out !== d ? Buffer.from(out.subarray(len)) : null;
	const r = y.decodeChunk(...args);
	if(!r || typeof r !== 'object') fail('decodeChunk returned no object');
	for(const k of ['read', 'written']) if(!Number.isInteger(r[k]) || r[k] < 0 || r[k] > len) fail(`${k} is ${r[k]} for ${len} bytes`);
	if(typeof r.ended !== 'boolean') fail(`ended is ${typeof r.ended} ${r.ended}`);
	if(typeof r.state !== 'string') fail(`state is ${typeof r.state}`);
	if(!Buffer.isBuffer(r.output)) fail('output is no Buffer');
	if(out) { if(r.output !== out) fail('output is not the Buffer that was supplied'); if(tail) eqBuf('output beyond the input length', out.subarray(len), tail); }
	else eq('length of the allocated output', r.output.length, r.written);
	return r;
}
const chunkPlan = fc.array(fc.record({n: fc.oneof(fc.nat(4), fc.nat(90), fc.nat(300)), f: fc.nat(100), a: alignArb}), {maxLength: 14});
function runChunks(c, checkState) {
	let pos = 0, state = null, outs = [], first = true, k = 0, end = '', lastState = M.CRLF, calls = 0;
	const plan = c.plan.concat([{n: Infinity, f: c.f, a: c.a}]);
	for(const p of plan) {
		if(pos >= c.d.length && k && p.n === Infinity) break;
		const d = at(c.d.subarray(pos, pos + Math.min(p.n, c.d.length - pos)), p.a);
		const forms = first ? FORMS0 : FORMS, form = forms[p.f % forms.length];
		const r = callChunk(form, d, state, p.a); calls++;
		outs.push(Buffer.from(r.output.subarray(0, r.written)));
		if(!r.ended && r.read !== d.length) fail(`read ${r.read} of ${d.length} although the end was not reached`);
		if(checkState) checkState(pos, d.length, r);
		pos += r.read; state = r.state; first = false; k++; lastState = r.state;
		if(r.ended) { end = r.state; break; }
	}
	return {out: Buffer.concat(outs), pos, end, state: lastState, calls};
}
const chunkCase = fc.record({d: decDataArb(), plan: chunkPlan, f: fc.nat(100), a: alignArb});
add('C05', 'chunks', 30000, chunkCase, (c, ctx) => {
	const whole = y.decodeChunk(at(c.d, c.a)), got = runChunks(c);
	eqBuf('output of the chunks', got.out, whole.output.subarray(0, whole.written));
	eq('bytes consumed', got.pos, whole.read); eq('ended', !!got.end, whole.ended); eq('state', got.state, whole.state);
	if(!whole.ended) eqBuf('decode(x, true) against the chunks', got.out, y.decode(c.d, true));
	else { // the state of an ended stream is accepted, too
		const more = y.decodeChunk(Buffer.from('abc'), whole.state); eq('read after an end', more.read, 3);
	}
	if(got.calls > 1) ctx.cls('several calls'); if(whole.ended) ctx.cls('ended'); if(c.plan.some(p => p.n === 0)) ctx.cls('empty chunk');
	clsDec(c.d, got.calls > 1 ? ctx : {cls: ctx.cls, nt(){}});
});
add('C06', 'single', 30000, fc.record({st: fc.constantFrom(null, ...STATES), d: decDataArb(), f: fc.nat(100), a: alignArb, pre: fc.constantFrom('', '', '', 'x', 'ab', 'a line of text', '\r\nabcd', 'alias')}), (c, ctx) => {
	const ref = modelDecode(c.d, true, true, c.st === null ? M.CRLF : c.st);
	const forms = c.st === null ? FORMS0 : FORMS, form = forms[c.f % forms.length];
	// a state may have more text before it; CRLF.= is the same as CRLF=
	let st = c.st; if(c.st !== null && c.d.length && c.pre) st = c.pre !== 'alias' ? c.pre + c.st : c.st === M.CRLFEQ ? '\r\n.=' : c.st; if(st !== c.st) ctx.cls('state with text before it');
	const r = callChunk(form, at(c.d, c.a), st, c.a);
	eq('ended', r.ended, !!ref.end); eq('read', r.read, ref.read); eq('written', r.written, ref.out.length); eq('state', r.state, ref.state);
	eqBuf('output', r.output.subarray(0, r.written), ref.out);
	if(c.st) ctx.cls('with a state'); if(ref.end) ctx.cls('end ' + JSON.stringify(ref.end)); else ctx.cls('final state ' + JSON.stringify(ref.state)); ctx.cls('form ' + form);
	clsDec(c.d, ctx);
});
add('C06', 'stream', 20000, chunkCase, (c, ctx) => {
	const ref = modelDecode(c.d, true, true, M.CRLF);
	const got = runChunks(c, (pos, len, r) => {
		const part = modelDecode(c.d.subarray(0, pos + len), true, true, M.CRLF);
		eq(`state after ${pos+len} bytes`, r.state, part.state); eq(`ended after ${pos+len} bytes`, r.ended, !!part.end); eq(`read of the call at ${pos}`, r.read, part.read - pos);
	});
	eqBuf('output', got.out, ref.out); eq('bytes consumed', got.pos, ref.read); eq('end', got.end, ref.end);
	if(got.calls > 1) ctx.cls('several calls'); if(ref.end) ctx.cls('ended');
	clsDec(c.d, ctx);
});
add('C09', 'api', 30000, fc.record({d: decDataArb(), raw: fc.constantFrom(undefined, false, true, true), st: fc.constantFrom(null, ...STATES), a: alignArb, b: alignArb, v: fc.nat(2)}), (c, ctx) => {
	const args = c.raw === undefined ? [] : [c.raw];
	const sep = room(c.d.length, c.b), n = y.decodeTo(at(c.d, c.a), sep, ...args);
	const buf = at(c.d, c.a), m = y.decodeTo(buf, c.v ? buf : buf.subarray(0), ...args);
	eq('length of the in-situ decoding', m, n); eqBuf('in-situ decoding', buf.subarray(0, m), sep.subarray(0, n));
	const o = room(c.d.length, c.b), r1 = y.decodeChunk(at(c.d, c.a), c.st, o), buf2 = at(c.d, c.a), r2 = c.v === 2 ? y.decodeChunk(buf2, buf2, c.st) : y.decodeChunk(buf2, c.st, buf2);
	for(const k of ['read', 'written', 'ended', 'state']) eq('in-situ ' + k, r2[k], r1[k]);
	if(r2.output !== buf2) fail('output is not the Buffer that was supplied');
	eqBuf('in-situ chunk', buf2.subarray(0, r2.written), o.subarray(0, r1.written));
	clsDec(c.d, ctx);
});
// ------------------------------------------------------------------ C07 (under guard pages and the allocation fence)
const G = env.guard;
const gput = (d, mode) => { const b = G.alloc(d.length, mode); d.copy(b); return b; };
if(G) add('C07', 'guarded', 16000, fc.record({data: fc.oneof({weight: 3, arbitrary: dataArb({big: 3000})}, {weight: 2, arbitrary: fc.tuple(fc.constantFrom(...CRIT.slice(0,4)), fc.nat(700)).map(([b, n]) => Buffer.alloc(n, b))}),
		ls: fc.oneof({weight: 2, arbitrary: fc.integer({min: 1, max: 6})}, {weight: 3, arbitrary: lsArb}), colf: fc.nat(100), m1: fc.nat(1), m2: fc.nat(1)}), (c, ctx) => {
	const col = Math.floor(Math.min(c.ls, 5000) * c.colf / 100), src = gput(c.data, c.m1), size = maxSizeRef(c.data.length, c.ls);
	y.encode(src, c.ls, col); y.encode(src);
	const dst = G.alloc(size, c.m2), n = y.encodeTo(src, dst, c.ls, col);
	if(n > size) fail(`encodeTo returned ${n} for an output of ${size}`);
	if(native.encodeIncr && c.data.length) { native.encodeIncr(src, c.ls, col); native.encodeIncr(src, dst, c.ls, col); }
	y.crc32(src); if(c.data.length % 3 === 0) y.crc32(src, b4(c.data.length));
	if(hasCrit(c.data)) { ctx.cls('critical characters'); if(c.data.length >= 16) ctx.nt(); } if(c.ls <= 6) ctx.cls('short lines'); if(n && n > c.data.length*2) ctx.cls('more than doubled');
});
if(G) add('C07', 'guarded-decode', 16000, fc.record({d: decDataArb(), st: fc.constantFrom(null, ...STATES), raw: fc.boolean(), m1: fc.nat(1), m2: fc.nat(1)}), (c, ctx) => {
	const src = gput(c.d, c.m1);
	y.decode(src, c.raw); y.decodeTo(src, G.alloc(c.d.length, c.m2), c.raw);
	y.decodeChunk(src, c.st); y.decodeChunk(src, c.st, G.alloc(c.d.length, c.m2));
	y.decodeTo(gput(c.d, c.m1), gput(c.d, c.m1), c.raw);
	const b = gput(c.d, c.m1); y.decodeTo(b, b, c.raw); const b2 = gput(c.d, c.m1); y.decodeChunk(b2, c.st, b2);
	y.from_post(Buffer.concat([Buffer.from('=ybegin line=128 size=1 name=x\r\n'), c.d, Buffer.from('\r\n=yend size=1\r\n')]), c.raw);
	clsDec(c.d, ctx);
});
// ------------------------------------------------------------------ C08
const ratioArb = fc.option(fc.oneof(fc.constantFrom(0, 1, 0.5, 0.0158), fc.double({min: 0, max: 1, noNaN: true})), {nil: undefined, freq: 3});
add('C08', 'sizes', 60000, fc.record({len: fc.oneof(fc.nat(70), fc.nat(2000), fc.nat(1e9), fc.nat(2**32), fc.constantFrom(127,128,129,255,256,257,64,63,65)), ls: fc.option(fc.oneof(lsArb, fc.nat(2**31-1)), {nil: undefined, freq: 4}), r: ratioArb, r2: ratioArb, k: fc.nat(300), bad: fc.constantFrom(-1, -0.001, 1.0001, 2, 100, Infinity, -Infinity)}), (c, ctx) => {
	const ls = c.ls === 0 ? 128 : c.ls, a = ls === undefined ? [] : [ls];
	const mx = c.r === undefined ? y.maxSize(c.len, ...a) : y.maxSize(c.len, ls, c.r);
	eq('maxSize', mx, maxSizeRef(c.len, ls, c.r));
	eq('minSize', y.minSize(c.len, ...a), minSizeRef(c.len, ls));
	if(!(y.minSize(c.len, ...a) <= y.maxSize(c.len, ls, 0))) fail('minSize exceeds maxSize');
	if(!(y.maxSize(c.len + c.k, ls, c.r) >= mx)) fail('maxSize is not monotone in the length');
	if(!(y.minSize(c.len + c.k, ls) >= y.minSize(c.len, ls))) fail('minSize is not monotone in the length');
	const ra = c.r === undefined ? 1 : c.r, rb = c.r2 === undefined ? 1 : c.r2;
	if((ra <= rb) !== (y.maxSize(c.len, ls, ra) <= y.maxSize(c.len, ls, rb)) && y.maxSize(c.len, ls, ra) !== y.maxSize(c.len, ls, rb)) fail('maxSize is not monotone in the ratio');
	if(c.len > 0) throws(`maxSize(${c.len}, ${ls}, ${c.bad})`, () => y.maxSize(c.len, ls, c.bad));
	eq('maxSize of nothing', y.maxSize(0, ls), 0); eq('minSize of nothing', y.minSize(0, ls), 0);
	if(c.len > (ls||128)) { ctx.nt(); ctx.cls('several lines'); } if(c.r !== undefined) ctx.cls('with a ratio'); if(c.len && c.len % (ls||128) === 0) ctx.cls('length a multiple of the line size');
});
add('C08', 'bounds', 25000, fc.record({data: nonEmptyData(), ls: lsArb, colf: fc.nat(1000), p: fc.constantFrom(...plainBytes), mult: fc.nat(4), exact: fc.boolean()}), (c, ctx) => {
	const col = Math.floor(Math.min(c.ls, 5000) * c.colf / 1000), len = c.data.length;
	const n = y.encode(c.data, c.ls).length, mn = y.minSize(len, c.ls), mx = y.maxSize(len, c.ls);
	if(n < mn) fail(`encoding of ${len} bytes (line size ${c.ls}) has ${n} bytes, minSize is ${mn}`);
	if(n > mx) fail(`encoding of ${len} bytes (line size ${c.ls}) has ${n} bytes, maxSize is ${mx}`);
	const nc = y.encode(c.data, c.ls, col).length; if(nc > mx) fail(`encoding at column ${col} has ${nc} bytes, maxSize is ${mx}`);
	const plen = c.exact && c.ls <= 2000 ? c.ls * (1 + c.mult) : len;
	eq('size of data without critical characters', y.encode(Buffer.alloc(plen, c.p), c.ls).length, y.minSize(plen, c.ls));
	const w = y.encode(Buffer.alloc(Math.min(len, 600), CRIT[c.mult % 4]), c.ls, col); if(w.length > y.maxSize(Math.min(len, 600), c.ls)) fail('fully escaped data exceeds maxSize');
	if(n > mn) ctx.nt(); if(c.exact) ctx.cls('length a multiple of the line size'); if(col) ctx.cls('column offset');
});
add('C08', 'refusal', 25000, fc.record({data: nonEmptyData(), ls: fc.option(lsArb0, {nil: undefined, freq: 5}), d: fc.integer({min: -3, max: 3}), far: fc.option(fc.nat(1000), {nil: undefined, freq: 4}), a: alignArb, raw: fc.boolean(), st: fc.constantFrom(null, ...STATES), f: fc.boolean()}), (c, ctx) => {
	const attempt = (what, need, f, exact) => {
		let size = need + c.d; if(c.far !== undefined) size = Math.floor(need * c.far / 1000); size = Math.max(0, size);
		const o = room(size, c.a), fresh = Buffer.from(o.buffer.slice(0));
		if(size >= need) { const n = f(o); eqBuf(what + ': memory after the output', Buffer.from(o.buffer).subarray(c.a + size), fresh.subarray(c.a + size)); ctx.cls('accepted'); return; }
		let err; try { f(o); } catch(e) { err = e; }
		if(!(err instanceof Error)) fail(`${what} accepted an output of ${size} bytes, ${need} are needed`);
		eqBuf(what + ': memory after the refusal', Buffer.from(o.buffer), fresh); ctx.cls('refused'); ctx.nt();
	};
	attempt('encodeTo', y.maxSize(c.data.length, c.ls), (o) => y.encodeTo(c.data, o, ...(c.ls === undefined ? [] : [c.ls])));
	attempt('decodeTo', c.data.length, (o) => y.decodeTo(c.data, o, c.raw));
	attempt('decodeChunk', c.data.length, (o) => c.f ? y.decodeChunk(c.data, c.st, o) : y.decodeChunk(c.data, o, c.st));
});
// ------------------------------------------------------------------ C10
const crcData = fc.oneof({weight: 4, arbitrary: dataArb({big: 9000})}, {weight: 1, arbitrary: fc.tuple(fc.nat(2200), fc.constantFrom(0, 255)).map(([n, b]) => Buffer.alloc(n, b))});
const u32 = fc.oneof({weight: 4, arbitrary: fc.integer({min: 0, max: 0xffffffff})}, {weight: 1, arbitrary: fc.constantFrom(0, 1, 0x80000000, 0xffffffff, 0xEDB88320)}, {weight: 1, arbitrary: fc.nat(31).map(k => (1<<k)>>>0)});
add('C10', 'api', 30000, fc.record({d: crcData, init: fc.option(u32, {nil: undefined, freq: 3}), cuts: fc.array(fc.nat(1000), {maxLength: 5}), a: alignArb}), (c, ctx) => {
	const d = at(c.d, c.a), want = crcRef(c.d, c.init);
	eqBuf('crc32', c.init === undefined ? y.crc32(d) : y.crc32(d, b4(c.init)), b4(want));
	if(zlib.crc32) eq('model against zlib', want, zlib.crc32(c.d, c.init || 0));
	let pos = 0, x = c.init === undefined ? null : b4(c.init);
	for(const q of c.cuts.map(k => Math.floor(k * d.length / 1000)).sort((p, r) => p - r).concat([d.length])) { x = x ? y.crc32(d.subarray(pos, q), x) : y.crc32(d.subarray(pos, q)); pos = q; }
	eqBuf('crc32 in pieces', x, b4(want));
	if(c.d.length >= 64) { ctx.nt(); ctx.cls('64 bytes or more'); } if(c.init !== undefined) ctx.cls('initial value'); if(c.cuts.length) ctx.cls('in pieces');
});
// ------------------------------------------------------------------ C11
const MAXN = Number.MAX_SAFE_INTEGER;
const lenArb = fc.oneof(fc.nat(70), fc.nat(1<<20), fc.maxSafeNat(), fc.tuple(fc.nat(53), fc.integer({min: -2, max: 2})).map(([k, d]) => Math.min(MAXN, Math.max(0, 2**k + d))), fc.constantFrom(0x7fffffff, 0x80000000, 0xffffffff, 2**32, 2**32+1, 2**33-1, 2**53-1, 2**53, 0x1fffffff, 0x20000000));
const inv = (n) => xpow(-BigInt(n) * 8n);
add('C11', 'api', 30000, fc.record({a: u32, b: u32, c: u32, n: lenArb, m: lenArb, s: fc.boolean(), d1: dataArb({max: 60, segs: 3}), d2: dataArb({max: 60, segs: 3}), z: fc.nat(3000)}), (c, ctx) => {
	const A = b4(c.a), B = b4(c.b), C = b4(c.c), n = c.n;
	eqBuf('crc32_multiply', y.crc32_multiply(A, B), b4(gmul(c.a, c.b)));
	eqBuf('crc32_multiply the other way round', y.crc32_multiply(B, A), b4(gmul(c.a, c.b)));
	eqBuf('crc32_multiply with the unit', y.crc32_multiply(A, b4(0x80000000)), A);
	eqBuf('crc32_multiply, associativity', y.crc32_multiply(y.crc32_multiply(A, B), C), y.crc32_multiply(A, y.crc32_multiply(B, C)));
	eqBuf(`crc32_combine(a, b, ${n})`, y.crc32_combine(A, B, n), b4(gmul(c.a, xpow(BigInt(n)*8n)) ^ c.b));
	const z = ~gmul(~c.a>>>0, xpow(BigInt(n)*8n)), uz = ~gmul(~c.a>>>0, inv(n));
	eqBuf(`crc32_zeroes(${n}, a)`, y.crc32_zeroes(n, A), b4(z));
	eqBuf(`crc32_zeroes(${-n}, a)`, y.crc32_zeroes(-n, A), b4(n === 0 ? c.a : uz));
	eqBuf('crc32_zeroes there and back', y.crc32_zeroes(-n, y.crc32_zeroes(n, A)), A);
	eqBuf(`crc32_zeroes(${n})`, y.crc32_zeroes(n), b4(~gmul(0xffffffff, xpow(BigInt(n)*8n))));
	const sn = c.s ? -n : n;
	eqBuf(`crc32_shift(${sn}, a)`, y.crc32_shift(sn, A), b4(gmul(c.a, xpow(sn))));
	eqBuf(`crc32_shift(${sn})`, y.crc32_shift(sn), b4(xpow(sn)));
	eqBuf('crc32_shift there and back', y.crc32_shift(-sn, y.crc32_shift(sn, A)), A);
	const both = Buffer.concat([c.d1, c.d2]);
	eqBuf('crc32_combine of two CRCs', y.crc32_combine(y.crc32(c.d1), y.crc32(c.d2), c.d2.length), b4(crcRef(both)));
	eqBuf('crc32_zeroes after data', y.crc32_zeroes(c.z % 200, y.crc32(c.d1)), b4(crcRef(Buffer.concat([c.d1, Buffer.alloc(c.z % 200)]))));
	if(c.a && c.b && n) ctx.nt(); if(n > 2**31) ctx.cls('beyond 2^31'); if(n > 2**32) ctx.cls('beyond 2^32'); if(c.s) ctx.cls('negative shift');
});
// ------------------------------------------------------------------ names, posts
const chr = fc.oneof({weight: 6, arbitrary: fc.integer({min: 32, max: 126}).map(n => String.fromCharCode(n))}, {weight: 2, arbitrary: fc.constantFrom('\r', '\n', '\0', '\r\n', '\t', ' ', '=', '=yend ', '\r\n=yend size=0\r\n', '.', '\x0b', '\x85')},
	{weight: 2, arbitrary: fc.constantFrom('é', 'ß', 'ÿ', '\u010d', '\u010a', '\u0100', '\u0d0a', '日', '€', '😀', '\ud800', '\udc00', '\u2028', '\ufeff', '\u00a0')}, {weight: 1, arbitrary: fc.integer({min: 0, max: 0xffff}).map(n => String.fromCharCode(n))});
const nameArb = fc.oneof({weight: 5, arbitrary: fc.array(chr, {maxLength: 24}).map(a => a.join(''))}, {weight: 1, arbitrary: fc.tuple(fc.array(chr, {minLength: 1, maxLength: 8}), fc.integer({min: 240, max: 270})).map(([a, n]) => { let s = ''; while(s.length < n) s += a.join(''); return s.substring(0, n); })},
	{weight: 1, arbitrary: fc.constantFrom('', 'a.bin', 'name=x', ' lead', 'trail ', 'a b  c.rar', 'line=5 size=9 name=q')});
function cleanName(name, enc) { // as bytes
	let s = ''; for(const ch of name.split('')) if(ch !== '\r' && ch !== '\n' && ch !== '\0') s += ch;
	const b = Buffer.from(s.slice(0, 256), enc); return Buffer.from(Array.from(b).filter(x => x !== 13 && x !== 10 && x !== 0));
}
const encodingArb = fc.constantFrom('utf8', 'utf8', 'utf8', 'latin1', 'binary');
// data in the forms Buffer.from accepts
const postData = fc.oneof({weight: 6, arbitrary: dataArb().map(b => ({k: 'buf', b}))}, {weight: 1, arbitrary: fc.string({maxLength: 60}).map(s => ({k: 'str', s}))}, {weight: 1, arbitrary: dataArb({max: 40}).map(b => ({k: 'arr', b}))}, {weight: 1, arbitrary: dataArb({max: 40}).map(b => ({k: 'u8', b}))}, {weight: 1, arbitrary: dataArb({max: 40}).map(b => ({k: 'ab', b}))}, {weight: 1, arbitrary: dataArb({max: 40}).map(b => ({k: 'json', b}))});
const mkData = (p) => { switch(p.k) { case 'buf': return p.b; case 'str': return p.s; case 'arr': return Array.from(p.b); case 'u8': return new Uint8Array(p.b); case 'ab': return new Uint8Array(p.b).buffer; case 'json': return p.b.toJSON(); } };
const bytesOf = (p) => p.k === 'str' ? Buffer.from(p.s, 'utf8') : p.b;
const postLs = fc.option(fc.oneof(fc.constant(128), fc.integer({min: 1, max: 300}), fc.constantFrom(512, 1000, 0)), {nil: undefined, freq: 4});
function refPost(name, enc, data, ls) {
	return Buffer.concat([Buffer.from(`=ybegin line=${ls} size=${data.length} name=`), cleanName(name, enc), Buffer.from('\r\n'), encRef(data, ls, 0), Buffer.from(`\r\n=yend size=${data.length} crc32=${hex8(crcRef(data))}`)]);
}
function refPart(name, enc, data, ls, part, total, size, pos, crcAll) {
	return Buffer.concat([Buffer.from(`=ybegin part=${part} total=${total} line=${ls} size=${size} name=`), cleanName(name, enc), Buffer.from(`\r\n=ypart begin=${pos+1} end=${pos+data.length}\r\n`), encRef(data, ls, 0),
		Buffer.from(`\r\n=yend size=${data.length} part=${part} pcrc32=${hex8(crcRef(data))}` + (part === total ? ` crc32=${hex8(crcAll)}` : ''))]);
}
add('C12', 'post', 20000, fc.record({name: nameArb, data: postData, ls: postLs, enc: encodingArb}), (c, ctx) => {
	y.encoding = c.enc; const data = bytesOf(c.data), ls = c.ls || 128, want = refPost(c.name, c.enc, data, ls);
	const got = c.ls === undefined ? y.post(c.name, mkData(c.data)) : y.post(c.name, mkData(c.data), c.ls);
	eqBuf('post', got, want);
	const head = got.subarray(0, got.indexOf('\r\n')); if(head.includes(0) || head.includes(10) || head.includes(13)) fail('the header line is broken by the name');
	const enc = c.ls === undefined ? y.multi_post(c.name, data.length, 1) : y.multi_post(c.name, data.length, 1, c.ls);
	eqBuf('one-part multi_post', enc.encode(mkData(c.data)), want);
	if(/[\r\n\0]/.test(c.name)) { ctx.cls('CR, LF or NUL in the name'); ctx.nt(); } if(c.name.length > 256) { ctx.cls('long name'); ctx.nt(); } if(c.enc !== 'utf8') ctx.cls('latin1'); if(/[^\x00-\x7f]/.test(c.name)) { ctx.cls('name beyond ASCII'); ctx.nt(); } if(c.data.k !== 'buf') ctx.cls('data given as ' + c.data.k); if(hasCrit(data)) ctx.nt();
});
const splitCase = fc.record({name: nameArb, parts: fc.array(postData, {minLength: 2, maxLength: 6}), ls: postLs, enc: encodingArb});
add('C12', 'multi', 15000, splitCase, (c, ctx) => {
	y.encoding = c.enc; const bs = c.parts.map(bytesOf), all = Buffer.concat(bs), ls = c.ls || 128, N = bs.length;
	const e = c.ls === undefined ? y.multi_post(c.name, all.length, N) : y.multi_post(c.name, all.length, N, c.ls);
	let pos = 0;
	bs.forEach((b, i) => { const got = e.encode(mkData(c.parts[i])); eqBuf(`part ${i+1} of ${N}`, got, refPart(c.name, c.enc, b, ls, i+1, N, all.length, pos, crcRef(all))); pos += b.length; });
	if(all.length) ctx.nt(); if(bs.some(b => !b.length)) ctx.cls('empty part'); ctx.cls(N + ' parts');
});
// files of any declared size, of which the first parts are encoded
const hugeArb = fc.oneof(fc.integer({min: 0, max: 46}).chain(e => fc.integer({min: -3, max: 3}).map(d => 2**(e+7) + d)), fc.integer({min: 1, max: 14}).map(e => 10**(e+1) - 1), fc.constantFrom(2**53-1, 2**32, 2**31, 2**32-1, 2**31-1));
const manyArb = fc.oneof(fc.integer({min: 2, max: 130}), fc.constantFrom(256, 999, 1000, 32767, 65536, 99999, 10**6, 2**31-1, 2**31, 2**32-1, 2**32+5, 2**40));
add('C12', 'big files', 6000, fc.record({name: nameArb, size: hugeArb, N: manyArb, parts: fc.array(postData, {minLength: 1, maxLength: 4}), many: fc.nat(9), ls: postLs, enc: encodingArb}), (c, ctx) => {
	y.encoding = c.enc; const bs0 = c.parts.map(bytesOf), ls = c.ls || 128; let k = Math.min(c.N - 1, c.many ? bs0.length : 140), pos = 0, acc = Buffer.alloc(0); // not the last part: that one has to complete the file
	const e = c.ls === undefined ? y.multi_post(c.name, c.size, c.N) : y.multi_post(c.name, c.size, c.N, c.ls);
	for(let i=0;i<k;i++) { const j = i % bs0.length, b = i < bs0.length ? bs0[j] : bs0[j].subarray(0, 40); if(pos + b.length > c.size) break; acc = Buffer.concat([acc, b]); const got = e.encode(i < bs0.length ? mkData(c.parts[j]) : b); eqBuf(`part ${i+1} of ${c.N}, file of ${c.size}`, got, refPart(c.name, c.enc, b, ls, i+1, c.N, c.size, pos, crcRef(acc))); pos += b.length; if(i > 8) ctx.cls('ten parts and more'); ctx.nt(); }
	if(c.size >= 2**31) ctx.cls('file of 2 GiB and more'); if(c.N >= 2**31) ctx.cls('2^31 parts and more');
});
add('C12', 'large parts', 0, null, (c, ctx) => { BIGOPS.parts(c); if(global.gc) global.gc(); ctx.nt(); ctx.cls('a part of over 2 GiB'); }, {values: (seed) => [{op: 'parts', k: GB2 + seed % 99991, few: 1, seed}]});
// ------------------------------------------------------------------ C13: histories
// ops: which encoder, and what kind of call
const opArb = fc.record({e: fc.nat(2), kind: fc.constantFrom('fit', 'fit', 'fit', 'rest', 'rest', 'over', 'short', 'zero', 'badtype'), frac: fc.nat(1000), s: L.seed, form: fc.constantFrom('buf', 'buf', 'arr', 'u8')});
add('C13', 'histories', 15000, fc.record({encs: fc.array(fc.record({size: fc.oneof(fc.nat(10), fc.nat(400)), parts: fc.oneof({weight: 1, arbitrary: fc.constant(1)}, {weight: 4, arbitrary: fc.integer({min: 2, max: 5})}), ls: fc.oneof(fc.constant(128), fc.integer({min: 1, max: 60}))}), {minLength: 1, maxLength: 3}), ops: fc.array(opArb, {maxLength: 24})}), (c, ctx) => {
	const E = c.encs.map((s, i) => ({s, enc: y.multi_post('f' + i, s.size, s.parts, s.ls), part: 0, acc: Buffer.alloc(0)}));
	let rejected = 0, recovered = 0, completed = 0;
	const look = (m, what) => {
		eq(what + ': part', m.enc.part, m.part); eq(what + ': pos', m.enc.pos, m.acc.length); eqBuf(what + ': crc', m.enc.crc, b4(crcRef(m.acc)));
		eq(what + ': size', m.enc.size, m.s.size); eq(what + ': parts', m.enc.parts, m.s.parts); eq(what + ': line_size', m.enc.line_size, m.s.ls);
	};
	E.forEach(m => look(m, 'a new encoder'));
	c.ops.forEach((op, k) => {
		const m = E[op.e % E.length], left = m.s.size - m.acc.length; let n;
		switch(op.kind) { case 'fit': n = m.s.parts - m.part <= 1 ? left : Math.floor(left * op.frac / 1000); break; case 'rest': n = left; break; case 'over': n = left + 1 + op.frac % 7; break; case 'short': n = Math.max(0, left - 1 - op.frac % 5); break; case 'zero': n = 0; break; }
		const what = `call ${k} (${op.kind})`;
		if(op.kind === 'badtype') { throws(what, () => m.enc.encode(op.frac & 1 || env.legacy ? undefined : 5)); rejected++; E.forEach(q => look(q, what)); return; }
		const data = expandSeg({t: 'mix', s: op.s, n, d: 60}), arg = op.form === 'arr' ? Array.from(data) : op.form === 'u8' ? new Uint8Array(data) : data;
		const ok = m.part < m.s.parts && n <= left && (m.part + 1 < m.s.parts || n === left);
		if(!ok) { throws(what + ` of ${n} bytes with ${left} left, part ${m.part} of ${m.s.parts}`, () => m.enc.encode(arg)); rejected++; m.rej = true; }
		else {
			let out; try { out = m.enc.encode(arg); } catch(e) { fail(`${what} of ${n} bytes with ${left} left, part ${m.part} of ${m.s.parts} threw ${e}`); }
			if(m.rej) recovered++;
			const pos = m.acc.length; m.acc = Buffer.concat([m.acc, data]); m.part++; if(m.part === m.s.parts) completed++;
			eqBuf(what + ': article', out, m.s.parts === 1 ? refPost('f' + E.indexOf(m), 'utf8', data, m.s.ls) : refPart('f' + E.indexOf(m), 'utf8', data, m.s.ls, m.part, m.s.parts, m.s.size, pos, crcRef(m.acc)));
		}
		E.forEach(q => look(q, what));
	});
	if(rejected) ctx.cls('rejected call'); if(recovered) { ctx.cls('accepted after a rejection'); ctx.nt(); } if(completed) { ctx.cls('completed file'); if(c.ops.length > 2) ctx.nt(); } if(E.length > 1) ctx.cls('several encoders');
});
// ------------------------------------------------------------------ C14
const crlf = Buffer.from('\r\n');
const prefixArb = fc.array(fc.array(fc.constantFrom('a', 'b', '.', '=y', ' ', '=', 'ybegin ', '\r', '\n', ': ', 'x-'), {maxLength: 6}).map(a => a.join('')), {maxLength: 3}).map(a => a.length ? a.join('\r\n') + '\r\n' : '').filter(s => !('\r\n' + s).includes('\r\n=ybegin '));
const suffixArb = fc.constantFrom('', '\r\n', '\r\n', '\r\n.\r\n', '\r\nsignature\r\n', '\r\n\r\n');
const decodeName = (name, enc) => cleanName(name, enc).toString(enc).trimEnd();
function checkReadBack(what, post, c, data, props, codes, ctx) {
	const pre = Buffer.from(c.pre, 'latin1'), suf = Buffer.from(c.suf, 'latin1');
	let whole = Buffer.concat([pre, post, suf]); if(c.dots) { const w = dotStuff(whole); if(w.length !== whole.length) ctx.cls('dot-stuffed'); whole = w; }
	const raw = c.dots ? true : c.raw; // an article that contains no dot at a line start reads the same with stripDots
	const r = raw === undefined ? y.from_post(whole) : y.from_post(whole, raw);
	if(r instanceof Error) fail(`${what}: from_post gives ${r.code}`);
	eqBuf(what + ': data', r.data, data); eqBuf(what + ': crc32', r.crc32, b4(crcRef(data)));
	const got = JSON.stringify(r.props, Object.keys(r.props).sort()), flat = (p) => JSON.stringify(Object.keys(p).sort().map(t => [t, Object.keys(p[t]).sort().map(k => [k, p[t][k]])]));
	if(flat(r.props) !== flat(props)) fail(`${what}: props are ${flat(r.props)}, expected ${flat(props)}`);
	const ws = (r.warnings || []).map(w => w.code); const wantW = c.suf === '' ? ['missing_yend_newline'] : [];
	if(JSON.stringify(ws) !== JSON.stringify(wantW)) fail(`${what}: warnings ${JSON.stringify(ws)}, expected ${JSON.stringify(wantW)}`);
	// offsets, recomputed from the article
	const start = whole.subarray(0, 8).toString('latin1') === '=ybegin ' ? 0 : whole.indexOf('\r\n=ybegin ') + 2; let ds = whole.indexOf('\r\n', start) + 2; if(props.part) ds = whole.indexOf('\r\n', ds) + 2;
	const de = whole.lastIndexOf('\r\n=yend '); let ye = whole.indexOf('\r\n', de + 2); ye = ye < 0 ? whole.length : ye + 2;
	eq(what + ': yencStart', r.yencStart, start); eq(what + ': dataStart', r.dataStart, ds); eq(what + ': dataEnd', r.dataEnd, de); eq(what + ': yencEnd', r.yencEnd, ye);
}
const readBack = {pre: prefixArb, suf: suffixArb, dots: fc.boolean(), raw: fc.constantFrom(undefined, false, true)};
add('C14', 'single', 15000, fc.record(Object.assign({name: nameArb, data: postData, ls: postLs, enc: encodingArb}, readBack)), (c, ctx) => {
	y.encoding = c.enc; const data = bytesOf(c.data), ls = c.ls || 128;
	const post = y.post(c.name, mkData(c.data), ls);
	checkReadBack('post', post, c, data, {begin: {line: String(ls), size: String(data.length), name: decodeName(c.name, c.enc)}, end: {size: String(data.length), crc32: hex8(crcRef(data))}}, null, ctx);
	if(data.length && c.name.length) ctx.nt(); if(c.pre) ctx.cls('text before'); if(c.suf.length > 2) ctx.cls('text after'); if(c.enc !== 'utf8') ctx.cls('latin1'); if(!data.length) ctx.cls('no data');
});
add('C14', 'multi', 10000, fc.record(Object.assign({name: nameArb, parts: fc.array(dataArb({max: 80}), {minLength: 2, maxLength: 5}), ls: postLs, enc: encodingArb}, readBack)), (c, ctx) => {
	y.encoding = c.enc; const bs = c.parts.filter((b, i) => b.length); if(bs.length < 2) return; // a part holds at least a byte (its range could not be written otherwise)
	const all = Buffer.concat(bs), ls = c.ls || 128, N = bs.length, e = y.multi_post(c.name, all.length, N, c.ls); let pos = 0;
	bs.forEach((b, i) => {
		const end = {size: String(b.length), part: String(i+1), pcrc32: hex8(crcRef(b))}; if(i === N-1) end.crc32 = hex8(crcRef(all));
		checkReadBack(`part ${i+1} of ${N}`, e.encode(b), c, b, {begin: {part: String(i+1), total: String(N), line: String(ls), size: String(all.length), name: decodeName(c.name, c.enc)}, part: {begin: String(pos+1), end: String(pos+b.length)}, end}, null, ctx);
		pos += b.length;
	});
	ctx.nt(); ctx.cls(N + ' parts');
});
// ------------------------------------------------------------------ C15, C16: a model of from_post
// splits the text of a header line: tag and properties, in the order written
function modelLine(text) {
	let rest = text.slice(2); const sp = rest.indexOf(' '), tag = sp < 0 ? rest : rest.slice(0, sp); rest = rest.slice(tag.length + 1).trim();
	const props = [], codes = [], isName = (ch) => ch >= 'a' && ch <= 'z' || ch === '_', isNum = (ch) => ch >= '0' && ch <= '9';
	for(;;) {
		let from = -1, eqp = -1;
		for(let p = rest.indexOf('='); p >= 0; p = rest.indexOf('=', p+1)) { // the first '=' with a name before it
			let q = p; while(q > 0 && (isName(rest[q-1]) || isNum(rest[q-1]))) q--;
			while(q < p && isNum(rest[q])) q++;
			if(q < p) { from = q; eqp = p; break; }
		}
		if(from < 0) break;
		if(from > 0) codes.push('ignored_line_data');
		const key = rest.slice(from, eqp); let end = tag === 'begin' && key === 'name' ? rest.length : rest.indexOf(' ', eqp+1); if(end < 0) end = rest.length;
		const old = props.findIndex(x => x[0] === key); if(old >= 0) { codes.push('duplicate_property'); props[old][1] = rest.slice(eqp+1, end); } else props.push([key, rest.slice(eqp+1, end)]);
		rest = rest.slice(end+1);
	}
	if(rest !== '') codes.push('ignored_line_data');
	return {tag, props: new Map(props), codes};
}
function modelPost(b, raw, enc) {
	let start = 0;
	if(b.subarray(0, 8).toString('latin1') !== '=ybegin ') { start = b.indexOf('\r\n=ybegin ', 0, 'latin1'); if(start < 0) return {error: 'no_start_found'}; start += 2; }
	const lines = new Map(), codes = []; let pos = start, dataStart, dataEnd, yencEnd;
	const addLine = (text) => { const l = modelLine(text); codes.push(...l.codes); if(lines.has(l.tag)) codes.push('duplicate_line'); lines.set(l.tag, l.props); };
	for(let first = true;; first = false) {
		const e = b.indexOf('\r\n', first ? pos + 8 : pos, 'latin1'); if(e < 0) return {error: 'no_end_found'};
		const text = b.subarray(pos, e).toString(enc).trim(); addLine(text); pos = e + 2;
		if(text.startsWith('=yend ')) { yencEnd = pos; break; }
		if(b[pos] !== 61 || b[pos+1] !== 121) { dataStart = pos; break; }
	}
	if(yencEnd === undefined) {
		const tail = b.subarray(dataStart), e = tail.lastIndexOf('\r\n=yend ', undefined, 'latin1'); if(e < 0) return {error: 'no_end_found'};
		dataEnd = dataStart + e; let q = b.indexOf('\r\n', dataEnd + 8, 'latin1');
		if(q < 0) { codes.push('missing_yend_newline'); q = yencEnd = b.length; } else yencEnd = q + 2;
		addLine(b.subarray(dataEnd + 2, q).toString(enc).trim());
	}
	const get = (t, k) => { const l = lines.get(t); return l && l.get(k) || undefined; }; // '' counts as absent
	const has = (t, k) => lines.has(t) && lines.get(t).has(k);
	const R = {start, dataStart, dataEnd, yencEnd, lines, codes};
	if(!get('begin', 'line') || !get('begin', 'size') || !has('begin', 'name') || !get('end', 'size')) return Object.assign(R, {error: 'missing_required_properties'});
	const data = dataStart === undefined ? null : decRef(b.subarray(dataStart, dataEnd), raw); R.data = data;
	const W = (code, cond) => { if(cond) codes.push(code); return !!cond; };
	for(const [t, ks] of [['begin', ['line', 'total', 'part', 'size']], ['part', ['begin', 'end']], ['end', ['size', 'part']]]) for(const k of ks) {
		const v = get(t, k); if(v === undefined) continue;
		W('invalid_prop_' + k, !/^[0-9]+$/.test(v)) || W('zero_prop_' + k, v === '0' && k !== 'size');
	}
	const bp = get('begin', 'part'), ep = get('end', 'part'), tot = get('begin', 'total'), bs = get('begin', 'size'), es = get('end', 'size'), pb = get('part', 'begin'), pe = get('part', 'end');
	W('part_number_mismatch', bp && ep && bp !== ep) || W('part_number_exceeds_total', tot && ((bp && +tot < +bp) || (ep && +tot < +ep)));
	if(pb && pe) W('invalid_part_range', +pb > +pe) || W('size_mismatch_part_range', +es !== +pe - +pb + 1) || W('part_range_exceeds_size', +pe > +bs);
	else W('missing_part_range', +tot > 1 || +bp > 1 || +ep > 1);
	const pcrc = get('end', 'pcrc32'), crc = get('end', 'crc32');
	for(const [k, v] of [['pcrc32', pcrc], ['crc32', crc]]) W('invalid_prop_' + k, v && !/^[0-9a-fA-F]{8}$/.test(v));
	W('size_mismatch', !bp && bs !== es) || W('size_mismatch', +bs < +es);
	const h = hex8(crcRef(data || Buffer.alloc(0)));
	W('data_size_mismatch', +es !== (data ? data.length : 0));
	W('pcrc32_mismatch', pcrc && pcrc.toLowerCase() !== h);
	W('crc32_mismatch', crc && !lines.has('part') && crc.toLowerCase() !== h);
	return R;
}
// headers from a grammar
const numArb = fc.oneof({weight: 5, arbitrary: fc.nat(12).map(String)}, {weight: 2, arbitrary: fc.nat(500).map(String)}, {weight: 2, arbitrary: fc.constantFrom('0', '128', '', '00', '01', '-1', '1.5', '1e2', '0x10', 'abc', '99999999999999999999', '１', '\t5', 'Infinity', '+1')});
const keyArb = fc.oneof({weight: 6, arbitrary: fc.constantFrom('line', 'size', 'name', 'part', 'total', 'begin', 'end', 'pcrc32', 'crc32')}, {weight: 2, arbitrary: fc.constantFrom('constructor', '__proto__', 'tostring', 'hasownproperty', 'valueof', '_', 'a1', '__defineGetter__', 'x', 'prototype', 'length')}, {weight: 1, arbitrary: fc.constantFrom('Line', '1size', 'a-b', '', '=', 'é')});
const valArb = fc.oneof({weight: 4, arbitrary: numArb}, {weight: 2, arbitrary: fc.constantFrom('00000000', 'deadbeef', 'DEADBEEF', '0000000', 'zzzzzzzz', 'x=y', '=', '==')}, {weight: 1, arbitrary: fc.array(chr, {maxLength: 5}).map(a => a.join(''))});
const propArb = fc.tuple(keyArb, valArb, fc.constantFrom(' ', ' ', ' ', '  ', '\t', '')).map(([k, v, s]) => k + '=' + v + s);
const junkArb = fc.constantFrom('junk ', 'a ', '= ', '- ', 'é ', '  ', '\t', '.. ');
const tagArb = fc.oneof({weight: 5, arbitrary: fc.constantFrom('begin', 'part', 'end')}, {weight: 2, arbitrary: fc.constantFrom('constructor', '__proto__', 'toString', 'x', '', 'BEGIN', 'beginx', 'foo-bar', 'prototype', 'hasOwnProperty')});
const bodyArb = fc.array(fc.oneof({weight: 5, arbitrary: propArb}, {weight: 1, arbitrary: junkArb}), {maxLength: 7}).map(a => a.join(''));
const headArb = fc.tuple(fc.oneof({weight: 6, arbitrary: fc.tuple(numArb, numArb, fc.boolean()).map(([l, s, n]) => `line=${l} size=${s} ` + (n ? 'name=f.bin' : ''))}, {weight: 2, arbitrary: bodyArb}), bodyArb, fc.boolean()).map(([a, b, s]) => '=ybegin ' + (s ? b + a : a + b));
const extraLine = fc.tuple(tagArb, bodyArb).map(([t, b]) => '=y' + t + ' ' + b);
const endArb = fc.tuple(fc.option(numArb, {nil: undefined, freq: 8}), bodyArb).map(([s, b]) => '=yend ' + (s === undefined ? '' : `size=${s} `) + b);
const payload = fc.oneof({weight: 3, arbitrary: dataArb({max: 20, segs: 2}).map(d => encRef(d, 128, 0))}, {weight: 1, arbitrary: decDataArb({max: 20, segs: 4})});
const grammarPost = fc.tuple(fc.constantFrom('', '', '', 'x\r\n', '\r\n', '=ybegin x', 'a\r\n=ybegi', '.'), headArb, fc.array(extraLine, {maxLength: 2}), fc.option(payload, {nil: undefined, freq: 8}), endArb, fc.constantFrom('\r\n', '\r\n', '', '\r\n.\r\n', '\r', '\r\n=yend size=5 x=1'))
	.map(([pre, h, ex, d, e, suf]) => Buffer.concat([Buffer.from(pre), Buffer.from([h].concat(ex).join('\r\n') + '\r\n'), ...(d === undefined ? [Buffer.from(e)] : [d, Buffer.from('\r\n' + e)]), Buffer.from(suf)]));
const mutArb = fc.array(fc.tuple(fc.constantFrom('del', 'ins', 'set', 'dup', 'cut'), fc.nat(1000), fc.nat(1000), fc.constantFrom('\r\n', '=y', '=yend ', '\r\n=yend ', '=ybegin ', '\r\n=ybegin ', ' ', '=', '\0', 'size=', 'name=', '.')), {maxLength: 4});
function mutate(b, ms) { for(const [k, p, q, s] of ms) { const i = Math.floor(p * b.length / 1000), j = Math.min(b.length, i + 1 + q % 12); if(k === 'del') b = Buffer.concat([b.subarray(0,i), b.subarray(j)]); else if(k === 'ins') b = Buffer.concat([b.subarray(0,i), Buffer.from(s), b.subarray(i)]); else if(k === 'set' && i < b.length) { b = Buffer.from(b); b[i] = q & 255; } else if(k === 'dup') b = Buffer.concat([b.subarray(0,j), b.subarray(i)]); else if(k === 'cut') b = b.subarray(0, i); } return b; }
const anyPost = fc.oneof({weight: 6, arbitrary: grammarPost}, {weight: 4, arbitrary: fc.tuple(grammarPost, mutArb).map(([b, m]) => mutate(b, m))}, {weight: 1, arbitrary: decDataArb()}, {weight: 1, arbitrary: dataArb()}, {weight: 1, arbitrary: fc.array(fc.constantFrom('\r\n', '=y', '=yend ', '=ybegin ', 'line=1 ', 'size=1 ', 'name=a', ' ', 'x', '=', 'part=1 '), {maxLength: 14}).map(a => Buffer.from(a.join('')))});
const fromPost = (b, raw) => { let r; try { r = raw === undefined ? y.from_post(b) : y.from_post(b, raw); } catch(e) { fail('from_post threw ' + (e && e.stack || e)); } return r; };
add('C15', 'model', 40000, fc.record({b: anyPost, raw: fc.constantFrom(undefined, false, true), enc: fc.constantFrom('utf8', 'utf8', 'latin1')}), (c, ctx) => {
	y.encoding = c.enc; const m = modelPost(c.b, !!c.raw, c.enc), r = fromPost(c.b, c.raw);
	if(m.error) { if(!(r instanceof Error)) fail(`from_post gives a result, expected the error ${m.error}`); eq('error code', r.code, m.error); ctx.cls(m.error); if(m.error === 'missing_required_properties') ctx.nt(); return; }
	if(r instanceof Error) fail(`from_post gives the error ${r.code}: ${r.message}`);
	if(!r || typeof r !== 'object') fail('from_post returned no object');
	ctx.nt(); ctx.cls(m.data ? 'decoded' : 'decoded, no data line');
	eq('yencStart', r.yencStart, m.start); eq('yencEnd', r.yencEnd, m.yencEnd);
	if(!(r.yencStart >= 0 && r.yencStart < r.yencEnd && r.yencEnd <= c.b.length)) fail('offsets out of order');
	if(m.data) {
		eq('dataStart', r.dataStart, m.dataStart); eq('dataEnd', r.dataEnd, m.dataEnd);
		if(!(r.yencStart < r.dataStart && r.dataStart <= r.dataEnd && r.dataEnd < r.yencEnd)) fail('offsets out of order');
		eqBuf('data', r.data, m.data); eqBuf('crc32', r.crc32, b4(crcRef(m.data)));
		eqBuf('data against decode()', r.data, y.decode(c.b.subarray(r.dataStart, r.dataEnd), !!c.raw));
	}
	const tags = Object.getOwnPropertyNames(r.props).sort(), want = Array.from(m.lines.keys()).sort();
	eq('tags', JSON.stringify(tags), JSON.stringify(want));
	for(const t of tags) {
		const o = Object.getOwnPropertyDescriptor(r.props, t).value, w = m.lines.get(t);
		eq(`properties of ${t}`, JSON.stringify(Object.getOwnPropertyNames(o).sort()), JSON.stringify(Array.from(w.keys()).sort()));
		for(const k of w.keys()) { const d = Object.getOwnPropertyDescriptor(o, k); if(!d || !d.enumerable) fail(`${t}.${k} is not an enumerable property`); eq(`${t}.${k}`, d.value, w.get(k)); }
		if(['constructor', '__proto__', 'toString', 'hasOwnProperty', 'prototype'].includes(t)) ctx.cls('hostile tag');
	}
	(r.warnings || []).forEach(w => { if(typeof w.code !== 'string' || typeof w.message !== 'string') fail('a warning lacks code or message'); });
});
// ------------------------------------------------------------------ C16
const codesOf = (r) => (r.warnings || []).map(w => w.code).sort();
const REL = (c) => !['ignored_line_data', 'duplicate_property', 'duplicate_line', 'missing_yend_newline'].includes(c);
add('C16', 'model', 30000, fc.record({b: anyPost, raw: fc.boolean()}), (c, ctx) => {
	const m = modelPost(c.b, c.raw, 'utf8'), r = fromPost(c.b, c.raw);
	if(m.error) { if(!(r instanceof Error)) fail(`no error, expected ${m.error}`); return; }
	if(r instanceof Error) fail('error ' + r.code);
	const want = m.codes.filter(REL).sort(), got = codesOf(r).filter(REL); eq('warning codes', JSON.stringify(got), JSON.stringify(want));
	const other = (q) => JSON.stringify(Array.from(new Set(q.filter(k => !REL(k)))).sort()); eq('codes for ignored data and missing line ends', other(codesOf(r)), other(m.codes));
	for(const k of new Set(m.codes)) ctx.cls(k); if(!want.length) ctx.cls('no warning'); ctx.nt();
});
// consistent single or multi-part headers, of which any number of values is then made wrong
const fieldArb = fc.record({f: fc.constantFrom('bsize', 'esize', 'bpart', 'epart', 'total', 'pbegin', 'pend', 'pcrc', 'crc', 'line'), w: fc.constantFrom('+1', '-1', 'x', '0', 'drop', 'upper', '10x', 'huge')});
add('C16', 'consistency', 30000, fc.record({d: dataArb({max: 30, segs: 3}), multi: fc.boolean(), part: fc.integer({min: 1, max: 4}), total: fc.integer({min: 1, max: 4}), before: fc.nat(300), after: fc.nat(300), hasCrc: fc.boolean(), hasP: fc.boolean(), wrong: fc.array(fieldArb, {maxLength: 3}), raw: fc.boolean(), empty: fc.nat(9)}), (c, ctx) => {
	const V = {}, total = Math.max(c.part, c.total), size = c.multi ? c.before + c.d.length + c.after : c.d.length, h = hex8(crcRef(c.d));
	V.line = '128'; V.bsize = String(size); V.esize = String(c.d.length); if(c.multi) { V.bpart = V.epart = String(c.part); V.total = String(total); V.pbegin = String(c.before+1); V.pend = String(c.before + c.d.length); }
	if(c.hasP || c.multi) V.pcrc = h; if(c.hasCrc) V.crc = c.multi ? hex8(crcRef(Buffer.concat([Buffer.alloc(c.before), c.d]))) : h;
	for(const {f, w} of c.wrong) { const v = V[f]; if(v === undefined) continue; switch(w) {
		case '+1': V[f] = f === 'pcrc' || f === 'crc' ? hex8(parseInt(v, 16) ^ 1) : String(+v + 1); break; case '-1': V[f] = f === 'pcrc' || f === 'crc' ? hex8(parseInt(v, 16) ^ 0x80000000) : String(Math.max(0, +v - 1)); break;
		case 'x': V[f] = v + 'x'; break; case '0': V[f] = '0'; break; case 'drop': delete V[f]; break; case 'upper': V[f] = v.toUpperCase(); break; case '10x': V[f] = v + '0'; break; case 'huge': V[f] = '4294967296'; break; } }
	const p = (k, n) => V[k] === undefined ? '' : ` ${n}=${V[k]}`;
	const head = '=ybegin' + p('bpart', 'part') + p('total', 'total') + p('line', 'line') + p('bsize', 'size') + ' name=a b.bin\r\n' + (V.pbegin !== undefined || V.pend !== undefined ? '=ypart' + p('pbegin', 'begin') + p('pend', 'end') + '\r\n' : '');
	const tail = '=yend' + p('esize', 'size') + p('epart', 'part') + p('pcrc', 'pcrc32') + p('crc', 'crc32') + '\r\n';
	const b = Buffer.concat([Buffer.from(head), ...(c.d.length || c.empty ? [encRef(c.d, 128, 0), Buffer.from('\r\n')] : []), Buffer.from(tail)]);
	if(!tail.startsWith('=yend ')) return;
	const m = modelPost(b, c.raw, 'utf8'), r = fromPost(b, c.raw);
	if(m.error) { if(!(r instanceof Error)) fail(`no error, expected ${m.error}`); eq('error', r.code, m.error); return; }
	if(r instanceof Error) fail('error ' + r.code);
	eq('warning codes', JSON.stringify(codesOf(r)), JSON.stringify(m.codes.slice().sort()));
	if(!c.wrong.length && c.d.length && r.warnings) fail('a consistent post gives ' + JSON.stringify(r.warnings));
	for(const k of new Set(m.codes)) ctx.cls(k); if(c.wrong.length) ctx.nt(); else ctx.cls('consistent');
});
const MISMATCH = ['data_size_mismatch', 'pcrc32_mismatch', 'crc32_mismatch'];
add('C16', 'corruption', 25000, fc.record({data: nonEmptyData({max: 60}), ls: fc.constantFrom(128, 128, 20, 1), parts: fc.integer({min: 1, max: 3}), which: fc.nat(2), muts: mutArb.filter(a => a.length > 0), flips: fc.array(fc.tuple(fc.nat(1000), fc.nat(7)), {maxLength: 2}), raw: fc.boolean(), nl: fc.boolean()}), (c, ctx) => {
	const cutAt = (i) => Math.floor(c.data.length * i / c.parts), N = c.parts; let post, orig;
	if(N === 1) { post = y.post('f', c.data, c.ls); orig = c.data; }
	else { const e = y.multi_post('f', c.data.length, N, c.ls); for(let i=0;i<N;i++) { const d = c.data.subarray(cutAt(i), cutAt(i+1)), o = e.encode(d); if(i === c.which % N) { post = o; orig = d; } } }
	if(c.nl) post = Buffer.concat([post, crlf]);
	let ds = post.indexOf('\r\n') + 2; if(N > 1) ds = post.indexOf('\r\n', ds) + 2; const de = post.lastIndexOf('\r\n=yend ');
	if(!orig.length) return; // (the range of an empty part is reported as wrong in itself)
	const clean = fromPost(post, c.raw); if(clean instanceof Error) fail('intact post: ' + clean.code); if(codesOf(clean).some(REL)) fail('intact post: ' + codesOf(clean)); eqBuf('intact post: data', clean.data, orig);
	let pay = mutate(Buffer.from(post.subarray(ds, de)), c.muts); for(const [p, k] of c.flips) if(pay.length) pay[Math.floor(p * pay.length / 1001)] ^= 1 << k;
	const bad = Buffer.concat([post.subarray(0, ds), pay, post.subarray(de)]), r = fromPost(bad, c.raw);
	if(r instanceof Error) { ctx.cls('error'); return; }
	const got = r.data || Buffer.alloc(0); if(got.equals(orig)) { ctx.cls('same data'); if(codesOf(r).some(k => MISMATCH.includes(k))) fail('same data, yet ' + codesOf(r)); return; }
	ctx.nt(); ctx.cls('data altered'); if(got.length === orig.length) { ctx.cls('same length'); if(crcRef(got) === crcRef(orig)) return; }
	if(!codesOf(r).some(k => MISMATCH.includes(k))) fail('altered data is not reported: ' + JSON.stringify(codesOf(r)));
	if(got.length === orig.length && !codesOf(r).some(k => k !== 'data_size_mismatch' && MISMATCH.includes(k))) fail('a changed CRC is not reported');
});
// ------------------------------------------------------------------ C19
// any call of the API on small inputs; returns the Buffers it gives back
const callArb = fc.record({f: fc.constantFrom('encode', 'encodeTo', 'decode', 'decodeTo', 'decodeChunk', 'decodeChunkO', 'crc32', 'crc32i', 'combine', 'zeroes', 'multiply', 'shift', 'post', 'multi', 'from_post', 'incr', 'empty'), d: dataArb({max: 60, segs: 4}), ls: fc.oneof(fc.constant(128), fc.integer({min: 1, max: 100})), u: u32, v: u32, a: alignArb, x: fc.nat(60)});
function apiCall(c, check) {
	const d = at(c.d, c.a), U = b4(c.u), V = b4(c.v), ins = [d, U, V], snap = ins.map(b => Buffer.from(b.buffer.slice(0))); let outs = [], o, lim, res;
	const outBuf = (n) => { lim = n; o = room(n + c.x, c.a); };
	switch(c.f) {
		case 'encode': outs = [y.encode(d, c.ls)]; break; case 'decode': outs = [y.decode(d, !!(c.x & 1))]; break;
		case 'encodeTo': outBuf(y.maxSize(d.length, c.ls)); y.encodeTo(d, o, c.ls); break; case 'decodeTo': outBuf(d.length); y.decodeTo(d, o, !!(c.x & 1)); break;
		case 'decodeChunk': outs = [y.decodeChunk(d, STATES[c.x % 7]).output]; break; case 'decodeChunkO': outBuf(d.length); y.decodeChunk(d, STATES[c.x % 7], o); break;
		case 'crc32': outs = [y.crc32(d)]; break; case 'crc32i': outs = [y.crc32(d, U)]; break; case 'combine': outs = [y.crc32_combine(U, V, c.x)]; break; case 'zeroes': outs = [y.crc32_zeroes(c.x - 30, U)]; break;
		case 'multiply': outs = [y.crc32_multiply(U, V)]; break; case 'shift': outs = [y.crc32_shift(c.x - 30, U)]; break;
		case 'post': outs = [y.post('n', d, c.ls)]; break; case 'multi': { const e = y.multi_post('n', d.length + 3, 2, c.ls); outs = [e.encode(d), e.crc, e.encode(Buffer.from('xyz')), e.crc]; break; }
		case 'from_post': { const p = refPost('n', 'utf8', d, c.ls); ins.push(p); snap.push(Buffer.from(p.buffer.slice(0))); const r = y.from_post(p, !!(c.x & 1)); outs = r.data ? [r.data, r.crc32] : []; break; }
		case 'incr': if(native.encodeIncr) { const r = native.encodeIncr(d, c.ls, c.x % (c.ls+1)); outs = r.output ? [r.output] : []; } break;
		case 'empty': outs = [y.encode(d.subarray(0,0)), y.decode(d.subarray(0,0)), y.decodeChunk(d.subarray(0,0)).output]; break;
	}
	if(check) {
		ins.forEach((b, i) => eqBuf(`${c.f}: an input (and the memory around it)`, Buffer.from(b.buffer), snap[i]));
		if(o) { allEq(`${c.f}: output beyond the documented area`, o, 0xA5, lim, o.length); const all = Buffer.from(o.buffer); allEq(`${c.f}: memory before the output`, all, 0xA5, 0, c.a); allEq(`${c.f}: memory beyond the output`, all, 0xA5, c.a + o.length, all.length); }
	}
	return {outs: outs.filter(b => b.length), ins, o};
}
add('C19', 'histories', 5000, fc.array(callArb, {minLength: 1, maxLength: 24}), (ops, ctx) => {
	const kept = []; 
	ops.forEach((op, k) => {
		const r = apiCall(op, true);
		const key = (b) => [b.buffer, b.byteOffset, b.byteOffset + b.length];
		for(const b of r.outs) {
			const [ab, s, e] = key(b);
			for(const i of r.ins) if(i.buffer === ab && s < i.byteOffset + i.length && i.byteOffset < e) fail(`${op.f}: the result shares memory with an input`);
			for(const q of kept) { const [qa, qs, qe] = key(q.b); if(qa === ab && s < qe && qs < e) fail(`${op.f}: the result shares memory with an earlier result`); }
			kept.push({b, snap: Buffer.from(b), f: op.f});
		}
		// what the caller does with its inputs and outputs afterwards must not reach the results
		for(const i of r.ins) i.fill(0xEE); if(r.o) r.o.fill(0x11);
		if(k % 5 === 4 && global.gc) global.gc({type: 'minor'});
		for(const q of kept) if(!q.b.equals(q.snap)) fail(`the result of an earlier ${q.f} changed during ${op.f}`);
	});
	// writing to one result must not change another
	for(const q of kept) { q.b.fill(0x77); q.snap.fill(0x77); for(const p of kept) if(!p.b.equals(p.snap)) fail(`writing to the result of ${q.f} changed that of ${p.f}`); }
	if(ops.length > 3) ctx.nt(); for(const o of ops) ctx.cls(o.f);
});
// Repeating calls must not accumulate memory. Exact for what the addon allocates (counted by fence.so), after Node had turns to free Buffers.
const settle = async () => { for(let i=0;i<3;i++) { global.gc(); await new Promise(r => setImmediate(r)); } };
const refused = [(d, U) => y.encode(d, -1), (d, U) => y.encodeTo(d, d), (d, U) => y.decodeTo(d, U), (d, U) => y.decodeChunk(d, U), (d, U) => y.encode(d, 5, 6), (d, U) => y.crc32(d, d), (d, U) => y.crc32_combine(d, U, 5), (d, U) => y.from_post(d), (d, U) => y.encode(), (d, U) => y.crc32_multiply(U, d), (d, U) => native.encodeIncr && native.encodeIncr(d, U, 128, 0), (d, U) => y.post('x', d, -5)];
if(G) add('C19', 'leaks', 240, fc.record({ops: fc.array(callArb, {minLength: 1, maxLength: 6}), bad: fc.array(fc.nat(refused.length-1), {maxLength: 3}), reps: fc.integer({min: 20, max: 60})}), async (c, ctx) => {
	await settle(); const before = G.live(); const U = b4(7);
	for(let k=0;k<c.reps;k++) {
		for(const op of c.ops) apiCall(op, false);
		for(const b of c.bad) { try { refused[b](Buffer.alloc(600, 65), U); } catch(e) {} }
		if(k % 20 === 19) await new Promise(r => setImmediate(r));
	}
	let left; for(let i=0;i<25;i++) { await settle(); left = G.live() - before; if(left <= 0) break; }
	if(left >= c.reps) fail(`${left} allocations remain after ${c.reps} repetitions of ${c.ops.map(o => o.f).join(', ')}${c.bad.length ? ' and refused calls' : ''}`);
	ctx.nt(); for(const o of c.ops) ctx.cls(o.f); if(c.bad.length) ctx.cls('refused calls');
}, {async: true});
// resident memory after many calls with large data against that after a warm-up
const MEM = ['encode', 'encodeTo', 'decode', 'decodeTo', 'decodeChunk', 'decodeChunkO', 'crc32i', 'post', 'from_post', 'incr', 'multi', 'refused'];
if(!G) add('C19', 'resident', 0, null, async (f, ctx) => {
	const d = Buffer.alloc(1<<20, 65), big = room(y.maxSize(d.length), 0), U = b4(1);
	const post = Buffer.concat([Buffer.from('=ybegin line=128 size=1 name=x\r\n'), d, Buffer.from('\r\n=yend size=1\r\n')]);
	const go = () => { switch(f) {
		case 'encode': y.encode(d); break; case 'encodeTo': y.encodeTo(d, big); break; case 'decode': y.decode(d); break; case 'decodeTo': y.decodeTo(d, big); break; case 'decodeChunk': y.decodeChunk(d); break; case 'decodeChunkO': y.decodeChunk(d, null, big); break;
		case 'crc32i': for(let i=0;i<40;i++) { y.crc32(U, U); y.crc32_combine(U, U, 5); y.crc32_zeroes(9, U); y.crc32_multiply(U, U); y.crc32_shift(3, U); } break;
		case 'post': y.post('x', d); break; case 'from_post': y.from_post(post); break; case 'incr': if(native.encodeIncr) { native.encodeIncr(d, 128, 0); native.encodeIncr(d, big, 128, 0); } break;
		case 'multi': { const e = y.multi_post('x', d.length*2, 2); e.encode(d); e.encode(d); break; }
		case 'refused': for(const g of refused) { try { g(d, U); } catch(e) {} } break;
	} };
	const many = async (n) => { for(let i=0;i<n;i++) { go(); if(i % 10 === 9) await settle(); } await settle(); return process.memoryUsage().rss; };
	const before = await many(60); let grown; for(let t=0;t<3;t++) { grown = await many(300) - before; if(grown < 150*1048576) break; }
	// 300 leaked results of a megabyte, three times over, would be 900 MB or more
	if(grown > 500*1048576) fail(`${f}: resident memory grew by ${Math.round(grown/1048576)} MB over 900 calls on a megabyte`);
	ctx.nt(); ctx.cls(f);
}, {async: true, values: () => MEM});
// what many different small calls leave behind in the heap and outside of it (tables of earlier arguments, for example)
let heapNo = 0;
const HEAP = ['post', 'multi', 'from_post', 'from_post tags', 'from_post error', 'decodeChunk', 'encode', 'crc32i', 'refused'];
if(!G) add('C19', 'heap', 0, null, async (f, ctx) => {
	const U = b4(1), base = Buffer.alloc(64, 65); let n;
	const uniq = () => { n = heapNo++; const k = n.toString(36); return k + '-' + 'abcdefgh'.repeat(30).slice(k.length); };
	const go = () => { const u = uniq(), d = Buffer.from(u); switch(f) {
		case 'post': y.post(u, base); break; case 'multi': { const e = y.multi_post(u, 128, 2); e.encode(base); e.encode(base); break; }
		case 'from_post': y.from_post(Buffer.from('=ybegin line=128 size=1 name=' + u + '\r\n' + u + '\r\n=yend size=1\r\n')); break;
		case 'from_post tags': y.from_post(Buffer.from('=ybegin line=128 size=1 ' + u + '=' + u + ' name=x\r\n=y' + u + ' a=b\r\nx\r\n=yend size=1\r\n')); break;
		case 'from_post error': y.from_post(d); y.from_post(Buffer.from('=ybegin ' + u + '\r\nx\r\n=yend size=1\r\n')); break;
		case 'decodeChunk': { const r = y.decodeChunk(d, u); y.decodeChunk(d, r.state); break; }
		case 'encode': y.encode(d, 1 + n % 100000); y.decode(d); break;
		case 'crc32i': { const r = y.crc32(d, b4(n)); y.crc32_combine(r, b4(n), n); y.crc32_zeroes(n, r); y.crc32_multiply(r, b4(n)); y.crc32_shift(n, r); break; }
		case 'refused': for(const g of refused) { try { g(d, U); } catch(e) {} } break;
	} };
	const many = async (k) => { for(let i=0;i<k;i++) { go(); if(i % 500 === 499) await settle(); } for(let i=0;i<3;i++) await settle(); const m = process.memoryUsage(); return m.heapUsed + m.external; };
	// 15000 retained strings of 240 characters are 3.6 MB at the least
	const K = f === 'refused' ? 4000 : 15000; await many(2000); let grown; for(let t=0;t<4;t++) { const before = await many(200); grown = await many(K) - before; ctx.count('bytes of growth', Math.max(0, grown)); if(grown < K * 100) break; }
	if(grown >= K * 100) fail(`${f}: the heap grew by ${Math.round(grown/1024)} KB over ${K} calls with different arguments, again and again`);
	ctx.nt(); ctx.cls(f);
}, {async: true, values: () => HEAP});
// ------------------------------------------------------------------ C25: allocations of the addon fail (injected by fence.so)
if(G) {
	const opArb = fc.record({f: fc.constantFrom('encode', 'encode col', 'decode', 'decodeChunk', 'decodeChunk', 'post', 'multi', 'from_post', 'from_post', 'incr', 'encodeTo', 'decodeTo', 'decodeChunkO', 'crc'), d: dataArb({max: 80, segs: 4, big: 3000}), dd: decDataArb({max: 60, segs: 6}), ls: lsArb, x: fc.nat(60), n: fc.string({maxLength: 12})});
	const faultArb = fc.record({skip: fc.nat(3), n: fc.constantFrom(1, 1, 2, 3, -1)});
	// what a call gives back, made comparable; the Buffers it was given
	const show = (r) => Buffer.isBuffer(r) ? r.toString('hex') : JSON.stringify(r, (k, v) => v && v.type === 'Buffer' && Array.isArray(v.data) ? Buffer.from(v.data).toString('hex') : v);
	function prepare(c) {
		const d = Buffer.from(c.d), dd = Buffer.from(c.dd), o = Buffer.alloc(y.maxSize(Math.max(d.length, dd.length) + 8, c.ls), 0xA5), U = b4(c.x * 0x1234567), art = Buffer.concat([Buffer.from('=ybegin line=128 size=' + dd.length + ' name=' + c.n.replace(/[\r\n]/g, '') + '\r\n'), dd, Buffer.from('\r\n=yend size=1 crc32=01234567')]);
		const st = STATES[c.x % 7], ins = [d, dd, U, art], snap = ins.map(b => Buffer.from(b));
		const call = {
			'encode': () => y.encode(d, c.ls), 'encode col': () => y.encode(d, c.ls, Math.min(c.x, c.ls)), 'decode': () => y.decode(dd, !!(c.x & 1)), 'decodeChunk': () => y.decodeChunk(dd, st), 'post': () => y.post(c.n, d, c.ls),
			'multi': () => { const e = y.multi_post(c.n, d.length + 3, 2, c.ls); return [e.encode(d), e.encode(Buffer.from('xyz')), e.crc]; }, 'from_post': () => { const r = y.from_post(art, !!(c.x & 1)); return r instanceof Error ? {error: r.code} : r; },
			'incr': () => native.encodeIncr ? native.encodeIncr(d, c.ls, Math.min(c.x, c.ls)) : null, 'encodeTo': () => [y.encodeTo(d, o, c.ls), Buffer.from(o)], 'decodeTo': () => [y.decodeTo(dd, o), Buffer.from(o.subarray(0, dd.length))], 'decodeChunkO': () => { const r = y.decodeChunk(dd, st, o); return [r.read, r.written, r.ended, r.state, Buffer.from(o.subarray(0, r.written))]; },
			'crc': () => [y.crc32(d, U), y.crc32_combine(U, U, c.x), y.crc32_zeroes(c.x, U), y.crc32_shift(-c.x, U)],
		}[c.f];
		return {call, unchanged() { ins.forEach((b, i) => eqBuf(c.f + ': an input', b, snap[i])); }, o};
	}
	const faulty = (skip, n, f) => { const before = G.failing(skip, n); let r, e; try { r = f(); } catch(x) { e = x; if(!(x instanceof Error)) { G.failing(0, 0); fail('threw something that is no Error: ' + String(x)); } } return {r, e, hit: G.failing(0, 0) - before}; };
	add('C25', 'faults', 6000, fc.record({ops: fc.array(fc.record({c: opArb, t: faultArb}), {minLength: 1, maxLength: 6})}), (v, ctx) => {
		for(const {c, t} of v.ops) {
			const p = prepare(c); let want, no; try { want = show(p.call()); } catch(x) { no = x; } p.o.fill(0xA5);
			const got = faulty(t.skip, t.n, p.call); p.unchanged();
			if(got.hit) { ctx.nt(); ctx.cls('an allocation failed in ' + c.f); ctx.cls(got.e ? 'it threw' : 'it returned'); }
			if(got.e && !got.hit && !no) fail(`${c.f}: threw without cause: ${got.e.message}`);
			if(got.e && got.hit) L.allEq(`${c.f}: the output of a call that threw`, p.o, 0xA5, 0, p.o.length);
			if(!got.e && show(got.r) !== want) fail(`${c.f}: the result changed when an allocation failed (skip ${t.skip}, ${t.n})`);
			p.o.fill(0xA5); let again, no2; try { again = show(p.call()); } catch(x) { no2 = x; }
			if(!no !== !no2 || again !== want) fail(`${c.f}: the call after a failed one ${no2 ? 'threw ' + no2.message : 'gave another result'}`); p.unchanged();
		}
	});
	// encoders: a part that could not be encoded was not accepted
	add('C25', 'encoders', 4000, fc.record({d: nonEmptyData({max: 100, segs: 4}), cuts: fc.array(fc.nat(1000), {maxLength: 4}), ls: lsArb, n: fc.string({maxLength: 12}), bad: fc.nat(5), faults: fc.array(fc.record({skip: fc.nat(2), n: fc.constantFrom(1, 1, 2, -1), times: fc.nat(2)}), {minLength: 1, maxLength: 5})}), (c, ctx) => {
		const at = [0, ...c.cuts.map(x => Math.floor(x * c.d.length / 1001)).sort((a, b) => a - b), c.d.length], N = at.length - 1, cut = (i) => c.d.subarray(at[i], at[i+1]);
		const ref = y.multi_post(c.n, c.d.length, N, c.ls), e = y.multi_post(c.n, c.d.length, N, c.ls), state = (q) => JSON.stringify([q.part, q.pos, q.crc.toString('hex'), q.size, q.parts, q.line_size]);
		for(let i=0;i<N;i++) {
			const f = c.faults[i % c.faults.length], want = ref.encode(cut(i)); let done = null;
			for(let k=0;k<f.times && !done;k++) {
				const before = state(e), got = faulty(f.skip, f.n, () => e.encode(cut(i)));
				if(got.hit) { ctx.nt(); ctx.cls('an allocation failed'); }
				if(got.e) { if(!got.hit) fail('threw without cause: ' + got.e.message); if(state(e) !== before) fail(`part ${i+1} of ${N} threw, yet the encoder changed from ${before} to ${state(e)}`); ctx.cls(N > 1 ? 'rejected part' : 'rejected single part'); }
				else done = got.r;
			}
			if(c.bad && !done) { // the same for parts that are refused for other reasons
				const before = state(e), b = [() => e.encode(), () => e.encode(null), () => e.encode(5), () => e.encode(Buffer.alloc(c.d.length + 1)), () => { e.line_size = -1 - c.d.length; try { e.encode(cut(i)); } finally { e.line_size = ref.line_size; } }][c.bad - 1];
				let x = null; try { b(); } catch(q) { x = q; }
				if(x) { if(state(e) !== before) fail(`part ${i+1} of ${N} threw (${x.message}), yet the encoder changed from ${before} to ${state(e)}`); ctx.cls('refused for another reason'); }
				else if(c.bad < 5 || cut(i).length) fail(`encoding part ${i+1} of ${N} with a bad argument (${c.bad}) did not throw`); else break;
			}
			if(!done) { try { done = e.encode(cut(i)); } catch(x) { fail(`part ${i+1} of ${N} is refused after a failed try: ${x.message}`); } }
			eqBuf(`part ${i+1} of ${N}`, done, want); eq('state', state(e), state(ref));
		}
	});
	add('C25', 'leaks', 120, fc.record({ops: fc.array(fc.record({c: opArb, t: faultArb}), {minLength: 1, maxLength: 5}), reps: fc.integer({min: 20, max: 50})}), async (v, ctx) => {
		await settle(); const before = G.live(); let hits = 0;
		for(let k=0;k<v.reps;k++) { for(const {c, t} of v.ops) { const p = prepare(c); hits += faulty(t.skip, t.n, p.call).hit; } if(k % 20 === 19) await new Promise(r => setImmediate(r)); }
		let left; for(let i=0;i<25;i++) { await settle(); left = G.live() - before; if(left <= 0) break; }
		if(left >= v.reps) fail(`${left} allocations remain after ${v.reps} repetitions of ${v.ops.map(o => o.c.f).join(', ')} with failing allocations`);
		if(hits) { ctx.nt(); ctx.cls('allocations failed'); }
	}, {async: true});
}
// ------------------------------------------------------------------ C18: several threads, each with the addon loaded
const {Worker} = require('worker_threads');
const THREAD_SUITES = ['C01', 'C03', 'C04', 'C05', 'C06', 'C10', 'C11', 'C20', 'C12', 'C15'];
const oneWorker = (w) => new Promise((res) => {
	let msg = null, timer; const wk = new Worker(require('path').join(__dirname, 'worker.js'), {workerData: {repo: env.repo, job: w}});
	wk.on('message', (m) => { if(m.fail) msg = m.fail; }); wk.on('error', (e) => { msg = msg || 'a worker failed: ' + (e && e.stack || e); });
	wk.on('exit', (code) => { if(timer) clearTimeout(timer); res(msg || (code && !w.kill ? 'a worker ended with code ' + code : null)); });
	if(w.kill) timer = setTimeout(() => wk.terminate(), w.kill);
});
const threadJob = fc.record({suites: fc.uniqueArray(fc.constantFrom(...THREAD_SUITES), {minLength: 1, maxLength: 4}), seed: L.seed, n: fc.integer({min: 5, max: 250}), delay: fc.nat(60), kill: fc.option(fc.integer({min: 1, max: 400}), {nil: 0, freq: 6}), again: fc.nat(1)});
const threadPool = new Map(); // cases for the main thread
add('C18', 'workers', 24, fc.record({jobs: fc.array(threadJob, {minLength: 2, maxLength: 9}), seed: L.seed}), async (c, ctx) => {
	let running = 0, bad = null, started = 0;
	const runJob = async (w) => { await new Promise(r => setTimeout(r, w.delay)); for(let k=0;k<=w.again;k++) { started++; running++; const m = await oneWorker(w); running--; if(m && !bad) bad = m; } };
	const all = c.jobs.map(runJob); let over = false; Promise.all(all).then(() => over = true);
	// meanwhile the main thread works as well
	const key = 'main'; if(!threadPool.has(key)) threadPool.set(key, THREAD_SUITES.map(p => { const s = S[p].find(x => x.arb); return fc.sample(s.arb, {seed: env.seed, numRuns: 150}).map(v => [s, v]); }).flat());
	const pool = threadPool.get(key); let i = c.seed % pool.length, mainCalls = 0;
	while(!over) { for(let k=0;k<40;k++) { const [s, v] = pool[i++ % pool.length]; y.encoding = 'utf8'; try { s.run(v, {cls(){}, nt(){}}); } catch(e) { bad = bad || `main thread, ${s.name}: ` + (e && e.message); } mainCalls++; } await new Promise(r => setImmediate(r)); }
	await Promise.all(all); y.encoding = 'utf8';
	if(bad) fail(bad);
	ctx.cls('workers'); ctx.nt(); if(c.jobs.some(w => w.kill)) ctx.cls('a worker terminated at work'); if(c.jobs.length > 4) ctx.cls('more than four workers'); ctx.count('calls of the main thread while workers ran', mainCalls); ctx.count('workers started', started);
}, {async: true, noShrink: true});
// many threads that load the addon one after another while this one and others compute
add('C18', 'loading', 6, fc.record({seed: L.seed, n: fc.integer({min: 10, max: 24})}), async (c, ctx) => {
	let bad = null, left = c.n, over = false, mainCalls = 0;
	const lane = async () => { while(left-- > 0) { const m = await oneWorker({light: true, seed: c.seed + left, n: 60}); if(m) bad = bad || m; } };
	const lanes = Promise.all([lane(), lane(), lane(), lane()]).then(() => over = true);
	const d = expandSeg({t: 'mix', s: c.seed, n: 3000, d: 60}), e = encRef(d, 128, 0), x = crcRef(d), t = L.expandSeg({t: 'rnd', s: c.seed, n: 2000}), td = decRef(t, true);
	while(!over) { for(let k=0;k<200;k++) { eqBuf('encode while threads load the addon', y.encode(d), e); eqBuf('decode while threads load the addon', y.decode(e), d); eqBuf('decode of garbage while threads load the addon', y.decode(t, true), td); eqBuf('crc32 while threads load the addon', y.crc32(d), b4(x)); mainCalls += 4; } await new Promise(r => setImmediate(r)); }
	await lanes; if(bad) fail(bad);
	ctx.nt(); ctx.count('workers started', c.n); ctx.count('calls of the main thread while workers were starting', mainCalls);
}, {async: true, noShrink: true});
// ------------------------------------------------------------------ C22: beyond 2 and 4 GiB
const GB2 = 2**31, GB4 = 2**32;
const bigBuf = (n) => Buffer.from(new ArrayBuffer(0)).constructor.allocUnsafeSlow(n);
// data that exactly fills lines, so that it can be repeated; with its encoding
function encPeriod(seed, ls, escaped) {
	const raw = escaped ? Buffer.alloc(400000 - 400000 % ls, CRIT[seed % 4]) : expandSeg({t: 'mix', s: seed, n: 700000, d: 30}); let col = 0, end = 0;
	for(let i=0;i<raw.length;i++) { if(col >= ls) col = 0; const c = (raw[i] + 42) & 255; col += (c === 0 || c === 10 || c === 13 || c === 61 || (c === 46 && col === 0) || ((c === 9 || c === 32) && (col === 0 || col >= ls-1))) ? 2 : 1; if(col >= ls) end = i+1; }
	const p = raw.subarray(0, end); return {p, e: Buffer.from(modelEncode(p, ls, 0, false).out)};
}
// text that ends in CRLF, with its decoding; without end markers
function decPeriod(seed) {
	const r = L.prng(seed), parts = []; let n = 0;
	while(n < 700000) { const b = r() % 3 ? Buffer.from(L.TOK[r() % L.TOK.length], 'latin1') : r() % 2 ? Buffer.alloc(r() % 90, 97) : expandSeg({t: 'rnd', s: r(), n: r() % 90}); parts.push(b); n += b.length; }
	const p = Buffer.concat(parts.concat([Buffer.from('a\r\n')]));
	for(let i=0;i+3<p.length;i++) if(i === 0 || (p[i-1] === 10 && i > 1 && p[i-2] === 13)) { const j = p[i] === 46 ? i+1 : i; if(p[j] === 61 && p[j+1] === 121) p[j+1] = 120; if(j > i && p[j] === 13 && p[j+1] === 10) p[j] = 120; }
	for(;;) { const m = modelDecode(p, true, true, M.CRLF); if(!m.end) break; p[m.read-1] = 120; if(p[m.read-2] === 13) p[m.read-2] = 120; }
	return p;
}
function fillPeriod(p, total, extra) { const d = bigBuf(total + (extra||0)); let o = 0; while(o < total) { const n = Math.min(p.length, total - o); p.copy(d, o, 0, n); o += n; } return d; }
function eqPeriod(what, out, n, piece, sep, reps, tail) {
	const want = reps * piece.length + (reps - (tail.length ? 0 : 1)) * sep.length + tail.length; eq(what + ': length', n, want);
	let o = 0; for(let k=0;k<reps;k++) { if(out.compare(piece, 0, piece.length, o, o + piece.length)) { eqBuf(`${what} at ${o}`, out.subarray(o, o + piece.length), piece); fail('compare'); } o += piece.length; if(sep.length && (k+1 < reps || tail.length)) { eqBuf(`${what} at ${o}`, out.subarray(o, o + sep.length), sep); o += sep.length; } }
	eqBuf(`${what} at ${o}`, out.subarray(o, n), tail);
}
const zcrc = (d, init) => { let c = init || 0; for(let o=0;o<d.length;o += 1<<28) c = zlib.crc32(d.subarray(o, Math.min(d.length, o + (1<<28))), c); return c; };
const BIGOPS = {
	encode: (c) => { const {p, e} = encPeriod(c.seed, c.ls, c.esc), reps = Math.floor(c.n / p.length), d = fillPeriod(p, c.n), tail = encRef(d.subarray(reps * p.length), c.ls, 0); const out = y.encode(d, c.ls); eqPeriod('encode', out, out.length, e, crlf, reps, tail); },
	encodeTo: (c) => { const {p, e} = encPeriod(c.seed, c.ls, c.esc), reps = Math.floor(c.n / p.length), d = fillPeriod(p, c.n), tail = encRef(d.subarray(reps * p.length), c.ls, 0); const out = bigBuf(y.maxSize(c.n, c.ls)), n = y.encodeTo(d, out, c.ls); eqPeriod('encodeTo', out, n, e, crlf, reps, tail);
		throws('encodeTo with an output one byte too small', () => y.encodeTo(d, out.subarray(1), c.ls)); },
	encodeIncr: (c) => { if(!native.encodeIncr) return; const {p, e} = encPeriod(c.seed, c.ls), reps = Math.floor(c.n / p.length), d = fillPeriod(p, c.n), m = modelEncode(d.subarray(reps * p.length), c.ls, 0, false); const r = native.encodeIncr(d, c.ls, 0); eq('written', r.written, r.output.length); if(m.out.length) eq('column', r.col, m.col); eqPeriod('encodeIncr', r.output, r.written, e, crlf, reps, m.out); },
	decode: (c) => { const p = decPeriod(c.seed), D = decRef(p, c.raw), reps = Math.floor(c.n / p.length), d = fillPeriod(p, c.n); const out = y.decode(d, c.raw); eqPeriod('decode', out, out.length, D, none0, reps, decRef(d.subarray(reps * p.length), c.raw)); },
	decodeTo: (c) => { const p = decPeriod(c.seed), D = decRef(p, c.raw), reps = Math.floor(c.n / p.length), d = fillPeriod(p, c.n), tail = decRef(d.subarray(reps * p.length), c.raw), out = c.insitu ? d : bigBuf(c.n); const n = y.decodeTo(d, out, c.raw); eqPeriod('decodeTo', out, n, D, none0, reps, tail); if(!c.insitu) throws('decodeTo with an output one byte too small', () => y.decodeTo(d, out.subarray(1), c.raw)); },
	decodeChunk: (c) => { const p = decPeriod(c.seed), D = decRef(p, true), reps = Math.floor(c.n / p.length), n = c.end ? reps * p.length : c.n, d = fillPeriod(p, n, c.end ? 20 : 0); let tail;
		if(c.end) { Buffer.from(c.end + 'abcdefghijklmnopqrst').copy(d, n, 0, 20); tail = none0; } else tail = modelDecode(d.subarray(reps * p.length), true, true, M.CRLF);
		const out = c.insitu ? d : bigBuf(d.length), st = c.end ? (c.end === '.\r\n' ? '\r\n.\r\n' : '\r\n=y') : tail.state, r = c.alloc ? y.decodeChunk(d) : y.decodeChunk(d, null, out);
		eq('ended', r.ended, !!c.end); eq('read', r.read, c.end ? n + c.end.length : n); eq('state', r.state, st); if(c.alloc) eq('output length', r.output.length, r.written); eqPeriod('decodeChunk', r.output, r.written, D, none0, reps, c.end ? none0 : tail.out); },
	// an end marker near the start, with gigabytes behind it (never touched)
	early: (c) => { for(const n of [GB2 + c.seed % 5000, GB4 + c.seed % 5000, GB4 + GB2 + c.seed % 5000]) for(let k=0;k<8;k++) { const r = L.prng(c.seed + k), t = expandSeg({t: 'rnd', s: r(), n: [0, 10, 100, 1000, 5000, 70000][r() % 6] + r() % 64}).map(b => b === 61 || b === 46 || b === 13 || b === 10 ? 97 : b), mark = ['=y', '.\r\n', '.=y'][r() % 3], m = Buffer.from('\r\n' + mark), d = bigBuf(n); t.copy(d, 0); m.copy(d, t.length);
		const want = modelDecode(d.subarray(0, t.length + m.length), true, true, M.CRLF), out = c.insitu ? d : bigBuf(n), res = y.decodeChunk(d, null, out); eq('ended', res.ended, true); eq('read', res.read, t.length + m.length); eq('state', res.state, mark === '.\r\n' ? '\r\n.\r\n' : '\r\n=y'); eqBuf('output', res.output.subarray(0, res.written), want.out); } },
	crc32: (c) => { const p = expandSeg({t: 'rnd', s: c.seed, n: 700001}), d = fillPeriod(p, c.n); eqBuf('crc32', y.crc32(d), b4(zcrc(d))); eqBuf('crc32 with an initial value', y.crc32(d, b4(c.seed)), b4(zcrc(d, c.seed))); const h = Math.floor(c.n * 0.51); eqBuf('crc32_combine', y.crc32_combine(y.crc32(d.subarray(0, h)), y.crc32(d.subarray(h)), c.n - h), b4(zcrc(d))); },
	post: (c) => { const {p, e} = encPeriod(c.seed, c.ls), reps = Math.floor(c.n / p.length); let d = fillPeriod(p, c.n); const x = hex8(zcrc(d)), tail = encRef(d.subarray(reps * p.length), c.ls, 0); let out = y.post('big', d, c.ls);
		const head = Buffer.from(`=ybegin line=${c.ls} size=${c.n} name=big\r\n`), foot = Buffer.from(`\r\n=yend size=${c.n} crc32=${x}`); eqBuf('header', out.subarray(0, head.length), head); eqBuf('trailer', out.subarray(out.length - foot.length), foot); const body = out.subarray(head.length, out.length - foot.length); eqPeriod('post', body, body.length, e, crlf, reps, tail); },
	from_post: (c) => { const {p, e} = encPeriod(c.seed, c.ls), reps = Math.floor(c.n / p.length), head = Buffer.from(`=ybegin line=${c.ls} size=${reps * p.length} name=big\r\n`), foot = Buffer.from(`\r\n=yend size=${reps * p.length}\r\n`), E = Buffer.concat([e, crlf]), n = reps * E.length - 2; let all = bigBuf(head.length + n + foot.length); head.copy(all, 0); let o = head.length; for(let k=0;k<reps;k++) { E.copy(all, o); o += E.length; } foot.copy(all, head.length + n);
		const r = y.from_post(all, c.raw); if(r instanceof Error) fail('from_post: ' + r.message); eq('dataStart', r.dataStart, head.length); eq('dataEnd', r.dataEnd, head.length + n); eq('yencEnd', r.yencEnd, all.length); if(r.warnings) fail('warnings ' + JSON.stringify(r.warnings)); eqPeriod('from_post', r.data, r.data.length, p, none0, reps, none0); },
	// a small post with gigabytes of NULs before and behind it, its marker lines at and around powers of two from either end
	find: (c) => { const r = L.prng(c.seed), big = Buffer.alloc(2 * GB2 + 5000); for(let k=0;k<c.cases;k++) {
		const data = expandSeg({t: 'mix', s: r(), n: 1 + r() % 30, d: 60}), body = modelEncode(data, 128, 0, true).out, head = `=ybegin line=128 size=${data.length} name=f\r\n`, art = Buffer.concat([Buffer.from('\r\n' + head), body, Buffer.from(`\r\n=yend size=${data.length}\r\n`)]);
		const dist = (j) => { const b = [GB2 / 2, GB2 / 2, GB2][r() % 3]; return Math.max(0, [b - j, b - j, b + j, b - 64 - j, b - 128 - j, j][r() % 6]); };
		const A = dist(k % 14), B = k & 1 ? r() % 100 : dist(r() % 40), all = big.subarray(0, A + art.length + B); art.copy(all, A);
		const what = (x) => `${x} of a post with ${A} bytes before and ${B} behind it`, q = y.from_post(all); if(q instanceof Error) fail(what('result') + ': ' + q.message);
		eq(what('yencStart'), q.yencStart, A + 2); eq(what('dataStart'), q.dataStart, A + 2 + head.length); eq(what('dataEnd'), q.dataEnd, A + 2 + head.length + body.length); eq(what('yencEnd'), q.yencEnd, A + art.length); eqBuf(what('data'), q.data, data); if(q.warnings) fail(what('warnings') + JSON.stringify(q.warnings));
		all.fill(0, A, A + art.length); } },
	parts: (c) => { const {p} = encPeriod(c.seed, 128), k = c.k || Math.ceil(c.n / 3), big = c.few || 2, size = (big + 1) * k + 500, N = big + 2; let d = fillPeriod(p, k); const E = y.multi_post('big', size, N); let x = 0, i = 0, pos = 0;
		const part = (b) => { let o = E.encode(b); x = zcrc(b, x); pos += b.length; i++; eq('pos', E.pos, pos); eqBuf('crc', E.crc, b4(x)); const h = Buffer.from(`=ybegin part=${i} total=${N} line=128 size=${size} name=big\r\n=ypart begin=${pos-b.length+1} end=${pos}\r\n`), f = Buffer.from(`\r\n=yend size=${b.length} part=${i} pcrc32=${hex8(zcrc(b))}`); eqBuf('header', o.subarray(0, h.length), h); eqBuf('trailer', o.subarray(o.length - f.length), f); o = null; if(global.gc) global.gc(); };
		for(let j=0;j<big;j++) part(d);
		part(d.subarray(0, 500)); throws('a last part that is too short', () => E.encode(d.subarray(0, 500))); },
};
const none0 = Buffer.alloc(0);
function bigCases(seed, thorough) {
	const r = L.prng(seed * 7919 + 1), ls = () => [128, 128, 64 + r() % 200, 1000][r() % 4], R = () => 1 + r() % 100000, C = [];
	const c = (op, n, o) => C.push(Object.assign({op, n, ls: ls(), seed: r() & 0x7fffffff}, o));
	c('early', GB4, {}); c('early', GB4, {insitu: true});
	c('find', GB2, {cases: thorough ? 300 : 80});
	c('encode', GB4 + R()); c('decodeChunk', GB4 + R(), {end: ['=y', '.\r\n', '.=y'][r() % 3]}); c('encode', GB2 + R(), {esc: true, ls: 128}); c('decode', GB4 + R(), {raw: !!(r() & 1)}); c('crc32', GB4 + R()); c('encodeTo', GB2 + R()); c('decodeTo', GB2 + R(), {raw: true}); c('decodeTo', GB4 + R(), {raw: false, insitu: true});
	c('decodeChunk', GB2 + R(), {alloc: true}); c('encodeIncr', GB2 + R()); c('decode', GB2 + R(), {raw: true}); c('encodeTo', GB4 + R()); c('crc32', GB2 + R()); c('post', GB2 + R()); c('from_post', GB2 + R()); c('encode', GB2 - 1 - r() % 1000);
	if(thorough) for(let k=0;k<3;k++) { c('parts', 1.5 * GB4 + R()); for(const n of [GB2, GB2 - 1, GB2 + 1, GB4 - 1, GB4, GB4 + 1, GB2 + R(), GB4 + R(), GB4 + GB2 + R()]) { c('encode', n); c('decode', n, {raw: !!(r() & 1)}); c('decodeChunk', n, {end: ['=y', '.\r\n', '.=y', ''][r() % 4], insitu: !!(r() & 1)}); c('decodeTo', n, {raw: !!(r() & 1), insitu: !!(r() & 1)}); c('crc32', n); if(n < 1.2 * GB4) { c('encodeTo', n); c('encodeIncr', n); } if(n <= GB2 + 200000) { c('encode', n, {esc: true}); c('post', n); c('from_post', n); } } }
	return C;
}
add('C22', 'large', 0, null, (c, ctx) => { BIGOPS[c.op](c); if(global.gc) global.gc(); ctx.nt(); ctx.cls(`${c.op} of ${c.n > GB4 ? 'over 4 GiB' : c.n > GB2 ? 'over 2 GiB' : 'about 2 GiB'}`); }, {values: (seed, scale) => bigCases(seed, scale > 1)});
// ------------------------------------------------------------------ sizes between the small cases above and the gigabytes of C22
// lengths spread evenly over their logarithms, half of them at a power of two or a few bytes from it
function sizeCases(seed, scale, n, top) {
	const r = L.prng(Math.imul(seed, 0x9E3779B1) ^ n * 77), C = [], t = (top || 25) + (scale > 20 ? 2 : scale > 2 ? 1 : 0); n = Math.ceil(n * (scale > 20 ? 6 : scale > 2 ? 2 : 1));
	for(let k=0;k<n;k++) { const e = 12 + (t - 12) * ((k + (r() & 0xffff) / 65536) / n), len = r() % 2 ? 2**Math.round(e) + r() % 7 - 3 : Math.floor(2**e); C.push({n: Math.max(1, len), ls: [128, 128, 1 + r() % 300, 1000 + r() % 100000, 0x7fffffff][r() % 5], seed: r() & 0x7fffffff, kind: r() % 5, f: r() % 100, a: r() % 128}); }
	return C.map((c, i) => [(i * 7919) % 101, c]).sort((p, q) => p[0] - q[0]).map(x => x[1]);
}
function sizeData(c) { const r = L.prng(c.seed); switch(c.kind) {
	case 0: return Buffer.alloc(c.n, CRIT[r() % 7]); case 1: return expandSeg({t: 'rnd', s: c.seed, n: c.n}); case 2: { const d = Buffer.alloc(c.n, plainBytes[r() % plainBytes.length]); for(let k=0;k<9;k++) d[r() % c.n] = CRIT[r() % 7]; return d; }
	default: return expandSeg({t: 'mix', s: c.seed, n: c.n, d: [1, 20, 200][r() % 3]}); } }
function sizeText(c, end) { // for the decoders
	const r = L.prng(c.seed); let d;
	if(c.kind === 0) d = modelEncode(sizeData(Object.assign({}, c, {kind: 3, n: Math.max(1, c.n >> 1)})), 128, 0, true).out; else if(c.kind === 1) d = expandSeg({t: 'rnd', s: c.seed, n: c.n}); else { const p = decPeriod(c.seed); d = Buffer.alloc(c.n); for(let o=0;o<c.n;) { const at = r() % p.length, m = Math.min(c.n - o, p.length - at, 1 + r() % 400000); p.copy(d, o, at, at + m); o += m; } }
	if(end && d.length > 20) { const at = c.f < 30 ? d.length - 12 : r() % (d.length - 12); d.write(['\r\n=y', '\r\n.\r\n', '\r\n.=y'][r() % 3], at, 'latin1'); }
	return d;
}
function sizePlan(c, total) { const r = L.prng(c.seed ^ 0x55), P = []; for(let o=0, k=r() % 6;k>0 && o<total;k--) { const m = r() % 3 ? 1 + r() % total : 2**(r() % 25) + r() % 5; P.push({n: m, f: r() % 100, a: r() % 128, o: !!(r() & 1)}); o += m; } return P; }
const sizes = (prop, n, run, top) => add(prop, 'sizes', 0, null, (c, ctx) => { run(c, ctx); ctx.nt(); ctx.cls(c.n >= 1<<24 ? '16 MiB and more' : c.n >= 1<<20 ? '1 MiB and more' : c.n >= 1<<16 ? '64 KiB and more' : 'below 64 KiB'); }, {values: (seed, scale) => sizeCases(seed, scale, n, top)});
const colOf = (c) => c.f < 50 ? 0 : Math.floor(Math.min(c.ls, 100000) * (c.f - 50) / 50);
sizes('C01', 64, (c) => { const d = sizeData(c), col = colOf(c), want = encRef(d, c.ls, col); eqBuf('encode', y.encode(at(d, c.a), c.ls, col), want); const o = room(y.maxSize(c.n, c.ls), c.a), n = y.encodeTo(d, o, c.ls, col); eq('return value of encodeTo', n, want.length); eqBuf('output of encodeTo', o.subarray(0, n), want); });
sizes('C02', 48, (c) => { const d = sizeData(c); validEncoding(y.encode(at(d, c.a), Math.min(c.ls, 2000)), Math.min(c.ls, 2000), 0, c.n); const o = room(y.maxSize(c.n, c.ls), c.a); validEncoding(o.subarray(0, y.encodeTo(d, o, c.ls)), c.ls, 0, c.n); }, 24);
sizes('C03', 64, (c) => { const d = sizeData(c), e = y.encode(at(d, c.a), c.ls); eqBuf('decode(encode(x))', y.decode(e, !!(c.f & 1)), d); const ch = y.decodeChunk(at(e, c.a)); eqBuf('decodeChunk(encode(x)).output', ch.output.subarray(0, ch.written), d); const o = room(e.length, 3), n = y.decodeTo(e, o); eqBuf('decodeTo(encode(x))', o.subarray(0, n), d); });
sizes('C04', 64, (c) => { const d = sizeText(c), raw = !!(c.f & 1), want = decRef(d, raw); eqBuf('decode', y.decode(at(d, c.a), raw), want); const o = room(d.length, 5), n = y.decodeTo(d, o, raw); eq('return value of decodeTo', n, want.length); eqBuf('output of decodeTo', o.subarray(0, n), want); });
sizes('C05', 48, (c) => { const d = sizeText(c, c.f % 3 === 0), whole = y.decodeChunk(at(d, c.a)), got = runChunks({d, plan: sizePlan(c, d.length), f: c.f, a: c.a}); eqBuf('output of the chunks', got.out, whole.output.subarray(0, whole.written)); eq('bytes consumed', got.pos, whole.read); eq('ended', !!got.end, whole.ended); eq('state', got.state, whole.state); if(!whole.ended) eqBuf('decode(x, true) against the chunks', got.out, y.decode(d, true)); });
sizes('C06', 64, (c) => { const d = sizeText(c, c.f % 3 !== 0), ref = modelDecode(d, true, true, M.CRLF), r = callChunk(FORMS0[c.f % FORMS0.length], at(d, c.a), null, c.a); eq('ended', r.ended, !!ref.end); eq('read', r.read, ref.read); eq('written', r.written, ref.out.length); eq('state', r.state, ref.state); eqBuf('output', r.output.subarray(0, r.written), ref.out); const got = runChunks({d, plan: sizePlan(c, d.length), f: c.f, a: c.a}); eqBuf('output of the chunks', got.out, ref.out); eq('bytes consumed', got.pos, ref.read); eq('end', got.end, ref.end); });
sizes('C09', 48, (c) => { const d = sizeText(c, c.f % 3 === 0), raw = !!(c.f & 1), o = room(d.length, c.a), n = y.decodeTo(d, o, raw), b = at(d, c.a), m = y.decodeTo(b, b, raw); eq('length of the in-situ decoding', m, n); eqBuf('in-situ decoding', b.subarray(0, m), o.subarray(0, n));
	const r1 = y.decodeChunk(d, null, o), b2 = at(d, c.a), r2 = y.decodeChunk(b2, null, b2); for(const k of ['read', 'written', 'ended', 'state']) eq('in-situ ' + k, r2[k], r1[k]); eqBuf('in-situ chunk', b2.subarray(0, r2.written), o.subarray(0, r1.written)); });
sizes('C10', 64, (c) => { const d = at(sizeData(c), c.a), want = crcRef(d, c.seed); eqBuf('crc32 with an initial value', y.crc32(d, b4(c.seed)), b4(want)); eqBuf('crc32', y.crc32(d), b4(crcRef(d))); let x = b4(c.seed), pos = 0; for(const p of sizePlan(c, c.n).concat([{n: Infinity}])) { const q = Math.min(c.n, pos + p.n); x = y.crc32(d.subarray(pos, q), x); pos = q; } eqBuf('crc32 in pieces', x, b4(want)); });
sizes('C12', 40, (c) => { const d = sizeData(c), ls = Math.min(c.ls, 2000); eqBuf('post', y.post('f', d, ls), refPost('f', 'utf8', d, ls)); const cut = L.prng(c.seed)() % (c.n + 1), E = y.multi_post('f', c.n, 2, ls), a = d.subarray(0, cut), b = d.subarray(cut), all = crcRef(d); eqBuf('part 1', E.encode(a), refPart('f', 'utf8', a, ls, 1, 2, c.n, 0, all)); eqBuf('part 2', E.encode(b), refPart('f', 'utf8', b, ls, 2, 2, c.n, cut, all)); }, 24);
sizes('C13', 40, (c) => { const d = sizeData(c), N = 2 + c.f % 4, E = y.multi_post('f', c.n, N, 128); let pos = 0; for(let i=1;i<=N;i++) { const end = i === N ? c.n : Math.min(c.n, pos + L.prng(c.seed + i)() % (c.n + 1)); if(i < N) throws('a part that exceeds the file size', () => E.encode(Buffer.alloc(c.n - pos + 1))); E.encode(d.subarray(pos, end)); pos = end; eq('part', E.part, i); eq('pos', E.pos, pos); eqBuf('crc', E.crc, b4(crcRef(d.subarray(0, pos)))); } }, 23);
sizes('C14', 40, (c) => { const d = sizeData(c), p = Buffer.concat([y.post('f', d, Math.min(c.ls, 2000)), Buffer.from('\r\n')]), raw = !!(c.f & 1), q = y.from_post(raw ? dotStuff(p) : p, raw); if(q instanceof Error) fail('from_post: ' + q.message); eqBuf('data', q.data, d); eqBuf('crc32', q.crc32, b4(crcRef(d))); eq('warnings', JSON.stringify(q.warnings), undefined); eq('yencEnd', q.yencEnd, (raw ? dotStuff(p) : p).length); }, 24);
sizes('C16', 40, (c) => { const d = sizeData(c), p = Buffer.concat([y.post('f', d, 128), Buffer.from('\r\n')]), r = L.prng(c.seed), k = 100 + r() % Math.max(1, p.length - 200); const clean = y.from_post(p); eq('warnings of a consistent post', JSON.stringify(clean.warnings), undefined); if(c.n < 300 || k < 60) return; const was = p[k]; if(was === 13 || was === 10 || was === 61 || p[k-1] === 61) return; p[k] = was === 97 ? 98 : 97; const q = y.from_post(p); if(q instanceof Error) fail('from_post: ' + q.message); const codes = (q.warnings || []).map(w => w.code); if(!codes.includes('crc32_mismatch')) fail(`a changed byte at ${k} of ${p.length} is not reported: ` + codes.join()); }, 24);
sizes('C08', 40, (c) => { const d = c.f & 1 ? sizeData(c) : Buffer.alloc(c.n, CRIT[c.f % 4]), mx = y.maxSize(c.n, c.ls), o = room(mx, c.a), n = y.encodeTo(d, o, c.ls); eq('maxSize', mx, maxSizeRef(c.n, c.ls)); if(n > mx || n < y.minSize(c.n, c.ls)) fail(`encoding of ${c.n} bytes (line size ${c.ls}) has ${n} bytes, minSize is ${y.minSize(c.n, c.ls)}, maxSize ${mx}`);
	eq('size of data without critical characters', y.encode(Buffer.alloc(c.n, plainBytes[c.f]), c.ls).length, y.minSize(c.n, c.ls)); for(const k of [1, 2, 63, 64, 66, 400, 1000]) throws(`encodeTo of ${c.n} bytes with an output ${k} bytes below maxSize`, () => y.encodeTo(d, o.subarray(k), c.ls));
	const t = sizeText(c), q = room(t.length, 1); y.decodeTo(t, q); y.decodeChunk(t, q); throws('decodeTo with an output one byte too small', () => y.decodeTo(t, q.subarray(1))); throws('decodeChunk with an output one byte too small', () => y.decodeChunk(t, q.subarray(1))); }, 23);
if(G) sizes('C07', 32, (c) => { const d = sizeData(c), e = Buffer.alloc(c.n, CRIT[c.f % 4]), ls = c.f & 1 ? 1 + c.f % 5 : c.ls, src = G.big(0, c.n, c.f & 2 ? 1 : 0); for(const x of [d, e]) { x.copy(src); y.encode(src, ls, colOf(c) % (ls + 1)); const size = maxSizeRef(c.n, ls), dst = G.big(1, size, c.f & 4 ? 1 : 0), n = y.encodeTo(src, dst, ls); if(n > size) fail(`encodeTo returned ${n} for an output of ${size}`); if(native.encodeIncr) native.encodeIncr(src, ls, 0); y.crc32(src); }
	const t = sizeText(c, c.f % 3 === 0), s2 = G.big(0, t.length, c.f & 2 ? 1 : 0), o2 = () => G.big(1, t.length, c.f & 4 ? 1 : 0), raw = !!(c.f & 1); t.copy(s2); y.decode(s2, raw); y.decodeTo(s2, o2(), raw); y.decodeChunk(s2); y.decodeChunk(s2, null, o2()); y.decodeTo(s2, s2, raw); t.copy(s2); y.decodeChunk(s2, null, s2); }, 22);
if(native.encodeIncr) sizes('C20', 48, (c) => { const d = sizeData(c), col0 = colOf(c), ls = Math.min(c.ls, 0x7ffffff0), ref = modelEncode(d, ls, col0, false); let pos = 0, col = col0; const outs = []; for(const p of sizePlan(c, c.n).concat([{n: Infinity, a: 5, o: false}])) { if(pos >= c.n) break; const b = at(d.subarray(pos, Math.min(c.n, pos + p.n)), p.a); let r; if(p.o) { const o = room(y.maxSize(b.length, ls), p.a); r = native.encodeIncr(b, o, ls, col); outs.push(o.subarray(0, r.written)); } else { r = native.encodeIncr(b, ls, col); outs.push(r.output); } pos += b.length; col = r.col; } eqBuf('pieces together', Buffer.concat(outs), ref.out); eq('column', col, ref.col); });
// ------------------------------------------------------------------ C20
if(native.encodeIncr) add('C20', 'api', 25000, fc.record({data: nonEmptyData({big: 3000}), ls: fc.oneof({weight: 5, arbitrary: fc.integer({min: 1, max: 10})}, {weight: 5, arbitrary: fc.integer({min: 1, max: 300})}, {weight: 5, arbitrary: fc.constant(128)}, {weight: 1, arbitrary: fc.constant(0)}), colf: fc.oneof(fc.constant(0), fc.nat(1000)), plan: fc.array(fc.record({n: fc.oneof(fc.integer({min: 1, max: 5}), fc.integer({min: 1, max: 200})), a: alignArb, o: fc.boolean()}), {maxLength: 12})}), (c, ctx) => {
	const given = c.ls; c = Object.assign({}, c, {ls: given || 128});
	const col0 = Math.floor(c.ls * c.colf / 1000), ref = modelEncode(c.data, c.ls, col0, false), rest = (col) => given === 128 && !col ? [] : col ? [given, col] : [given];
	let pos = 0, col = col0; const outs = [];
	for(const p of c.plan.concat([{n: Infinity, a: 5, o: false}])) {
		if(pos >= c.data.length) break;
		const d = at(c.data.subarray(pos, pos + Math.min(p.n, c.data.length - pos)), p.a); let r, out;
		if(p.o) { out = room(y.maxSize(d.length, c.ls), p.a); r = native.encodeIncr(d, out, ...rest(col)); if(r.output !== undefined && r.output !== out) fail('another output than the supplied one'); out = out.subarray(0, r.written); }
		else { r = native.encodeIncr(d, ...rest(col)); out = r.output; eq('length of the output', out.length, r.written); }
		outs.push(Buffer.from(out)); pos += d.length; col = r.col;
		eq(`column after ${pos} bytes`, col, modelEncode(c.data.subarray(0, pos), c.ls, col0, false).col);
	}
	eqBuf('pieces together', Buffer.concat(outs), ref.out);
	const one = native.encodeIncr(c.data, given, col0); eqBuf('in one call', one.output, ref.out); eq('column', one.col, ref.col);
	if(outs.length > 1) { ctx.cls('several pieces'); if(hasCrit(c.data)) ctx.nt(); } if(col0) ctx.cls('column offset'); if(ref.col > c.ls) ctx.cls('column beyond the line size');
});
// ------------------------------------------------------------------ C21
// arguments by description; `ok` values are inside the documented domain
const BAD = ['undef', 'null', 'num', 'str', 'estr', 'obj', 'arr', 'true', 'ab', 'fn', 'date', 'nan', 'sym', 'big'];
const mkBad = (k) => ({undef: undefined, null: null, num: 5, str: 'abcd', estr: 'x', obj: {length: 4}, arr: [1,2,3,4], true: true, ab: new ArrayBuffer(4), fn: function() {}, date: new Date(0), nan: NaN, sym: Symbol('x'), big: 10n})[k];
const badArb = fc.constantFrom(...BAD);
const crcLen = fc.constantFrom(0, 1, 2, 3, 5, 8, 100);
const CALLS = ['encode', 'encode-ls', 'encode-col', 'encodeTo', 'encodeTo-out', 'encodeTo-ls', 'encodeTo-col', 'encodeTo-1', 'decode', 'decodeTo', 'decodeTo-out', 'decodeTo-1', 'decodeChunk', 'crc32', 'crc32-init', 'crc32-len', 'combine-few', 'combine-1', 'combine-2', 'combine-len', 'multiply-few', 'multiply-1', 'multiply-len', 'zeroes-few', 'zeroes-init', 'zeroes-len', 'shift-few', 'shift-init', 'shift-len', 'none', 'ratio', 'from_post', 'post', 'multi_post'];
const neg = fc.oneof(fc.integer({min: -300, max: -1}), fc.constantFrom(-1, -128, -(2**31), -(2**32), -(2**32)+128, -(2**53)));
const badCall = fc.record({f: fc.constantFrom(...CALLS), bad: badArb, n: neg, over: fc.oneof(fc.integer({min: 1, max: 200}), fc.constantFrom(2**31, 2**32, 2**32-100)), ls: lsArb, d: nonEmptyData({max: 40, segs: 3}), len: crcLen, x: fc.nat(100)});
function invalid(c) {
	const d = c.d, v = mkBad(c.bad), U = b4(0x12345678), W = Buffer.alloc(c.len, 7), out = room(y.maxSize(d.length, 1), 3);
	const watch = [d, U, W, out];
	switch(c.f) {
		case 'encode': return [watch, () => c.bad === 'undef' && c.x & 1 ? y.encode() : y.encode(v, 128, 0)];
		case 'encode-ls': return [watch, () => y.encode(d, c.n)]; case 'encode-col': return [watch, () => y.encode(d, c.ls, c.x & 1 ? c.n : c.ls + c.over)];
		case 'encodeTo': return [watch, () => y.encodeTo(v, out)]; case 'encodeTo-out': return [watch, () => y.encodeTo(d, v)]; case 'encodeTo-1': return [watch, () => y.encodeTo(d)];
		case 'encodeTo-ls': return [watch, () => y.encodeTo(d, out, c.n)]; case 'encodeTo-col': return [watch, () => y.encodeTo(d, out, c.ls, c.x & 1 ? c.n : c.ls + c.over)];
		case 'decode': return [watch, () => c.bad === 'undef' && c.x & 1 ? y.decode() : y.decode(v, !!(c.x & 2))];
		case 'decodeTo': return [watch, () => y.decodeTo(v, out)]; case 'decodeTo-out': return [watch, () => y.decodeTo(d, v)]; case 'decodeTo-1': return [watch, () => y.decodeTo(d)];
		case 'decodeChunk': return [watch, () => c.bad === 'undef' && c.x & 1 ? y.decodeChunk() : y.decodeChunk(v)];
		case 'crc32': return [watch, () => c.bad === 'undef' && c.x & 1 ? y.crc32() : y.crc32(v)]; case 'crc32-init': return [watch, () => y.crc32(d, v)]; case 'crc32-len': return [watch, () => y.crc32(d, W)];
		case 'combine-few': return [watch, () => [() => y.crc32_combine(), () => y.crc32_combine(U), () => y.crc32_combine(U, U)][c.x % 3]()];
		case 'combine-1': return [watch, () => y.crc32_combine(v, U, 5)]; case 'combine-2': return [watch, () => y.crc32_combine(U, v, 5)]; case 'combine-len': return [watch, () => c.x & 1 ? y.crc32_combine(W, U, 5) : y.crc32_combine(U, W, 5)];
		case 'multiply-few': return [watch, () => c.x & 1 ? y.crc32_multiply() : y.crc32_multiply(U)]; case 'multiply-1': return [watch, () => c.x & 1 ? y.crc32_multiply(v, U) : y.crc32_multiply(U, v)]; case 'multiply-len': return [watch, () => c.x & 1 ? y.crc32_multiply(W, U) : y.crc32_multiply(U, W)];
		case 'zeroes-few': return [watch, () => y.crc32_zeroes()]; case 'zeroes-init': return [watch, () => y.crc32_zeroes(3, v)]; case 'zeroes-len': return [watch, () => y.crc32_zeroes(-3, W)];
		case 'shift-few': return [watch, () => y.crc32_shift()]; case 'shift-init': return [watch, () => y.crc32_shift(3, v)]; case 'shift-len': return [watch, () => y.crc32_shift(-3, W)];
		case 'none': { const fs = ['encode', 'encodeTo', 'decode', 'decodeTo', 'decodeChunk', 'crc32', 'crc32_combine', 'crc32_zeroes', 'crc32_multiply', 'crc32_shift', 'post', 'multi_post', 'from_post']; return [watch, () => y[fs[c.x % fs.length]]()]; }
		case 'ratio': return [watch, () => y.maxSize(d.length, c.ls, c.x & 1 ? -(1 + c.x) / 50 : 1 + (1 + c.x) / 1000)];
		case 'from_post': return [watch, () => y.from_post(v)];
		case 'post': return [watch, () => c.x & 1 ? y.post('n', d, c.n) : y.post('n', [undefined, null, 5, true, 10n, Symbol('q'), function() {}][c.x % 7])];
		case 'multi_post': return [watch, () => c.x & 1 ? y.multi_post('n', d.length, 1 + (c.x >> 1) % 2, c.n).encode(d) : y.multi_post([undefined, null, 5][c.x % 3], 5, 1)];
	}
}
function sanity(d) { // the library still works
	eqBuf('encode after an invalid call', y.encode(d), encRef(d)); eqBuf('decode after an invalid call', y.decode(y.encode(d)), d); eqBuf('crc32 after an invalid call', y.crc32(d), b4(crcRef(d)));
}
add('C21', 'invalid', 30000, fc.array(badCall, {minLength: 1, maxLength: 6}), (ops, ctx) => {
	for(const c of ops) {
		const [watch, f] = invalid(c), snap = watch.map(b => Buffer.from(b));
		throws(`${c.f} (${c.bad}, ${c.n}, ${c.len})`, f);
		watch.forEach((b, i) => eqBuf(`${c.f}: an argument after the error`, b, snap[i]));
		ctx.cls(c.f);
	}
	sanity(ops[0].d); ctx.nt();
});
const none = Buffer.alloc(0);
add('C21', 'empty', 6000, fc.record({ls: fc.option(lsArb0, {nil: undefined, freq: 3}), u: u32, st: fc.constantFrom(null, ...STATES), n: fc.nat(20), raw: fc.boolean(), off: fc.nat(16), name: fc.constantFrom('a', '')}), (c, ctx) => {
	const e = [none, Buffer.alloc(20).subarray(c.off, c.off), Buffer.from('')][c.n % 3], out = room(c.n, 1), a = c.ls === undefined ? [] : [c.ls];
	eq('encode of nothing', y.encode(e, ...a).length, 0); eq('encodeTo of nothing', y.encodeTo(e, out, ...a), 0); eq('decode of nothing', y.decode(e, c.raw).length, 0); eq('decodeTo of nothing', y.decodeTo(e, out, c.raw), 0);
	if(!Buffer.isBuffer(y.encode(e)) || !Buffer.isBuffer(y.decode(e))) fail('no Buffer for empty data');
	allEq('output for empty data', out, 0xA5, 0, out.length);
	eqBuf('crc32 of nothing', y.crc32(e), b4(0)); eqBuf('crc32 of nothing, with a value', y.crc32(e, b4(c.u)), b4(c.u));
	eqBuf('crc32_combine with nothing', y.crc32_combine(b4(c.u), b4(0), 0), b4(c.u)); eqBuf('crc32_zeroes(0)', y.crc32_zeroes(0, b4(c.u)), b4(c.u)); eqBuf('crc32_shift(0)', y.crc32_shift(0, b4(c.u)), b4(c.u)); eqBuf('crc32_zeroes(0) without a value', y.crc32_zeroes(0), b4(0)); eqBuf('crc32_shift(0) without a value', y.crc32_shift(0), b4(0x80000000));
	for(const args of [[e, c.st], [e, c.st, out], [e, out, c.st]]) { const r = y.decodeChunk(...args); eq('read', r.read, 0); eq('written', r.written, 0); eq('ended', r.ended, false); eq('state', r.state, c.st === null ? '\r\n' : c.st); if(!Buffer.isBuffer(r.output)) fail('no output Buffer'); if(args.includes(out) && r.output !== out) fail('another output than the supplied one'); if(!args.includes(out)) eq('output length', r.output.length, 0); }
	eqBuf('post of nothing', y.post(c.name, e, c.ls), refPost(c.name, 'utf8', none, c.ls || 128));
	ctx.nt();
});
add('C21', 'defaults', 8000, fc.record({d: nonEmptyData(), u: u32, n: fc.integer({min: -100, max: 100}), raw: fc.boolean(), a: alignArb}), (c, ctx) => {
	const d = c.d, mx = y.maxSize(d.length, 128, 1);
	eqBuf('encode(d)', y.encode(d), y.encode(d, 128, 0)); eqBuf('encode(d, 128)', y.encode(d, 128), encRef(d, 128, 0)); eq('maxSize(n)', y.maxSize(d.length), mx); eq('maxSize(n, 128)', y.maxSize(d.length, 128), mx); eq('minSize(n)', y.minSize(d.length), y.minSize(d.length, 128));
	const o = room(mx, c.a); eqBuf('encodeTo(d, o)', o.subarray(0, y.encodeTo(d, o)), encRef(d, 128, 0));
	eqBuf('decode(d)', y.decode(d), y.decode(d, false)); const q = room(d.length, c.a); eqBuf('decodeTo(d, o)', q.subarray(0, y.decodeTo(d, q)), decRef(d, false));
	eqBuf('crc32(d)', y.crc32(d), y.crc32(d, b4(0))); eqBuf('crc32_zeroes(n)', y.crc32_zeroes(c.n), y.crc32_zeroes(c.n, b4(0))); eqBuf('crc32_shift(n)', y.crc32_shift(c.n), y.crc32_shift(c.n, b4(0x80000000)));
	eqBuf('post(n, d)', y.post('x', d), y.post('x', d, 128)); eqBuf('multi_post(n, s, 1)', y.multi_post('x', d.length, 1).encode(d), y.multi_post('x', d.length, 1, 128).encode(d));
	const k = [y.decodeChunk(d), y.decodeChunk(d, null), y.decodeChunk(d, '\r\n'), y.decodeChunk(d, undefined, undefined)].map(r => JSON.stringify([r.read, r.written, r.ended, r.state, r.output.toString('hex')])); for(const x of k) eq('decodeChunk without a state', x, k[0]);
	eq('encoding', y.encoding, 'utf8');
	if(hasCrit(d)) ctx.nt();
});
require('./cost.js')(env, L, add);
return S;
};
