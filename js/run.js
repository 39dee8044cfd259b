'use strict';
// node run.js --prop C04 --repo DIR --seed N --scale F --shard i/n --out FILE --log FILE --replay-dir DIR [--build NAME] [--legacy 1] | --replay FILE
const fs = require('fs'), path = require('path'), crypto = require('crypto');
const L = require('./lib.js'); const {fc} = L;
const A = {}; for(let i=2;i<process.argv.length;i+=2) A[process.argv[i].slice(2)] = process.argv[i+1];
const repo = path.resolve(A.repo);
// old versions of Node lack some functions of Buffer; index.js then takes other ways, chosen when it is loaded
const legacy = !!A.legacy || (!!A.replay && !!JSON.parse(fs.readFileSync(A.replay, 'utf8')).legacy);
function load() {
	const index = path.join(repo, 'index.js'); if(!legacy) return require(index);
	require(path.join(repo, 'build/Release/yencode.node')); process.noDeprecation = true;
	for(const without of [['indexOf', 'lastIndexOf', 'readBigInt64BE', 'alloc'], ['indexOf', 'lastIndexOf', 'readBigInt64BE'], []]) { // what cannot be loaded without a function does need it
		const kept = [], drop = (o, k) => { kept.push([o, k, Object.getOwnPropertyDescriptor(o, k)]); delete o[k]; };
		for(const k of without) { if(k === 'alloc') drop(Buffer, k); else for(let o = Buffer.prototype; o; o = Object.getPrototypeOf(o)) if(Object.prototype.hasOwnProperty.call(o, k)) drop(o, k); }
		try { return require(index); } catch(e) { if(!without.length) throw e; delete require.cache[require.resolve(index)]; } finally { for(const [o, k, d] of kept) Object.defineProperty(o, k, d); }
	}
}
const env = {repo, dir: A.tmp || path.dirname(A.out || '.'), legacy, y: load(), seed: +A.seed || 1};
env.native = require(path.join(repo, 'build/Release/yencode.node'));
if(A.guard) { // areas bounded by inaccessible pages, used in turn; what surrounds an allocation in its area is verified
	const g = require(path.resolve(A.guard)), SIZE = 1<<19, slots = [], live = [], bigs = []; let next = 0;
	for(let i=0;i<24;i++) slots.push(g.area(SIZE));
	if(g.arm('yencode.node') < 0) { console.error('fence.so is not loaded'); process.exit(3); }
	env.guard = {
		alloc(len, mode) { // 0: ends at the inaccessible page, 1: begins after it
			const ab = slots[next++ % slots.length], off = mode ? 0 : SIZE - len; if(len > SIZE) throw new Error('case too large for the guarded areas');
			const all = Buffer.from(ab); all.fill(0x5C, Math.max(0, off - 192), Math.min(SIZE, off + len + 192));
			live.push([all, off, len]); return Buffer.from(ab, off, len);
		},
		big(k, len, mode) { // the same for one large buffer at a time
			const BIG = 1<<27, ab = bigs[k] || (bigs[k] = g.area(BIG)), off = mode ? 0 : BIG - len; if(len > BIG) throw new Error('case too large for the guarded areas');
			this.verify(); for(let i=live.length-1;i>=0;i--) if(live[i][4] === k) live.splice(i, 1);
			const all = Buffer.from(ab); all.fill(0x5C, Math.max(0, off - 192), off); all.fill(0x5C, off + len, Math.min(BIG, off + len + 192));
			live.push([all, off, len, BIG, k]); return Buffer.from(ab, off, len);
		},
		verify() { for(const [all, off, len, size] of live) { L.allEq('memory before a buffer', all, 0x5C, Math.max(0, off - 192), off); L.allEq('memory beyond a buffer', all, 0x5C, off + len, Math.min(size || SIZE, off + len + 192)); } },
		reset() { next = 0; live.length = 0; },
		ro(b, on) { g.protect(b.buffer, on); }, fenced() { return g.arm(''); }, live() { return g.live(); }, failing(skip, n) { return g.fail(skip, n); },
	};
}
const suites = require('./suites.js')(env, L);

const noCtx = {cls(){}, nt(){}, count(){}};
function one(suite, value, ctx) { env.y.encoding = 'utf8'; if(env.guard) env.guard.reset(); const r = suite.run(value, ctx || noCtx); if(suite.async) return r; if(env.guard) env.guard.verify(); }
if(A.replay) {
	const r = JSON.parse(fs.readFileSync(A.replay, 'utf8'));
	const s = (suites[r.prop]||[]).find(x => x.name === r.suite);
	if(!s) { console.error('no such suite'); process.exit(3); }
	(async () => { try { for(let i=0;i<(s.noShrink ? 20 : 1);i++) await one(s, L.deser(r.value)); } catch(e) { console.log('FAIL: ' + (e && e.message)); process.exit(1); }
	console.log('ok'); process.exit(0); })(); return;
}
const prop = A.prop, scale = +A.scale || 1, [shard, shards] = (A.shard || '0/1').split('/').map(Number);
const res = {evaluations: 0, nontrivial: [], classes: {}, samples: [], violations: [], unconfirmed: []};
const logFd = A.log ? fs.openSync(A.log, 'w') : -1; let logLen = 0;
function logCase(suite, value) {
	if(logFd < 0) return;
	const s = Buffer.from(JSON.stringify({prop, suite: suite.name, legacy: legacy || undefined, value: L.ser(value)}) + '\n');
	fs.writeSync(logFd, s, 0, s.length, 0); if(s.length < logLen) fs.ftruncateSync(logFd, s.length); logLen = s.length;
}
const seen = new Set();
const turn = () => new Promise(r => setImmediate(r)), BATCH = 1000;
(async () => {
for(const suite of suites[prop] || []) {
	if(A.suite && A.suite !== suite.name) continue;
	const runs = Math.max(1, Math.ceil(suite.runs * scale / shards));
	let shrinking = false, count = 0;
	const begin = () => { const c = {nontrivial: false, cls: []}; c.ctx = {cls: (n) => { c.cls.push(n); }, nt: () => { c.nontrivial = true; }, count: (n, k) => { const q = suite.name + ': ' + n; res.classes[q] = (res.classes[q]||0) + k; }}; return c; };
	const done = (v, c) => {
		if(shrinking) return;
		res.evaluations++; count++;
		for(const n of new Set(c.cls)) { const k = suite.name + ': ' + n; res.classes[k] = (res.classes[k]||0) + 1; }
		if(c.nontrivial) {
			const s = JSON.stringify(L.ser(v)), h = crypto.createHash('md5').update(suite.name + s).digest('hex').slice(0, 16);
			if(!seen.has(h)) { seen.add(h); if(s.length < 700 && res.samples.filter(x => x.suite === suite.name).length < 2 && (count > 5 || suite.runs < 500)) res.samples.push({suite: suite.name, value: L.ser(v)}); }
		}
	};
	const wrap = (e) => { shrinking = true; return e instanceof L.Fail ? e : Object.assign(new Error('unexpected ' + (e && e.stack || e))); };
	const body = (v) => { if(suite.log !== false) logCase(suite, v); const c = begin(); try { one(suite, v, c.ctx); } catch(e) { throw wrap(e); } done(v, c); };
	const bodyAsync = async (v) => { logCase(suite, v); const c = begin(); try { await one(suite, v, c.ctx); } catch(e) { throw wrap(e); } done(v, c); };
	const seed = (Math.imul(env.seed, 0x9E3779B1) ^ Math.imul(shard+1, 0x85ebca6b) ^ crypto.createHash('md5').update(suite.name).digest().readInt32LE(0)) | 0;
	// in batches, so that Node gets to free the results
	let d = {failed: false};
	if(suite.values) { const vs = suite.values(env.seed, scale).filter((_, i) => i % shards === shard); for(const v of vs) { try { await bodyAsync(v); for(let k=0;k<3;k++) { if(global.gc) global.gc(); await turn(); } } catch(e) { d = {failed: true, counterexample: [v], errorInstance: e}; break; } } }
	else if(suite.async) d = await fc.check(fc.asyncProperty(suite.arb, bodyAsync), {seed, numRuns: runs, endOnFailure: !!suite.noShrink, maxSkipsPerRun: 1000, interruptAfterTimeLimit: suite.noShrink ? undefined : 400000, markInterruptAsFailure: false});
	else for(let left = runs, k = 0; left > 0; left -= BATCH, k++) { d = fc.check(fc.property(suite.arb, body), {seed: seed + k * 0x3779B1 | 0, numRuns: Math.min(left, BATCH), endOnFailure: !!suite.slow, maxSkipsPerRun: 1000}); if(d.failed) break; if(global.gc && k % 4 === 3) global.gc({type: 'minor'}); await turn(); }
	if(d.failed && d.counterexample) {
		const v = d.counterexample[0]; let bad = 0, msg = '';
		for(let i=0;i<3;i++) { try { for(let q=0;q<(suite.noShrink ? 8 : 1);q++) await one(suite, v); } catch(e) { bad++; msg = e && e.message || String(e); if(!(e instanceof L.Fail)) msg = 'unexpected ' + (e && e.stack || e); } }
		const rec = {prop, suite: suite.name, build: A.build || 'default', legacy: legacy || undefined, guard: A.guard ? true : undefined, why: msg, value: L.ser(v)};
		if(bad === 3 || (suite.noShrink && d.errorInstance && (bad || /expected|first difference/.test(d.errorInstance.message)))) {
			if(!bad) rec.why = msg = String(d.errorInstance.message);
			const h = crypto.createHash('md5').update(JSON.stringify(rec.value)).digest('hex').slice(0, 12);
			const file = path.join(A['replay-dir'] || '.', `${prop}-${suite.name}-${h}.json`);
			fs.writeFileSync(file + '.' + process.pid, JSON.stringify(rec) + '\n'); fs.renameSync(file + '.' + process.pid, file); // other shards may find the same case
			res.violations.push({replay: file, why: msg, suite: suite.name, case: JSON.stringify(rec.value).slice(0, 400)});
		} else res.unconfirmed.push({suite: suite.name, why: d.errorInstance ? String(d.errorInstance.message) : String(d.error), value: rec.value});
	} else if(d.failed) res.unconfirmed.push({suite: suite.name, why: 'generation gave up'});
}
res.nontrivial = Array.from(seen); if(env.guard) res.classes['allocations fenced'] = env.guard.fenced();
fs.writeFileSync(A.out, JSON.stringify(res));
process.exit(res.violations.length ? 1 : res.unconfirmed.length ? 4 : 0);
})().catch(e => { console.error(e); process.exit(3); });
