'use strict';
// a thread of the C18 suites: loads the addon itself and runs cases of other suites
const {workerData, parentPort} = require('worker_threads'), path = require('path');
const {repo, job} = workerData, L = require('./lib.js'), y = require(path.join(repo, 'index.js'));
if(job.light) {
	for(let k=0;k<job.n;k++) {
		const d = L.expandSeg({t: 'mix', s: job.seed + k, n: 50 + (k * 37) % 900, d: 90}), e = L.encRef(d, 128, 0);
		try { L.eqBuf('encode in a thread', y.encode(d), e); L.eqBuf('decode in a thread', y.decode(e), d); L.eqBuf('crc32 in a thread', y.crc32(d), L.b4(L.crcRef(d))); } catch(x) { parentPort.postMessage({fail: x.message}); break; }
	}
} else {
	const suites = require('./suites.js')({repo, y, native: require(path.join(repo, 'build/Release/yencode.node')), seed: job.seed}, L);
	outer: for(const p of job.suites) { const s = suites[p].find(x => x.arb);
		for(const v of L.fc.sample(s.arb, {seed: job.seed, numRuns: job.n})) { y.encoding = 'utf8'; try { s.run(v, {cls(){}, nt(){}}); } catch(x) { parentPort.postMessage({fail: `${p} ${s.name} in a thread: ${x && x.message}; case ${JSON.stringify(L.ser(v)).slice(0, 600)}`}); break outer; } } }
}
