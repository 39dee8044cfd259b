"""What each check runs. q/t: amounts in the quick and the thorough tier."""
import os, json, random, re, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

VARIANTS = { # the build options of binding.gyp
    'default': ['--enable_native_tuning=0'],
    'native': ['--enable_native_tuning=1'],
    'noavx256': ['--enable_native_tuning=0', '--disable_avx256=1'],
    'nocrcutil': ['--enable_native_tuning=0', '--disable_crcutil=1'],
    'noavx256-nocrcutil': ['--enable_native_tuning=0', '--disable_avx256=1', '--disable_crcutil=1'],
    'native-nocrcutil': ['--enable_native_tuning=1', '--disable_crcutil=1'],
    'native-noavx256': ['--enable_native_tuning=1', '--disable_avx256=1'],
    'tsan': ['--enable_native_tuning=0'],
    'clang': ['--enable_native_tuning=0'],
}
TSAN_ENV = {'CFLAGS': '-fsanitize=thread -g', 'CXXFLAGS': '-fsanitize=thread -g', 'LDFLAGS': '-fsanitize=thread'}
# what native tuning gives on other CPUs, less the instructions that this one lacks
TUNED = ['bonnell', 'silvermont', 'btver1', 'amdfam10', 'k8', 'btver2', 'bdver4', 'znver1', 'skylake-avx512', 'goldmont', 'core2', 'haswell', 'alderlake',
    'x86-64', 'nehalem', 'westmere', 'sandybridge', 'ivybridge', 'broadwell', 'skylake', 'goldmont-plus', 'tremont', 'icelake-client', 'icelake-server', 'tigerlake', 'rocketlake', 'sapphirerapids',
    'k8-sse3', 'bdver1', 'bdver2', 'bdver3', 'znver2', 'znver3', 'znver4', 'cannonlake', 'cascadelake']
def tuned_env(r, march):
    env = {}
    def on(m): return set(re.findall(r'^\s+-m(\S+)\s+\[enabled\]', r.sh(['gcc', '-march=' + m, '-Q', '--help=target'])[1], re.M))
    off = ''.join(' -mno-' + f for f in sorted(on(march) - on('native')) if not f.startswith(('avx256', 'tune', 'move', 'store', '64', '32', '80387', 'hard', 'no-', 'accumulate')))
    for var, cc in (('CC', 'gcc'), ('CXX', 'g++')):
        p = os.path.join(r.dir, '%s-%s' % (cc, march)); env[var] = p
        if not os.path.exists(p):
            with open(p, 'w') as f: f.write('#!/bin/bash\na=()\nfor x in "$@"; do if [ "$x" = -march=native ]; then a+=(-march=%s%s); else a+=("$x"); fi; done\nexec %s "${a[@]}"\n' % (march, off, cc))
            os.chmod(p, 0o755)
    return env
def build_variant(r, name, must=None):
    if name.startswith('tuned-'): return r.build(name, ['--enable_native_tuning=1'], tuned_env(r, name[6:]), must=bool(must))
    env = TSAN_ENV if name == 'tsan' else {'CC': 'clang', 'CXX': 'clang++'} if name == 'clang' else None
    return r.build(name, VARIANTS[name], env, must=name == 'default' if must is None else must)
def replay_harness(r, build):
    if build.startswith('qemu:'):
        build_variant(r, 'default', True); return qemu_cmd(build[5:]) + [r.harness('default', real=True, static=True)]
    if build.startswith('cross-'): import cross; return cross.replay_harness(r, build)
    build_variant(r, build, True); return tsan_harness(r) if build == 'tsan' else r.harness(build)
def tsan_harness(r): return r.harness('tsan', cflags=('-fsanitize=thread',), tag='-tsan')
def cpuid_args(r, h):
    if isinstance(h, list) or not h: return []
    rc, nm, *_ = r.sh(['nm', h]); base = [int(x.split()[0], 16) for x in nm.split('\n') if x.endswith(' yv_real_isa')]
    rc, dis, *_ = r.sh(['objdump', '-d', '--no-show-raw-insn', h])
    sites = [int(m[1], 16) for m in re.finditer(r'^\s*([0-9a-f]+):\s+(?:cpuid|xgetbv)\b', dis, re.M)]
    return ['--sites', ':'.join(str(x - base[0]) for x in sites)] if base and sites else []
def replay_special(r, o): return SPECIAL[o['special']](r, o)

# the code that the default build leaves out: the generic CRC, what AVX512 and BMI change in the narrower kernels
SECOND = 'native-nocrcutil'
# ---- kernels at every level, then the same through the API
def both(hq, ht, jq, jt, guard=False):
    def run(r):
        r.build('default')
        r.h_stage('default', 'cases', ht if r.thorough else hq)
        if build_variant(r, SECOND): r.h_stage(SECOND, 'cases', (ht if r.thorough else hq) // 2)
        r.js_stage(jt if r.thorough else jq, guard=guard)
    return run
def api(q, t, **kw):
    def run(r): r.build('default'); r.js_stage(t if r.thorough else q, **kw)
    return run

LEGACY = 'API where Buffer lacks what old versions of Node lack'
def posts(q, t):
    def run(r): r.build('default'); r.js_stage(t if r.thorough else q); r.js_stage(t / 8 if r.thorough else q / 4, shards=4, legacy=True, name=LEGACY)
    return run
def c07(r):
    r.build('default'); r.h_stage('default', 'cases', 3000000 if r.thorough else 500000)
    if build_variant(r, SECOND): r.h_stage(SECOND, 'cases', 1500000 if r.thorough else 250000)
    r.js_stage(150 if r.thorough else 10, guard=True)
def c12(r):
    r.build('default'); r.js_stage(150 if r.thorough else 8, stall=240)
    for q in ('post', 'multi', 'big files'): r.js_stage(10 if r.thorough else 1, shards=2, suite=q, legacy=True, name=LEGACY)
def c19(r):
    r.build('default'); r.h_stage('default', 'cases', 3000000 if r.thorough else 400000)
    r.js_stage(60 if r.thorough else 8, guard=True, suite='histories', name='API histories')
    r.js_stage(12 if r.thorough else 3, guard=True, suite='leaks', name='API allocations', stall=120)
    r.js_stage(4 if r.thorough else 1, suite='resident', name='API resident memory', shards=4, stall=300)
    r.js_stage(1, suite='heap', name='API heap', shards=9, par=5, stall=300)
def c22(r):
    r.build('default'); r.js_stage(2 if r.thorough else 1, shards=6 if r.thorough else 2, par=2, stall=400, name='API, buffers of 2 to 6 GiB')
    r.h_stage('default', 'large', 0, jobs=3, name='kernels, just over 2 GiB')
    if r.thorough: r.h_stage('default', 'large', 0, jobs=2, extra=['--large-len', str(2**32 + 12345)], name='kernels, just over 4 GiB')

# ---- C17
QF = ['ssse3', 'sse4.1', 'sse4.2', 'popcnt', 'abm', 'pclmulqdq', 'avx', 'avx2', 'bmi1', 'bmi2', 'xsave']
def cpu_model(rnd):
    """a CPU for qemu: a generation, with some features missing"""
    k = rnd.random()
    if k < 0.15: return rnd.choice(['Nehalem', 'Penryn', 'Conroe', 'Westmere', 'SandyBridge', 'IvyBridge', 'Opteron_G3', 'Opteron_G5', 'core2duo', 'phenom', 'Haswell', 'Broadwell', 'EPYC', 'Denverton', 'kvm64', 'qemu64', 'Skylake-Client'])
    off = set(rnd.sample(QF, rnd.randint(1, 4))) if rnd.random() < 0.8 else set(QF[rnd.randrange(len(QF)):])
    if 'ssse3' in off: off |= {'sse4.1'}
    if 'sse4.1' in off: off |= {'sse4.2'}
    if 'sse4.2' in off: off |= {'avx'}
    if 'xsave' in off: off |= {'avx'}
    if 'avx' in off: off |= {'avx2', 'fma', 'f16c'}
    return 'max,' + ','.join('-' + f for f in sorted(off))
# the emulated program's C library must not use what it does not check for itself
QEMU_ENV = ['env', 'GLIBC_TUNABLES=glibc.cpu.hwcaps=-AVX2,-AVX,-AVX512F,-SSSE3,-SSE4_1,-SSE4_2,-ERMS,-POPCNT,-LZCNT,-BMI1,-BMI2']
def qemu_cmd(m): return QEMU_ENV + ['qemu-x86_64', '-cpu', m]
def c17(r):
    t = r.thorough; r.build('default')
    names = ['default', 'native', 'noavx256', 'nocrcutil'] + (['noavx256-nocrcutil', 'native-nocrcutil', 'native-noavx256', 'clang'] if t else [])
    for n in names: build_variant(r, n)
    for n in names:
        if not r.builds[n]: continue
        r.h_stage(n, 'cases', 2500000 if t else 150000)
        r.js_stage(15 if t else 1.5, build=n, prop=['C01', 'C04', 'C05', 'C10', 'C11'])
    def tuned(m):
        n = 'tuned-' + m; h = r.harness(n) if build_variant(r, n) else None
        if h: r.h_stage(n, 'cases', 400000 if t else 40000, jobs=4, name='native tuning for other CPUs: kernels'); r.classes['native tuning for other CPUs: ' + m] = 1
    with ThreadPoolExecutor(3) as ex: list(ex.map(tuned, TUNED if t else TUNED[:9] + [TUNED[9:][r.seed % len(TUNED[9:])]]))
    h = r.harness('default')
    if h:
        a = cpuid_args(r, h)
        if a: r.h_stage('default', 'cpuid', 4000000 if t else 400000, jobs=1, extra=a, name='dispatch for generated CPUID answers')
        else: r.note('feature detection cannot be separated from this build; CPUID answers are explored through qemu only')
    hq = r.harness('default', real=True, static=True)
    if hq:
        rnd = random.Random(r.seed * 1000003 + 17); models = ['max', 'qemu64', 'Nehalem', 'SandyBridge', 'Haswell'] + [cpu_model(rnd) for _ in range(150 if t else 35)]
        models = list(dict.fromkeys(models))
        def one(m):
            rc, out, err, hung = r.sh(qemu_cmd(m) + [hq, '--list'], timeout=60)
            if rc: models.remove(m); return r.note('CPU model %s left out: %s' % (m, err[-150:])) # the program does not even start
            r.h_stage('qemu:' + m, 'cases', 40000 if t else 8000, jobs=1, h=hq, pre=qemu_cmd(m), name='whole dispatch on emulated CPUs')
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, list(models)))
        if len(models) < 20: r.error('the emulated CPUs do not start')
        r.classes['whole dispatch on emulated CPUs: CPU models'] = len(models)

# ---- C18
LOADER = r'''
const {Worker,isMainThread,workerData}=require('worker_threads'), N=+process.argv[2], path=require('path');
if(isMainThread) { const s=new Int32Array(new SharedArrayBuffer(8)); for(let i=0;i<N;i++) new Worker(__filename,{workerData:s,argv:[N,process.argv[3]]}).on('message',(m)=>{console.error(m);process.exit(67);}); }
else { const {parentPort}=require('worker_threads'), s=workerData, m={exports:{}}, p=path.resolve(process.argv[3]); Atomics.add(s,0,1); while(Atomics.load(s,0)<N); process.dlopen(m,p); const y=m.exports;
 for(let k=1;k<40;k++) { const b=Buffer.alloc(k*97,[19,214,224,227,0][k%5]); const e=y.encode(b,128,0), d=y.decode(e,false); if(Buffer.compare(d,b)) parentPort.postMessage('wrong result in a thread'); y.crc32(b); y.crc32_combine(y.crc32(b),y.crc32(b),b.length); y.crc32_zeroes(k); } }
'''
def tsan_loading(r, d, runs):
    rc, lib, *_ = r.sh(['gcc', '-print-file-name=libtsan.so']); f = os.path.join(r.dir, 'loader.js'); open(f, 'w').write(LOADER); n = hangs = 0; bad = None
    for k in range(runs):
        threads = [2, 3, 5, 8, 12, 16][k % 6]
        rc, out, err, hung = r.sh(['node', f, str(threads), os.path.join(d, 'build/Release/yencode.node')], env={'LD_PRELOAD': lib.strip(), 'TSAN_OPTIONS': 'ignore_noninstrumented_modules=1 exitcode=66 halt_on_error=0'}, timeout=120)
        if rc == 66 and 'data race' in err:
            n += 1
            rep = re.search(r'WARNING: ThreadSanitizer: data race.*?(?=\n\n\n|\Z)', err, re.S)
            if re.search(r'yencode\.node|RapidYenc', rep.group(0) if rep else err): bad = (rep.group(0) if rep else err)[:1500]; break
        elif rc == 67: n += 1; bad = err; break
        elif rc == 0: n += 1
        elif hung:
            hangs += 1
            if hangs == 2: n += 1; bad = 'threads that load the addon do not end (2 minutes, twice)'; break
        elif 'FATAL: ThreadSanitizer' in err: r.note('ThreadSanitizer does not work here: ' + err[-200:]); break
        else: r.note('loading under ThreadSanitizer: status %s %s' % (rc, err[-200:]))
    return n, bad
def special_tsan(r, o):
    d = build_variant(r, 'tsan', True); n, bad = tsan_loading(r, d, o['runs']); print(bad or 'ok'); return 1 if bad else 0
SPECIAL = {'tsan-loading': special_tsan}
def c18(r):
    t = r.thorough; r.build('default'); build_variant(r, 'tsan')
    r.js_stage(20 if t else 2, shards=3, stall=300)
    r.h_stage('default', 'threads', 20000000 if t else 2500000)
    if r.builds['tsan']:
        runs = 120 if t else 18
        n, bad = tsan_loading(r, r.builds['tsan'], runs)
        r.stage('threads loading the addon under ThreadSanitizer', n, 0, {'processes': n})
        if bad: r.violation(r.write_replay({'kind': 'special', 'special': 'tsan-loading', 'prop': 'C18', 'runs': max(runs, 24), 'build': 'tsan'}), bad.replace('\n', ' | '))
        h = tsan_harness(r)
        if h: r.h_stage('tsan', 'threads', 400000 if t else 60000, h=h, name='kernels in threads under ThreadSanitizer', env={'TSAN_OPTIONS': 'exitcode=66'})

def c23(r):
    import cross; cross.run(r)

ASM_MODEL = 'the models (harness/model.h, js/lib.js: byte-at-a-time, written from the yEnc rules, sharing no code with the repository) state the intended result'
ASM_CPU = 'kernels are run at the dispatch levels this machine supports (up to AVX512-VBMI2 and VPCLMULQDQ here), forced one by one'
ASM_NODE = 'Node %s on Linux x86-64'
KRULE = 'kernel cases: seeded structured generators (runs of critical bytes at block and line borders, random mixes, article-like text with boundary sequences and malformed escapes, every alignment, buffers flush against inaccessible pages) at every dispatch level; '
JRULE = 'API cases: fast-check generators over the arguments of the public functions; '
NT = 'non-trivial and distinct: '
PLANS = {
 'C01': dict(run=both(500000, 6000000, 8, 150), rule=KRULE + JRULE + NT + 'different cases whose data makes the encoder escape a byte or begin a further line', assumptions=[ASM_MODEL, ASM_CPU]),
 'C02': dict(run=both(500000, 6000000, 8, 150), rule=KRULE + JRULE + NT + 'different cases whose data makes the encoder escape a byte or begin a further line', assumptions=['checked by the stated predicates over the output, not by the model', ASM_CPU]),
 'C03': dict(run=both(500000, 6000000, 8, 150), rule=KRULE + JRULE + NT + 'different cases whose data makes the encoder escape a byte or begin a further line', assumptions=['round trip through the real encoder and decoder', ASM_CPU]),
 'C04': dict(run=both(500000, 6000000, 8, 150), rule=KRULE + JRULE + NT + 'different inputs that contain an escape, a line end or a dot to strip', assumptions=[ASM_MODEL, ASM_CPU]),
 'C05': dict(run=both(500000, 6000000, 8, 120), rule=KRULE + JRULE + NT + 'different streams cut at least once, with an escape, line end or end marker', assumptions=[ASM_MODEL, ASM_CPU]),
 'C06': dict(run=both(500000, 6000000, 8, 120), rule=KRULE + JRULE + NT + 'different streams that contain a boundary sequence or an end marker, or a carried state', assumptions=[ASM_MODEL, ASM_CPU]),
 'C07': dict(run=c07, rule=KRULE + JRULE + 'every buffer of the API cases ends or begins at an inaccessible page or is surrounded by checked bytes, and the allocations the addon makes itself are fenced; ' + NT + 'different cases with an escape or line end (encoding), or a boundary sequence (decoding), or non-empty CRC data', assumptions=['reads beyond the input that stay within its page are allowed, as the kernels load whole aligned blocks', ASM_CPU]),
 'C08': dict(run=api(8, 150), rule=JRULE + NT + 'different cases with non-empty data or a non-default argument', assumptions=['the exact refusal threshold is that of the default build']),
 'C09': dict(run=both(500000, 6000000, 8, 150), rule=KRULE + JRULE + NT + 'different inputs whose decoding is shorter than the input', assumptions=['metamorphic: the same call with a separate output', ASM_CPU]),
 'C10': dict(run=both(300000, 4000000, 8, 150), rule=KRULE + JRULE + NT + 'different cases with enough data for a folding kernel, an initial value, or several pieces', assumptions=['bytewise reference CRC, and zlib where sizes are large', ASM_CPU]),
 'C11': dict(run=both(300000, 4000000, 6, 120), rule=KRULE + JRULE + NT + 'different operands with a non-zero CRC and length', assumptions=['reference: square-and-multiply over GF(2)[x] with BigInt exponents', ASM_CPU]),
 'C12': dict(run=c12, rule=JRULE + NT + 'different cases with several parts, or a name with bytes that need handling, or data that gets escaped', assumptions=[ASM_MODEL]),
 'C13': dict(run=posts(8, 150), rule='API histories: interleaved encode calls (accepted and rejected) on several encoders, compared with a model after every call; ' + NT + 'different histories with at least one rejected and one accepted call', assumptions=[ASM_MODEL]),
 'C14': dict(run=posts(8, 150), rule=JRULE + NT + 'different posts with non-empty data that gets escaped, dot-stuffed or split', assumptions=['names that are blank or end in white space are compared after trimming, as from_post trims lines']),
 'C15': dict(run=posts(8, 120), rule=JRULE + 'grammar of valid, mutated and hostile articles; ' + NT + 'different inputs with at least a =ybegin line', assumptions=[ASM_MODEL]),
 'C16': dict(run=posts(8, 120), rule=JRULE + 'grammar of articles with contradictions and corruptions; ' + NT + 'different articles that are parsed to the end and have a warning, or whose payload was changed', assumptions=[ASM_MODEL]),
 'C17': dict(run=c17, rule=KRULE + 'in several builds, on generated CPUID answers (with a specification of what each level needs as the oracle), and with the real dispatch on CPUs emulated by qemu; ' + NT + 'different cases with an escape, line end, boundary sequence or CRC data; different CPUID answers of a CPU with SSSE3', assumptions=[ASM_MODEL, 'qemu user emulation faults on instructions whose feature bit is off (true of SSE, AVX, AVX2, BMI, POPCNT, PCLMUL in qemu 8.2; LZCNT then acts as BSR, as on real CPUs); AVX-512 and VPCLMULQDQ run natively only']),
 'C18': dict(run=c18, rule='generated job sets for worker_threads that load the addon themselves; POSIX threads on the kernels, half of the time on the same case at once; both against the models; the addon loaded by many threads at once and the kernels in threads under ThreadSanitizer; ' + NT + 'different cases with an escape, line end or boundary sequence', assumptions=['the operating system picks the interleavings: repeated, not enumerated', 'ThreadSanitizer sees the addon and not Node itself']),
 'C19': dict(run=c19, rule='histories of API calls on shared Buffers with every Buffer compared with its model after every call, under garbage collection; allocations of the addon counted by an interposer; kernel cases with the input and the surroundings of the output compared; ' + NT + 'different histories of at least two calls, different kernel cases with an escape or line end', assumptions=['memory growth is judged by the addon\'s allocations still live after garbage collection, and by resident memory with a wide margin']),
 'C20': dict(run=both(400000, 6000000, 8, 150), rule=KRULE + JRULE + NT + 'different data cut into at least two pieces with an escape or line end', assumptions=[ASM_MODEL, ASM_CPU]),
 'C21': dict(run=api(8, 150), rule=JRULE + 'invalid values in every argument position, in histories; ' + NT + 'different histories with a call that must throw', assumptions=['values the documentation leaves open (non-numbers for numbers) are only required not to crash']),
 'C22': dict(run=c22, rule='generated periodic data of 2 to 6 GiB whose result follows from one period; ' + NT + 'different cases (all are larger than or about 2 GiB)', assumptions=['periods end in a state that makes results concatenate (a full line, a CRLF)']),
 'C23': dict(run=c23, rule=KRULE.replace('at every dispatch level', 'on every architecture, instruction set and vector length (sources cross-compiled)') + NT + 'different cases with an escape, line end or boundary sequence, or non-empty CRC data', assumptions=[ASM_MODEL, 'qemu 8.2 user-mode emulation executes the instructions as the CPUs do', 'clang 18 for every target, also gcc 13 for 32-bit x86; the code other compilers make is not run']),
}
def c24(r):
    r.build('default'); r.js_stage(25 if r.thorough else 1.5, stall=120)
def c25(r):
    r.build('default'); r.js_stage(40 if r.thorough else 4, guard=True, suite='faults', name='API calls with failing allocations')
    r.js_stage(40 if r.thorough else 4, guard=True, suite='encoders', name='encoders with failing allocations'); r.js_stage(12 if r.thorough else 2, guard=True, suite='leaks', name='allocations after failing ones', stall=120)
    n = sum(v for k, v in r.classes.items() if 'an allocation failed' in k or 'allocations failed' in k)
    if not n: r.note('no allocation of the addon could be made to fail: it does not use malloc, calloc, realloc or memalign')
PLANS['C25'] = dict(run=c25, rule=JRULE + 'with generated allocation faults (after how many allocations of the addon, and how many, fail), in histories; ' + NT + 'different histories in which an allocation failed', assumptions=['faults are injected into malloc, calloc, realloc and the aligned variants called by the addon; those of Node itself and while the addon is loaded are not'])
PLANS['C24'] = dict(run=c24, rule=JRULE + 'articles and data that are long in a few places, by repeating generated patterns, timed at growing sizes; ' + NT + 'different patterns and places (all are)', assumptions=['processor time on this machine: the bounds are far above what a linear scan takes (2 microseconds per byte of an article, 0.2 per byte of data), where a call is slow the ratio to four times the size decides'])
