#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] | check.py --replay FILE

Decides one property: builds /repo's working tree in a scratch directory, runs the property's generated checks
(harness/ links the built kernels, js/ drives the addon through index.js), confirms every failure, writes
evidence/ID.json and prints VIOLATION / KNOWN-FINDING lines. Exit 0: held, 1: violated, 2: the check itself failed."""
import sys, os, json, time, subprocess, tempfile, shutil, signal, threading, hashlib, random, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPLAYS = os.path.join(VERIF, 'replays')
NODE_GYP = '/usr/lib/node_modules/npm/node_modules/node-gyp/bin/node-gyp.js'
JOBS = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, os.path.join(VERIF, 'bin'))

def wait_memory(share=0.75, seconds=150):
    end = time.time() + seconds
    while time.time() < end:
        m = dict(re.findall(r'(\w+):\s+(\d+)', open('/proc/meminfo').read()))
        if int(m.get('MemAvailable', 1)) >= share * int(m.get('MemTotal', 1)): break
        time.sleep(2)
class CheckError(Exception): pass
class Enough(Exception): pass # violations were found and the time is better not spent on the rest
def say(*a): print(*a, file=sys.stderr, flush=True)

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='yverif-%s-' % prop, dir=os.environ.get('VERIF_TMP', '/tmp'))
        self.evals = 0; self.nontrivial = 0; self.classes = {}; self.samples = []; self.viols = []; self.notes = []; self.errors = []; self.stages = {}
        self.lock = threading.Lock(); self.procs = set()
        os.makedirs(REPLAYS, exist_ok=True)
        self.builds = {}; self.harnesses = {}; self.hobj = {}; self.hlock = threading.RLock()
    thorough = property(lambda s: s.tier == 'thorough')

    # ---------------------------------------------------------------- processes
    def sh(self, cmd, timeout=900, cwd=None, env=None, log=None, stdin=None, watch=None, watch_s=0):
        """runs cmd; returns (rc, out, err, hung). rc < 0: killed by that signal. `watch`: a file whose mtime shows progress"""
        e = dict(os.environ); e.pop('NODE_OPTIONS', None); e.update(env or {})
        out = tempfile.TemporaryFile(dir=self.dir); err = tempfile.TemporaryFile(dir=self.dir)
        p = subprocess.Popen(cmd, cwd=cwd or self.dir, env=e, stdout=out, stderr=err, stdin=stdin or subprocess.DEVNULL, start_new_session=True)
        with self.lock: self.procs.add(p.pid)
        end, hung, last, lastm = time.time() + timeout, False, time.time(), None
        while True:
            try: p.wait(0.2 if watch is None else 1.0); break
            except subprocess.TimeoutExpired: pass
            if watch:
                try: m = os.stat(watch).st_mtime_ns
                except OSError: m = None
                if m != lastm: last, lastm = time.time(), m
            if time.time() > end or (watch and time.time() - last > watch_s):
                hung = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait(); break
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        with self.lock: self.procs.discard(p.pid)
        r = []
        for f in (out, err): f.seek(0); r.append(f.read().decode('utf8', 'replace')); f.close()
        return p.returncode, r[0], r[1], hung

    def cleanup(self):
        for pid in list(self.procs):
            try: os.killpg(pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- results
    def stage(self, name, evals, nontrivial, classes=None, samples=None):
        with self.lock:
            self.evals += evals; self.nontrivial += nontrivial
            s = self.stages.setdefault(name, {'evaluations': 0, 'distinct_nontrivial': 0}); s['evaluations'] += evals; s['distinct_nontrivial'] += nontrivial
            for k, v in (classes or {}).items(): k = name + ': ' + k; self.classes[k] = self.classes.get(k, 0) + v
            have = sum(1 for x in self.samples if x['stage'] == name)
            for x in (samples or [])[:max(0, 4 - have)]: self.samples.append({'stage': name, 'case': x})
    def violation(self, replay, why, case=''):
        with self.lock: self.viols.append({'replay': replay, 'why': why, 'case': case})
        say('  violation: %s\n    case %s\n    replay %s' % (why[:600], str(case)[:400], replay))
    def enough(self):
        """a violation that is not a known finding was found, more than two minutes have gone: the verdict is settled"""
        if time.time() - self.t0 < 120: return False
        with self.lock: v = list(self.viols)
        return any(not known_match(self.prop, x) for x in v)
    def go_on(self):
        if self.enough(): raise Enough()
    def note(self, s):
        with self.lock:
            if s not in self.notes: self.notes.append(s)
        say('  note: ' + s)
    def error(self, s):
        with self.lock: self.errors.append(s)
        say('  error: ' + s)
    def write_replay(self, obj, text=None):
        body = text if text is not None else json.dumps(obj) + '\n'
        f = os.path.join(REPLAYS, '%s-%s.json' % (self.prop, hashlib.md5(body.encode()).hexdigest()[:12]))
        t = f + '.%d-%d' % (os.getpid(), threading.get_ident())
        with open(t, 'w') as h: h.write(body)
        os.replace(t, f); return f

    # ---------------------------------------------------------------- building
    def source(self, name):
        d = os.path.join(self.dir, name); os.makedirs(d)
        for x in os.listdir(REPO):
            if x in ('.git', 'build', '_build', 'node_modules', 'test'): continue
            s = os.path.join(REPO, x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy2)(s, os.path.join(d, x))
        return d
    def build(self, name='default', flags=('--enable_native_tuning=0',), env=None, must=True):
        if name in self.builds: return self.builds[name]
        self.go_on()
        d = self.source('src-' + name)
        e = {'CC': 'gcc', 'CXX': 'g++', 'npm_config_offline': 'true', 'HOME': self.dir}; e.update(env or {})
        rc, out, err, hung = self.sh(['node', NODE_GYP, 'configure', 'build', '--nodedir=/usr', '-j', str(JOBS)] + list(flags), cwd=d, env=e, timeout=600)
        node = os.path.join(d, 'build/Release/yencode.node')
        if rc or not os.path.exists(node):
            if must: raise CheckError('building %s failed:\n%s' % (name, (out + err)[-3000:]))
            self.note('build %s failed, its part of the exploration is left out: %s' % (name, (out + err)[-400:])); d = None
        self.builds[name] = d
        return d
    def harness(self, build='default', real=False, static=False, cflags=(), cxx='g++', tag=''):
        """links the objects of a build with harness/; None if the internal interface is not what the harness expects"""
        with self.hlock: return self._harness(build, real, static, cflags, cxx, tag)
    def _harness(self, build, real, static, cflags, cxx, tag):
        key = (build, real, static, tag)
        if key in self.harnesses: return self.harnesses[key]
        d = self.builds[build]; h = None
        if d:
            B = os.path.join(d, 'build/Release/obj.target'); plat = os.path.join(B, 'yencode/src/platform.o'); o = os.path.join(d, 'harness' + ('-real' if real else '') + tag)
            objs = [x for x in sorted(glob.glob(B + '/yencode/src/*.o')) if os.path.basename(x) not in ('yencode.o',) + (() if real else ('platform.o',))]
            libs = sorted(glob.glob(B + '/*.a')); extra = []; defs = ['-DREAL_DISPATCH'] if real else []
            if not real:
                p2 = os.path.join(d, 'plat.o'); rc, *_ = self.sh(['objcopy', '--redefine-sym', '_ZN9RapidYenc16cpu_supports_isaEv=yv_real_isa', '--redefine-sym', '_ZN9RapidYenc20cpu_supports_crc_isaEv=yv_real_crc_isa', plat, p2])
                if rc == 0:
                    extra = [p2]; rc, nm, *_ = self.sh(['nm', p2])
                    if 'yv_real_isa' in nm and 'yv_real_crc_isa' in nm: defs = ['-DHAVE_REAL_PLATFORM']
            hk = (tuple(defs), tuple(cflags), cxx) # the headers are the same in every build
            if hk not in self.hobj:
                ho = os.path.join(self.dir, 'harness%d.o' % len(self.hobj))
                rc, out, err, hung = self.sh([cxx, '-std=c++17', '-O1', '-g', '-w'] + defs + list(cflags) + ['-I' + d + '/src', '-c', '-o', ho, os.path.join(VERIF, 'harness/harness.cc')], timeout=600)
                self.hobj[hk] = (rc, out, err, ho)
            rc, out, err, ho = self.hobj[hk]
            if rc == 0: rc, out, err, hung = self.sh([cxx] + list(cflags) + (['-static'] if static else []) + ['-o', o, ho] + extra + objs + ['-Wl,--start-group'] + libs + ['-Wl,--end-group', '-lpthread'], timeout=600)
            if rc == 0: h = o
            else: self.note('the kernels of build %s do not have the interface the harness was written for; checked through the addon only (%s)' % (build, ' '.join(re.findall(r'(?:error|undefined reference)[^\n]*', out + err)[:2])[:300]))
        self.harnesses[key] = h
        return h
    def guard_files(self):
        g, f = os.path.join(self.dir, 'guard.node'), os.path.join(self.dir, 'fence.so')
        if not os.path.exists(f):
            for cmd in (['g++', '-O1', '-shared', '-fPIC', '-I/usr/include/node', '-o', g, VERIF + '/harness/guardbuf.cc'], ['g++', '-O1', '-shared', '-fPIC', '-o', f, VERIF + '/harness/fence.cc', '-ldl']):
                rc, out, err, _ = self.sh(cmd)
                if rc: raise CheckError('compiling the guard: ' + err[-1000:])
        return g, f

    # ---------------------------------------------------------------- stages
    def h_cmd(self, h, prop, mode, build, extra=(), pre=()):
        return list(pre) + [h, '--prop', prop, '--mode', mode, '--build', build, '--tmp', self.dir, '--replay-dir', REPLAYS] + list(extra)
    def h_stage(self, build, mode, cases, jobs=JOBS, extra=(), h=None, name=None, pre=(), env=None, timeout=3000, rec=None, prop=None):
        """one run of the harness"""
        self.go_on()
        h = h or self.harness(build)
        if not h: return False
        name = name or 'kernels %s (%s build)' % (mode, build); prop = prop or self.prop
        import zlib # other cases for every build and mode
        args = ['--seed', str(self.seed * 100003 + (zlib.crc32((build + mode).encode()) & 0xffffff if (build, mode) != ('default', 'cases') else 0)), '--cases', str(cases), '--jobs', str(jobs)] + list(extra)
        before = set(os.listdir(REPLAYS))
        def once():
            out = tempfile.mktemp(prefix='h', suffix='.json', dir=self.dir)
            rc, so, se, hung = self.sh(self.h_cmd(h, prop, mode, build, args + ['--out', out], pre), timeout=timeout, env=env)
            try: d = json.load(open(out))
            except Exception: d = None
            return rc, d, so + se, hung
        rc, d, txt, hung = once()
        if not hung and (rc == -9 or (rc == 3 and 'killed by signal 9' in txt)): wait_memory(); rc, d, txt, hung = once()
        if d: self.stage(name, d['evaluations'], d['distinct_nontrivial'], dict(d.get('classes', {}), **{'cases at level ' + k: v for k, v in d.get('per_level', {}).items()}), d.get('samples'))
        if rc == 0 and d: return True
        if rc == 1 and d and d['violations']:
            for v in d['violations'][:5]: self.violation(v['replay'], v['why'], v['case'])
            return True
        # no reproducible case: does the same run fail again?
        say(txt[-1500:])
        def bad(rc, d, txt): return (rc == 4 and d and d.get('unconfirmed')) or (rc in (3,) and re.search(r'killed by signal (?!9\b)', txt)) or (rc < 0 and rc != -9) or rc == 66 or rc >= 124
        if bad(rc, d, txt):
            rc2, d2, txt2, hung2 = once()
            if rc2 == 1 and d2 and d2['violations']:
                for v in d2['violations'][:5]: self.violation(v['replay'], v['why'], v['case'])
                return True
            if bad(rc2, d2, txt2):
                why = 'fails depending on earlier calls: ' + (d2['unconfirmed'][0]['why'] if rc2 == 4 else txt2[-300:] or 'status %d' % rc2)
                self.violation(self.write_replay(dict(rec or {}, kind='harness-run', prop=prop, build=build, mode=mode, args=args)), why, (d2 or {}).get('unconfirmed', [{}])[0].get('case', '') if rc2 == 4 else '')
                return True
            self.note('a failure of %s did not occur again' % name); return True
        self.error('%s: status %s%s: %s' % (name, rc, ' (time limit)' if hung else '', txt[-600:])); return True

    def js_cmd(self, d, args, guard=None):
        pre, env = ['node', '--expose-gc'], {}
        if guard: args = args + ['--guard', guard[0]]; env['LD_PRELOAD'] = guard[1]
        return pre + [os.path.join(VERIF, 'js/run.js'), '--repo', d] + args, env
    def js_replay(self, d, obj, guard, timeout=120):
        """runs one case; 'ok', 'fail', 'crash', 'hang'"""
        f = tempfile.mktemp(suffix='.json', dir=self.dir); json.dump(obj, open(f, 'w'))
        cmd, env = self.js_cmd(d, ['--replay', f], guard); rc, out, err, hung = self.sh(cmd, env=env, timeout=timeout); os.unlink(f)
        if hung: return 'hang', ''
        if rc == 0: return 'ok', ''
        if rc == 1: return 'fail', out
        if rc == -9: return 'killed', ''
        if rc < 0 or rc >= 128: return 'crash', 'killed by signal %d' % (-rc if rc < 0 else rc - 128)
        return 'error', out + err
    def shrink_crash(self, d, obj, guard):
        """shortens the buffers, strings and lists of a crashing case"""
        tries = [0]
        def crashes(o):
            tries[0] += 1; return tries[0] < 60 and self.js_replay(d, o, guard)[0] == 'crash'
        def paths(v, p=()):
            if isinstance(v, dict):
                if '$b' in v: yield p + ('$b',)
                else:
                    for k in v: yield from paths(v[k], p + (k,))
            elif isinstance(v, list):
                if len(v) > 1: yield p
                for i in range(len(v)): yield from paths(v[i], p + (i,))
        def get(v, p):
            for k in p: v = v[k]
            return v
        again = True
        while again and tries[0] < 60:
            again = False
            for p in list(paths(obj['value'])):
                try: x = get(obj['value'], p)
                except Exception: continue
                unit = 2 if isinstance(x, str) else 1; n = len(x) // unit
                for keep in ((0, n // 2), (n // 2, n), (0, n - 1), (1, n)):
                    if keep[1] - keep[0] >= n or n == 0: continue
                    o = json.loads(json.dumps(obj)); w = get(o['value'], p[:-1]) if p else None
                    y = x[keep[0] * unit:keep[1] * unit]
                    if w is None: o['value'] = y
                    else: w[p[-1]] = y
                    if crashes(o): obj = o; again = True; break
                if again: break
        return obj
    def js_shard(self, d, build, guard, scale, shard, shards, suite, stall, extra, name, timeout, prop, legacy=False):
        if self.enough(): return None
        tag = 'js-%s-%s-%d-%s' % (prop, build, shard, suite or 'all') + ('-g' if guard else '') + ('-l' if legacy else '')
        log, out = os.path.join(self.dir, tag + '.log'), os.path.join(self.dir, tag + '.json')
        import zlib
        args = ['--prop', prop, '--seed', str(self.seed if build == 'default' and not legacy else (self.seed * 100003 + zlib.crc32((build + ' legacy' * legacy).encode())) & 0x7fffffff), '--scale', str(scale), '--shard', '%d/%d' % (shard, shards), '--build', build]
        if suite: args += ['--suite', suite]
        if legacy: args += ['--legacy', '1']
        def once():
            for f in (log, out):
                if os.path.exists(f): os.unlink(f)
            cmd, env = self.js_cmd(d, args + ['--out', out, '--log', log, '--replay-dir', REPLAYS], guard); env.update(extra or {})
            rc, so, se, hung = self.sh(cmd, env=env, timeout=timeout, watch=log, watch_s=stall)
            try: res = json.load(open(out))
            except Exception: res = None
            try: case = json.loads(open(log).read().split('\n')[0])
            except Exception: case = None
            return rc, res, case, so + se, hung
        def good(rc, res):
            if not res: return False
            if rc == 0: return True
            if rc == 1:
                for v in res['violations']:
                    self.violation(v['replay'], v['suite'] + ': ' + v['why'], v['case'])
                return True
            return False
        rc, res, case, txt, hung = once()
        if good(rc, res): return res
        first = (rc, txt[-1200:], hung); say('  %s shard %d: status %s%s %s' % (name, shard, rc, ' stalled' if hung else '', txt[-800:]))
        rec = {'kind': 'js-run', 'prop': prop, 'build': build, 'args': args, 'guard': bool(guard)}
        def fromcase(rc, case, hung):
            if not case: return False
            case = dict(case, build=build, guard=bool(guard)); k = [self.js_replay(d, case, guard) for _ in range(3)] if not hung else [self.js_replay(d, case, guard, 120)]
            kinds = {x[0] for x in k}
            if kinds == {'crash'}:
                why = case.get('suite', '') + ': the process died, ' + k[0][1]; case = self.shrink_crash(d, case, guard); self.violation(self.write_replay(dict(case, why=why)), why, json.dumps(case.get('value'))[:400]); return True
            if kinds == {'hang'}: why = case.get('suite', '') + ': the call does not return (2 minutes)'; self.violation(self.write_replay(dict(case, why=why)), why, json.dumps(case.get('value'))[:400]); return True
            if kinds == {'fail'}: self.violation(self.write_replay(dict(case, why=k[0][1].strip())), case.get('suite', '') + ': ' + k[0][1].strip(), json.dumps(case.get('value'))[:400]); return True
            return False
        oom = 'heap out of memory' in txt or rc == -9 or 'Array buffer allocation failed' in txt
        if (hung or ((rc < 0 or rc >= 128) and not oom)) and fromcase(rc, case, hung): return res
        for _ in range(2):
            rc2, res2, case2, txt2, hung2 = once()
            if rc2 != -9 or hung2: break
            wait_memory() # ended for want of memory, twice
        if good(rc2, res2): 
            if rc2 == 0: self.note('%s shard %d: a failure (status %s) did not occur again: %s' % (name, shard, first[0], first[1][-300:]))
            return res2
        oom = 'heap out of memory' in txt2 or rc2 == -9 or 'Array buffer allocation failed' in txt2
        if (hung2 or ((rc2 < 0 or rc2 >= 128) and not oom)) and fromcase(rc2, case2, hung2): return res2
        if rc2 == 4 and res2 and any(u['why'] != 'generation gave up' for u in res2['unconfirmed']):
            u = res2['unconfirmed'][0]; self.violation(self.write_replay(rec), u['suite'] + ': fails depending on earlier calls: ' + str(u['why']), json.dumps(u.get('value'))[:400]); return res2
        if (rc2 < 0 or rc2 >= 128) and not oom and (rc < 0 or rc >= 128):
            self.violation(self.write_replay(rec), 'the process dies depending on earlier calls (signal %d twice)' % (-rc2 if rc2 < 0 else rc2 - 128), json.dumps(case2)[:400] if case2 else ''); return res2
        # an exception outside of a case, as when the module does not load
        if rc2 == 3 or (rc2 == 1 and not res2):
            self.error('%s shard %d: %s' % (name, shard, txt2[-800:])); return None
        self.error('%s shard %d: status %s%s: %s' % (name, shard, rc2, ' stalled' if hung2 else '', txt2[-800:])); return None
    def js_stage(self, scale, build='default', shards=JOBS, par=None, guard=False, suite=None, stall=60, extra=None, name=None, timeout=3000, only=None, prop=None, legacy=False):
        self.go_on()
        d = self.builds[build]; props = prop if isinstance(prop, list) else [prop or self.prop]; g = self.guard_files() if guard else None
        name = name or 'API%s (%s build)' % (' with guarded memory' if guard else '', build)
        seen, evals, cls, samples = set(), 0, {}, []
        with ThreadPoolExecutor(par or shards) as ex:
            for res in ex.map(lambda a: self.js_shard(d, build, g, scale, a[1], shards, suite, stall, extra, name, timeout, a[0], legacy), [(p, i) for p in props for i in (only if only is not None else range(shards))]):
                if not res: continue
                evals += res['evaluations']; seen.update(res['nontrivial']); samples += res['samples'][:2]
                for k, v in res['classes'].items(): cls[k] = cls.get(k, 0) + v
        self.stage(name, evals, len(seen), cls, samples)

# -------------------------------------------------------------------------------------------------- plans
import plans

def known():
    try: return json.load(open(os.path.join(VERIF, 'known-findings.json')))['findings']
    except FileNotFoundError: return []

def known_match(prop, v): return next((k for k in known() if k['property'] == prop and re.search(k['match'], v['why'] + '\n' + str(v['case']))), None)

def evidence(r, level, rule, assumptions, nviol, findings):
    ev = {'property': r.prop, 'tier': r.tier, 'seed': r.seed, 'level': level,
        'coverage': {'evaluations': r.evals, 'distinct_nontrivial': r.nontrivial, 'rule': rule, 'samples': r.samples or ['none'], 'stages': r.stages, 'classes': dict(sorted(r.classes.items())), 'notes': r.notes, 'known_findings_seen': findings},
        'assumptions': assumptions, 'wall_s': round(time.time() - r.t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True); f = os.path.join(VERIF, 'evidence', r.prop + '.json')
    with open(f + '.tmp', 'w') as h: json.dump(ev, h, indent=1); h.write('\n')
    os.replace(f + '.tmp', f)

def check(prop, tier, seed):
    P = plans.PLANS[prop]; r = Run(prop, tier, seed)
    signal.signal(signal.SIGTERM, lambda *a: (r.cleanup(), os._exit(2)))
    try:
        try: P['run'](r)
        except CheckError as e: r.error(str(e))
        except Enough: r.note('the rest was left out: violations were found')
        found, new = [], []
        for v in r.viols:
            k = known_match(prop, v)
            (found if k else new).append((v, k))
        for what in sorted({k['what'] for v, k in found}): print('KNOWN-FINDING: property=%s %s' % (prop, what))
        evidence(r, 'exploration', P['rule'], P['assumptions'], len(new), sorted({k['what'] for v, k in found}))
        print('%s: %d cases, %d distinct non-trivial, %d violations, %.0f s' % (prop, r.evals, r.nontrivial, len(new), time.time() - r.t0))
        if new:
            for v in {v['replay']: v for v, k in new}.values():
                print('VIOLATION property=%s replay=%s' % (prop, v['replay'])); print('  ' + str(v['why'])[:500].replace('\n', ' '))
            return 1
        if r.errors:
            print('ERROR of the check: ' + '; '.join(r.errors)[:3000]); return 2
        if not r.evals: print('ERROR: nothing was explored'); return 2
        return 0
    finally: r.cleanup()

def replay(path):
    """runs a replay file against the current tree; exit 1 if it still fails"""
    txt = open(path).read(); r = None
    try:
        if txt.startswith('harness '):
            h = dict(x.split('=', 1) for x in txt.split('\n')[0].split()[1:]); r = Run(h['prop'], 'quick', 1); P = plans.PLANS[h['prop']]
            hs = plans.replay_harness(r, h['build'])
            cmd = [hs, '--replay', os.path.abspath(path), '--tmp', r.dir] if not isinstance(hs, list) else hs + ['--replay', os.path.abspath(path), '--tmp', r.dir]
            rc, out, err, hung = r.sh(cmd + plans.cpuid_args(r, hs), timeout=900); print(out + err, end=''); rc = 1 if rc < 0 or hung else rc
        else:
            o = json.loads(txt); r = Run(o['prop'], 'quick', 1); b = o.get('build', 'default')
            if o.get('kind') == 'harness-run':
                hs = plans.replay_harness(r, b); out = os.path.join(r.dir, 'o.json')
                rc, so, se, hung = r.sh(r.h_cmd(hs, o['prop'], o['mode'], b, o['args'] + ['--out', out]), timeout=3000); print(so + se); rc = 0 if rc == 0 else 1
            elif o.get('kind') == 'special': rc = plans.replay_special(r, o)
            else:
                plans.build_variant(r, b); d = r.builds[b]; g = r.guard_files() if o.get('guard') else None
                if o.get('kind') == 'js-run':
                    cmd, env = r.js_cmd(d, o['args'] + ['--out', os.path.join(r.dir, 'o.json'), '--log', os.path.join(r.dir, 'l'), '--replay-dir', r.dir], g); rc, so, se, hung = r.sh(cmd, env=env, timeout=3000); print(so + se); rc = 0 if rc == 0 else 1
                else: k, why = r.js_replay(d, o, g, 120); print(k, why); rc = 0 if k == 'ok' else 2 if k == 'error' else 1
        return rc
    finally:
        if r: r.cleanup()

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay': sys.exit(replay(a[1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    seed = os.environ.get('VERIF_SEED', '1')
    seed = int(seed) & 0x7fffffff if re.fullmatch(r'-?\d+', seed) else int(hashlib.md5(seed.encode()).hexdigest()[:7], 16)
    sys.exit(check(a[0], 'thorough' if tier == 'thorough' else 'quick', seed))
if __name__ == '__main__': main()
