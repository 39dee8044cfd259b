#!/usr/bin/env python3
"""tryseed.py ID... : for each /verif/seeded/ID, in a scratch copy of /repo that is mounted over /repo in a namespace of its own:
demo on the unchanged tree, git apply, build, tests, demo with the patch, then the property's quick check. -t: skip the tests; -c: only the check; -p C01,C02: other checks too"""
import sys, os, json, subprocess, shutil, time, re
from concurrent.futures import ThreadPoolExecutor
V = '/verif'; args = sys.argv[1:]
skip_tests = '-t' in args; only_check = '-c' in args; no_check = '-n' in args; more = []; par = 2
if '-p' in args: i = args.index('-p'); more = args[i + 1].split(','); del args[i:i + 2]
if '-j' in args: i = args.index('-j'); par = int(args[i + 1]); del args[i:i + 2]
tier = 'quick'
if '-T' in args: args.remove('-T'); tier = 'thorough'
ids = [a for a in args if not a.startswith('-')]
BASE = '4b5f0db'
def run(i):
    s = V + '/seeded/' + i; meta = json.load(open(s + '/meta.json')); d = '/tmp/s/' + i; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/demo'); os.makedirs(d + '/tmp')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    for f in os.listdir(s):
        if not re.search(r'\.(diff|patch)$|^meta\.json$', f): shutil.copy2(s + '/' + f, d + '/demo/' + f)
    def ns(cmd, log, timeout=1000, env=None):
        e = dict(os.environ); e.update(env or {})
        with open(d + '/' + log, 'w') as h:
            try: return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo && cd /repo && %s' % (d, cmd)], stdout=h, stderr=h, stdin=subprocess.DEVNULL, timeout=timeout, env=e).returncode
            except subprocess.TimeoutExpired: return 'timeout'
    r = {'id': i, 'property': meta['property']}
    if not only_check:
        r['demo_before'] = ns('bash %s/demo/demo.sh' % d, 'demo0.log', 300)
    if ns('git apply %s/patch.diff' % s, 'apply.log'): r['apply'] = open(d + '/apply.log').read(); return r
    bl = subprocess.run(['git', '-C', '/repo', 'diff', '--stat', '--name-only'], capture_output=True, text=True).stdout
    # do the removed lines come from the original repository?
    cur, ln, mine = None, 0, []
    for l in open(s + '/patch.diff'):
        if l.startswith('--- a/'): cur = l[6:].strip()
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', cur], capture_output=True, text=True).stdout
            if BASE[:7] not in b.split(' ')[0]: mine.append(b.strip())
            ln += 1
        elif l.startswith(' '): ln += 1
    if mine: r['lines_of_my_commits'] = mine
    if ns('bash /opt/vp/build.sh', 'build.log'): r['build'] = open(d + '/build.log').read()[-800:]; return r
    if not only_check:
        r['demo_after'] = ns('bash %s/demo/demo.sh' % d, 'demo1.log', 300)
        if not skip_tests:
            ns('bash /opt/vp/test.sh %s/o.json' % d, 'test.log')
            o = json.load(open(d + '/o.json')); base = json.load(open('/opt/vp/BASELINE.json')); stable = base.get('stable') or base.get('passed') or base
            r['tests_lost'] = [t for t in stable if t not in set(o['passed'])][:10]
    if not no_check:
        for p in [meta['property']] + more:
            t = time.time(); rc = ns('python3 /verif/bin/check.py %s --tier %s' % (p, tier), 'check-%s.log' % p, env={'VERIF_TMP': d + '/tmp', 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')}); txt = open(d + '/check-%s.log' % p).read()
            r['check ' + p] = '%s %s %.0fs' % (rc, 'CAUGHT' if rc == 1 and 'VIOLATION property=%s ' % p in txt else 'missed', time.time() - t)
    r['ok'] = r.get('demo_before', 0) == 0 and r.get('demo_after', 1) not in (0, 'timeout') and not r.get('tests_lost') and not mine
    if r['ok']: shutil.rmtree(d + '/repo', ignore_errors=True)
    print(json.dumps(r), flush=True); return r
os.makedirs('/tmp/s', exist_ok=True)
with ThreadPoolExecutor(par) as ex:
    for r in ex.map(run, ids):
        if 'ok' not in r: print(json.dumps(r), flush=True)
