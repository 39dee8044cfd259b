"""C23: the sources compiled for other CPU architectures, freestanding, and run under qemu's user-mode emulation (32-bit x86: natively)
by harness/cross/exec.cc; the driver is the ordinary harness with calls that go to that process (harness/remote.h)."""
import os, glob, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = '-O3 -std=c++17 -ffreestanding -fno-exceptions -fno-rtti -fno-stack-protector -fno-pic -fno-pie -fomit-frame-pointer -nostdinc++ -w -fno-threadsafe-statics'.split()
CLANG = ['clang++', '-nostdlibinc']; GCC = ['g++', '-nostdinc', '-fno-asynchronous-unwind-tables', '-m32']
V7 = '-march=armv7-a -mfloat-abi=hard -mfpu=vfpv3-d16 '; A64 = {'crc_arm': '-march=armv8-a+crc', 'crc_arm_pmull': '-march=armv8-a+crc+crypto'}
A32 = {'encoder_neon': '-mfpu=neon', 'decoder_neon': '-mfpu=neon', 'crc_arm': '-march=armv8-a+crc -mfpu=fp-armv8', 'crc_arm_pmull': '-march=armv8-a+crc+crypto -mfpu=crypto-neon-fp-armv8'}
def rv(n): return {'encoder_rvv': '-march=rv%dgcv' % n, 'decoder_rvv': '-march=rv%dgcv' % n, 'crc_riscv': '-march=rv%dgc_zbkc' % n}
AVX2 = '-mavx2 -mpopcnt -mbmi -mbmi2 -mlzcnt'; V512 = '-mavx512vbmi2 -mavx512vl -mavx512bw -mpopcnt -mbmi -mbmi2 -mlzcnt'
X86 = {'encoder_ssse3': '-mssse3', 'decoder_ssse3': '-mssse3', 'crc_folding': '-mssse3 -msse4.1 -mpclmul', 'encoder_avx': '-mavx -mpopcnt', 'decoder_avx': '-mavx -mpopcnt', 'encoder_avx2': AVX2, 'decoder_avx2': AVX2, 'crc_folding_256': '-mavx2 -mvpclmulqdq -mpclmul', 'encoder_vbmi2': V512, 'decoder_vbmi2': V512}
N64 = ('decoder_neon64',)
T = { # compiler, base flags, flags per source (as in binding.gyp), sources left out
    'a64': (CLANG + ['--target=aarch64-linux-gnu'], '', A64, ('decoder_neon',)),
    'a64be': (CLANG + ['--target=aarch64_be-linux-gnu'], '', A64, ('decoder_neon',)),
    'a32': (CLANG + ['--target=armv7a-linux-gnueabihf'], V7 + '-marm', A32, N64),
    't32': (CLANG + ['--target=armv7a-linux-gnueabihf'], V7 + '-mthumb', A32, N64),
    'rv64': (CLANG + ['--target=riscv64-linux-gnu'], '-mno-relax', rv(64), N64),
    'rv32': (CLANG + ['--target=riscv32-linux-gnu'], '-mno-relax', rv(32), N64),
    's390x': (CLANG + ['--target=s390x-linux-gnu'], '-march=z10', {}, N64),
    'ppc': (CLANG + ['--target=powerpc-linux-gnu'], '', {}, N64),
    'i386': (CLANG + ['--target=i686-linux-gnu'], '-msse2', X86, N64 + ('platform',)),
    'i386g': (GCC, '-msse2 -mstackrealign', X86, N64 + ('platform',)),
}
A64CPU = ['qemu-aarch64', '-cpu', 'max']; A32CPU = ['qemu-arm', '-cpu', 'max']
def rvcpu(bits, vlen, zbc=True): return ['qemu-riscv%d' % bits, '-cpu', 'rv%d,%s%s' % (bits, 'v=true,vlen=%d,' % vlen if vlen else 'v=false,', 'zbc=true' if zbc else 'zbc=false,zbkc=true')]
# mask, what the system reports as missing (see exec.cc): 1 vectors, 2 CRC instructions / Zbc and Zbkc, 4 PMULL / Zbc; 8: generic code
LEVELS = [('a64', A64CPU, 'a64', '0'), ('a64-nopmull', A64CPU, 'a64', '4'), ('a64-nocrc', A64CPU, 'a64', '2'), ('a64-scalar', A64CPU, 'a64', '7'),
    ('a64be-crc', ['qemu-aarch64_be', '-cpu', 'max'], 'a64be', '5'), ('a64be-scalar', ['qemu-aarch64_be', '-cpu', 'max'], 'a64be', '7'),
    ('a32', A32CPU, 'a32', '0'), ('a32-nopmull', A32CPU, 'a32', '4'), ('a32-nocrc', A32CPU, 'a32', '2'), ('a32-a9', ['qemu-arm', '-cpu', 'cortex-a9'], 'a32', '0'), ('a32-scalar', A32CPU, 'a32', '7'), ('t32', A32CPU, 't32', '0'), ('t32-nopmull', A32CPU, 't32', '4')]
for bits, vs in ((64, (128, 256, 512, 1024)), (32, (128, 256, 1024))): LEVELS += [('rv%d-%d' % (bits, v), rvcpu(bits, v, v != 256), 'rv%d' % bits, '4' if v == 256 else '0') for v in vs] + [('rv%d-scalar' % bits, ['qemu-riscv%d' % bits, '-cpu', 'rv%d,v=false,zbc=false' % bits], 'rv%d' % bits, '2'), ('rv%d-zbkc' % bits, rvcpu(bits, 0, False), 'rv%d' % bits, '4')]
LEVELS += [('s390x', ['qemu-s390x'], 's390x', '0'), ('ppc', ['qemu-ppc'], 'ppc', '0')]
for g in ('i386', 'i386g'): LEVELS += [(g + '-' + n, [], g, m, a, b) for n, m, a, b in (('generic', '8', '0', '0'), ('sse2', '0', '256', '0'), ('ssse3', '0', '512', '1'), ('sse41', '0', '769', '1'), ('avx', '0', '897', '1'), ('avx2', '0', '1027', '2'), ('avx3', '0', '1287', '2'), ('vbmi2', '0', '1543', '2'))]
NEEDS = {'ssse3': ('ssse3',), 'sse41': ('sse4_1', 'pclmulqdq', 'popcnt'), 'avx': ('avx', 'pclmulqdq', 'popcnt'), 'avx2': ('avx2', 'bmi1', 'bmi2', 'abm', 'vpclmulqdq'), 'avx3': ('avx512bw', 'avx512vl', 'vpclmulqdq'), 'vbmi2': ('avx512_vbmi2', 'avx512bw', 'avx512vl', 'vpclmulqdq')}

def build(r):
    """compiles every target; the levels that can be run here"""
    import check
    d = os.path.join(r.dir, 'cross')
    if os.path.isdir(d): return r.cross_levels
    os.makedirs(d); src = os.path.join(d, 'src'); shutil.copytree(os.path.join(check.REPO, 'src'), src); X = os.path.join(VERIF, 'harness/cross')
    rc, gi, *_ = r.sh(['gcc', '-print-file-name=include']); jobs = []
    stl = [x for d0 in sorted(glob.glob('/usr/include/c++/*'))[-1:] for e in (d0, '/usr/include/x86_64-linux-gnu/c++/' + os.path.basename(d0)) if os.path.isdir(e) for x in ('-idirafter', e)] # what of the C++ library needs no C library
    files = sorted(os.path.splitext(os.path.basename(f))[0] for f in glob.glob(src + '/*.cc')); files = [f for f in files if f != 'yencode' and not f.startswith('test')]
    for t, (cc, base, per, out) in T.items():
        os.makedirs(os.path.join(d, t)); inc = ['-isystem', X + '/include'] + (['-isystem', gi.strip()] if cc[0] == 'g++' else []) + stl
        for f in [f for f in files if f not in out] + ['@exec']:
            s = X + '/exec.cc' if f == '@exec' else os.path.join(src, f + '.cc')
            jobs.append((t, f, cc + COMMON + base.split() + per.get(f, '').split() + (['-fno-builtin'] if f == '@exec' else []) + inc + ['-I', src, '-c', s, '-o', os.path.join(d, t, f + '.o')]))
    bad = {}
    def one(j):
        rc, so, se, hung = r.sh(j[2], timeout=300)
        if rc: bad.setdefault(j[0], '%s: %s' % (j[1], (so + se)[:400]))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
    for t in T:
        if t in bad: continue
        link = ['ld', '-m', 'elf_i386'] if t == 'i386g' else ['ld.lld']
        rc, so, se, hung = r.sh(link + ['-static', '-o', os.path.join(d, t + '.exe')] + sorted(glob.glob(os.path.join(d, t, '*.o'))))
        if rc: bad[t] = 'linking: ' + (so + se)[:400]
    for t, why in sorted(bad.items()): r.note('target %s is left out: %s' % (t, why))
    try: cpu = set(next(l for l in open('/proc/cpuinfo') if l.startswith('flags')).split())
    except Exception: cpu = set()
    levels = []
    for l in LEVELS:
        if l[2] in bad: continue
        if l[1] and not shutil.which(l[1][0]): r.note('level %s is left out: no %s' % (l[0], l[1][0])); continue
        if not l[1] and any(f not in cpu for f in NEEDS.get(l[0].split('-')[1], ())): r.note('level %s is left out: this CPU lacks it' % l[0]); continue
        cmd = l[1] + [os.path.join(d, l[2] + '.exe'), l[3], '@size'] + list(l[4:])
        levels.append('%s=%s' % (l[0], '|'.join(cmd)))
    r.cross_levels = levels
    return levels
def driver(r):
    rh = os.path.join(r.dir, 'rh')
    if not os.path.exists(rh):
        rc, so, se, hung = r.sh(['g++', '-O2', '-std=c++17', '-w', '-DREMOTE', '-o', rh, os.path.join(VERIF, 'harness/harness.cc'), '-lpthread'], timeout=300)
        if rc: import check; raise check.CheckError('compiling the driver: ' + se[-1000:])
    return rh
def remotes(levels): return [x for l in levels for x in ('--remote', l)]
def replay_harness(r, name): return [driver(r)] + remotes(build(r))
def run(r):
    levels = build(r); r.classes['levels (architecture, CPU, features)'] = len(levels)
    if len(levels) < 10: r.error('too few of the architectures could be built: ' + '; '.join(r.notes)[:1500])
    if levels: r.h_stage('cross-all', 'cases', 500000 if r.thorough else 50000, h=driver(r), extra=remotes(levels), name='kernels of other architectures')
