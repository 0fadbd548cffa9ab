"""Regenerates the encoding (LLVM IR) and the native replay binary from /repo's current sources."""
import os, subprocess, hashlib, tempfile, shutil, atexit, concurrent.futures as cf
import ir, vm

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HAR = os.path.join(HERE, 'harness')
CORE = ['amd_1', 'amd_2', 'amd_aat', 'amd_control', 'amd_defaults', 'amd_dump', 'amd_global', 'amd_info', 'amd_order',
        'amd_post_tree', 'amd_postorder', 'amd_preprocess', 'amd_valid', 'ldl', 'timer', 'Auxilary', 'qpSWIFT']

_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='irsym-')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, True))
    return _tmp


# what gcc accepts with a warning, clang has to accept too
LENIENT = ['-Wno-error=' + x for x in ('incompatible-function-pointer-types', 'int-conversion', 'implicit-function-declaration', 'implicit-int')]


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + (r.stderr or r.stdout)[-3000:])
    return r


def repo_sources():
    """all C sources of the library, from the working tree (new files included)"""
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.c'))


def srcpath(s):
    if s == 'CORE':
        return repo_sources()
    if s.startswith('/'):
        return [s]
    if s.startswith('h:'):
        return [os.path.join(HAR, s[2:])]
    return [os.path.join(REPO, s)]


def flags_for(cfg):
    f = ['-I' + HAR]
    f += [x.replace('$REPO', REPO).replace('$HAR', HAR) for x in cfg.get('cflags', [])]
    f += ['-I' + os.path.join(REPO, 'include')]
    return f


_irc = {}


def ircompile(src, flags):
    k = (src, tuple(flags))
    if k in _irc:
        return _irc[k]
    h = hashlib.md5(repr(k).encode()).hexdigest()[:12]
    out = os.path.join(tmp(), h + '.bc')
    sh(['clang', '-c', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-builtin',
        '-w', '-std=gnu11'] + LENIENT + ['-o', out, src] + flags)
    _irc[k] = out
    return out


_mods = {}


def module(cfg):
    """CModule for configuration cfg: harness + listed sources, linked, mem2reg"""
    srcs = []
    for s in cfg['sources']:
        srcs += srcpath(s)
    srcs += srcpath('h:' + cfg['harness'])
    fl = flags_for(cfg)
    k = (tuple(srcs), tuple(fl))
    if k in _mods:
        return _mods[k]
    with cf.ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda s: ircompile(s, fl), srcs))
    h = hashlib.md5(repr(k).encode()).hexdigest()[:12]
    out = os.path.join(tmp(), h + '.l.bc')
    sh(['llvm-link', '-o', out] + bcs)
    ll = os.path.join(tmp(), h + '.ll')
    sh(['opt', '-S', '-passes=mem2reg', out, '-o', ll])
    m = ir.parse(open(ll).read())
    cm = vm.CModule(m)
    _mods[k] = cm
    return cm


_nat = {}


def native(cfg, san):
    """replay binary; san in ('asan','msan','plain')"""
    srcs = []
    for s in cfg['sources']:
        srcs += srcpath(s)
    h = srcpath('h:' + cfg['harness'])[0]
    fl = flags_for(cfg) + cfg.get('ncflags', [])
    k = (tuple(srcs), h, tuple(fl), san, tuple(cfg.get('wrap', [])))
    if k in _nat:
        return _nat[k]
    d = tempfile.mkdtemp(prefix='n', dir=tmp())
    cc = 'clang'
    s = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero', '-fno-sanitize-recover=undefined'],
         'msan': ['-fsanitize=memory', '-DSYM_MSAN'], 'plain': []}[san]
    base = [cc, '-g', '-O1', '-ffp-contract=off', '-fno-builtin', '-fno-zero-initialized-in-bss', '-fno-common', '-w', '-std=gnu11', '-c'] + LENIENT + s + fl

    def one(src):
        o = os.path.join(d, hashlib.md5(src.encode()).hexdigest()[:10] + '.o')
        sh(base + ['-o', o, src])
        if san == 'plain' and src.startswith(REPO + '/'):
            subprocess.run(['objcopy', '--set-section-alignment', '.data=4096', '--rename-section', '.data=repodata', o])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs + [h, os.path.join(HAR, 'sym_native.c')]))
    exe = os.path.join(d, 'replay')
    wraps = ['malloc', 'free', 'calloc', 'realloc', 'printf', 'puts', 'putchar']
    sh([cc, '-g'] + s + ['-o', exe] + objs + ['-Wl,' + ','.join('--wrap=' + w for w in wraps + list(cfg.get('wrap', [])))] + cfg.get('ldflags', []) + ['-lm'])
    _nat[k] = exe
    return exe


def replay(cfg, inputs, san, outfile=None, mode=0, seed=0):
    """-> (reproduced, text)"""
    exe = native(cfg, san)
    f = outfile or os.path.join(tmp(), 'in.%d.txt' % os.getpid())
    with open(f, 'w') as fp:
        for k, v in cfg.get('env', {}).items():
            fp.write('$%s %s\n' % (k, v))
        for k, v in inputs.items():
            fp.write('%s %s\n' % (k, v if isinstance(v, (int, str)) else repr(float(v))))
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=98'
    env['MSAN_OPTIONS'] = 'exitcode=97'
    cmd = [exe, f] + ([str(mode), str(seed)] if mode else [])
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=30, errors='replace')
    except subprocess.TimeoutExpired:
        return True, 'native replay did not terminate within 30 s'
    txt = (r.stderr or '')[-2500:]
    if r.returncode == 77:
        return False, 'assumption not met natively: ' + txt
    return r.returncode != 0, 'exit %d\n%s' % (r.returncode, txt)
