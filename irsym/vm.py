"""Symbolic virtual machine for the parsed LLVM IR.  One State executes one path (decision prefix)."""
import re, math, struct, hashlib, random, time
from fractions import Fraction
import ir
import sym
from sym import Poly, Cond, UNDEF, Unsupported, rel, cand, cor, cnot, cxor

M63 = 1 << 63


class PathEnd(Exception):
    def __init__(s, why):
        s.why = why


Violation = sym.Violation


class MergeAbort(Exception):
    pass


class SymThrow(Exception):
    pass


def single(v):
    try:
        return struct.unpack('<f', struct.pack('<f', v))[0]
    except OverflowError:
        return math.inf if v > 0 else -math.inf


class Obj:
    __slots__ = ('name', 'size', 'c', 'kind', 'alive', 'zero', 'ro', 'fn', 'id')

    def __init__(s, name, size, kind, zero=False):
        s.name, s.size, s.kind, s.zero = name, size, kind, zero
        s.c = {}
        s.alive = True
        s.ro = False
        s.fn = None
        s.id = 0

    def __repr__(s):
        return '<%s %s[%d]>' % (s.kind, s.name, s.size)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(s, o, off):
        s.o = o
        s.off = off

    def __repr__(s):
        return 'Ptr(%r,%r)' % (s.o, s.off)


NULL = Ptr(None, 0)


def wrap(v, w):
    h = 1 << (w - 1)
    return ((v + h) & ((1 << w) - 1)) - h


def f2i(f):
    return struct.unpack('<q', struct.pack('<d', f))[0]


def i2f(i):
    return struct.unpack('<d', struct.pack('<q', wrap(i, 64)))[0]


def kindof(t):
    return {'int': 'i', 'double': 'f', 'float': 'g', 'ptr': 'p', 'x86_fp80': 'x'}.get(t.k)


# ---------------------------------------------------------------------------------------------- compile

class CFn:
    """compiled function"""

    def __init__(s, mod, f):
        s.name = f.name
        s.mod = mod
        s.f = f
        s.regs = {}
        s.np = len(f.params)
        for t, n in f.params:
            s.reg(n)
        s.bi = {b: i for i, b in enumerate(f.order)}
        s.n = len(f.order)
        s.succ = []
        s.edges = {}       # (prev,blk) -> list[(dst, operand-expr)]
        s.phis = [[] for _ in range(s.n)]
        s.code = []
        s.src = []
        s.ninst = 0
        s._ipdom = None
        s._live = None
        s.uses = [set() for _ in range(s.n)]
        s.defs = [set() for _ in range(s.n)]
        s.phiuse = {}
        ns = {'Ptr': Ptr, 'NULL': NULL, 'UNDEF': UNDEF, 'Poly': Poly, 'M63': M63, 'G': None, 'math': math,
              'nan': float('nan'), 'inf': float('inf')}
        s.ns = ns
        txt = []
        for i, b in enumerate(f.order):
            txt.append(s.genblock(i, b))
        ns['K'] = s.K = []
        s.src = '\n'.join(txt)
        exec(compile(s.src, '<ir:%s>' % s.name, 'exec'), ns)
        s.code = [ns['b%d' % i] for i in range(s.n)]
        # compile edges
        for (p, b), lst in list(s.edges.items()):
            fn = 'lambda R,G: (%s,)' % ','.join(e for _, e in lst)
            s.edges[(p, b)] = ([d for d, _ in lst], eval(fn, ns))

    def reg(s, n):
        r = s.regs.get(n)
        if r is None:
            r = s.regs[n] = len(s.regs)
        return r

    def ce(s, v, ty):
        """constant/operand expression text"""
        k = v[0]
        if k == 'r':
            r = s.reg(v[1])
            if s.cur is not None and r not in s.defs[s.cur]:
                s.uses[s.cur].add(r)
            return 'R[%d]' % r
        if k == 'c':
            c = v[1]
            if type(c) is float:
                return 'nan' if c != c else repr(c) if abs(c) != math.inf else ('inf' if c > 0 else '(-inf)')
            if type(c) is bool:
                return repr(c)
            if ty is not None and ty.k == 'int' and ty.n == 1:
                return repr(bool(c))
            return repr(c) if c >= 0 else '(%d)' % c
        if k == 'null':
            return 'NULL'
        if k == 'undef':
            return 'UNDEF'
        if k == 'zero':
            return {'int': '0', 'double': '0.0', 'float': '0.0', 'ptr': 'NULL'}[ty.k]
        if k == 'g':
            return 'Ptr(G[%r],0)' % v[1]
        if k == 'gep':
            g, off = constgep(v)
            return 'Ptr(G[%r],%d)' % (g, off) if g else 'Ptr(None,%d)' % off
        raise Unsupported('operand ' + str(v)[:80])

    def genblock(s, i, b):
        s.cur = i
        L = ['def b%d(R,S,G):' % i]
        insts = s.f.blocks[b]
        s.ninst += len(insts)
        succ = []
        for x in insts:
            op = x.op
            E = lambda k, t=None: s.ce(x.a[k], t or x.ty)
            if op == 'phi':
                d = s.reg(x.dst)
                s.phis[i].append(d)
                s.defs[i].add(d)
                sv = s.cur
                s.cur = None
                for v, pb in x.x:
                    s.edges.setdefault((s.bi[pb], i), []).append((d, s.ce(v, x.ty)))
                    if v[0] == 'r':
                        s.phiuse.setdefault((s.bi[pb], i), set()).add(s.reg(v[1]))
                s.cur = sv
                continue
            if op in ('add', 'sub', 'mul'):
                w = x.ty.n
                a, c = E(0), E(1)
                o = {'add': '+', 'sub': '-', 'mul': '*'}[op]
                d = s.reg(x.dst)
                if w == 1:
                    L.append(' R[%d]=S.bin(%r,%s,%s,1,0)' % (d, op, a, c))
                else:
                    tst = ' and '.join('type(%s) is int' % q for q in (a, c) if q[0] == 'R')
                    h = 1 << (w - 1)
                    nsw = 1 if 'nsw' in x.flags else 0
                    L.append(' if %s:' % (tst or 'True'))
                    L.append('  r=%s%s%s' % (a, o, c))
                    L.append('  R[%d]=r if -%d<=r<%d else S.ovf(r,%d,%d)' % (d, h, h, w, nsw))
                    if tst:
                        L.append(' else: R[%d]=S.bin(%r,%s,%s,%d,%d)' % (d, op, a, c, w, nsw))
            elif op in ('sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
                L.append(' R[%d]=S.bin(%r,%s,%s,%d,0)' % (s.reg(x.dst), op, E(0), E(1), x.ty.n))
            elif op in ('fadd', 'fsub', 'fmul'):
                a, c = E(0), E(1)
                o = {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op]
                d = s.reg(x.dst)
                tst = ' and '.join('type(%s) is float' % q for q in (a, c) if q[0] == 'R')
                L.append(' if %s: R[%d]=%s%s%s' % (tst or 'True', d, a, o, c))
                if tst:
                    L.append(' else: R[%d]=S.fop(%r,%s,%s)' % (d, op, a, c))
            elif op in ('fdiv', 'frem'):
                L.append(' R[%d]=S.fop(%r,%s,%s)' % (s.reg(x.dst), op, E(0), E(1)))
            elif op == 'fneg':
                L.append(' R[%d]=-%s' % (s.reg(x.dst), E(0)))
            elif op == 'freeze':
                L.append(' R[%d]=%s' % (s.reg(x.dst), E(0)))
            elif op == 'icmp':
                a, c = E(0), E(1)
                d = s.reg(x.dst)
                if x.ty.k == 'int' and x.x in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge') and x.ty.n > 1:
                    o = {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[x.x]
                    tst = ' and '.join('type(%s) is int' % q for q in (a, c) if q[0] == 'R')
                    L.append(' if %s: R[%d]=%s%s%s' % (tst or 'True', d, a, o, c))
                    if tst:
                        L.append(' else: R[%d]=S.icmp(%r,%s,%s,%d)' % (d, x.x, a, c, x.ty.n))
                else:
                    L.append(' R[%d]=S.icmp(%r,%s,%s,%d)' % (d, x.x, a, c, x.ty.n if x.ty.k == 'int' else 64))
            elif op == 'fcmp':
                L.append(' R[%d]=S.fcmp(%r,%s,%s)' % (s.reg(x.dst), x.x, E(0), E(1)))
            elif op in ('trunc', 'zext', 'sext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc',
                        'bitcast', 'ptrtoint', 'inttoptr'):
                st = x.x
                if op in ('zext', 'sext') and st.n > 1:
                    a = s.ce(x.a[0], st)
                    if op == 'sext':
                        L.append(' R[%d]=%s' % (s.reg(x.dst), a))
                    else:
                        L.append(' r=%s' % a)
                        L.append(' R[%d]=r if type(r) is int and r>=0 else S.cast(%r,r,%d,%d)' % (s.reg(x.dst), op, st.n, x.ty.n))
                else:
                    sn = st.n if st.k == 'int' else (8 * st.size())
                    dn = x.ty.n if x.ty.k == 'int' else 8 * x.ty.size()
                    if op == 'bitcast':
                        op = 'bitcast_%s_%s' % (kindof(st), kindof(x.ty))
                    L.append(' R[%d]=S.cast(%r,%s,%d,%d)' % (s.reg(x.dst), op, s.ce(x.a[0], st), sn, dn))
            elif op == 'alloca':
                cnt = s.ce(x.x, ir.INT(64)) if x.x else '1'
                L.append(' R[%d]=S.alloca(%r,%d,%s)' % (s.reg(x.dst), s.name + x.dst, x.ty.size(), cnt))
            elif op == 'load':
                kd = kindof(x.ty)
                if kd is None:
                    raise Unsupported('load of ' + x.ty.k)
                if kd == 'i' and x.ty.n == 1:
                    kd = 'b'
                if kd == 'i' and x.ty.n == 8:
                    L.append(' R[%d]=S.load(%s,1,"i")' % (s.reg(x.dst), E(0)))
                else:
                    L.append(' R[%d]=S.load(%s,%d,%r)' % (s.reg(x.dst), E(0), x.ty.size(), kd))
            elif op == 'store':
                kd = kindof(x.ty)
                if kd is None:
                    if x.a[0][0] == 'zero':
                        L.append(' S.memset(%s,0,%d)' % (s.ce(x.a[1], None), x.ty.size()))
                    else:
                        raise Unsupported('store of ' + x.ty.k)
                else:
                    L.append(' S.store(%s,%s,%d)' % (s.ce(x.a[1], None), E(0), x.ty.size()))
            elif op == 'getelementptr':
                L.append(' p=%s' % s.ce(x.a[0], None))
                off, dyn = s.gep(x.ty, x.x)
                e = 'p.off' + ('+%d' % off if off > 0 else '-%d' % -off if off < 0 else '')
                for sc, ie in dyn:
                    e += '+%s*%d' % (ie, sc) if sc != 1 else '+%s' % ie
                L.append(' R[%d]=Ptr(p.o,%s) if type(p) is Ptr else S.badptr(p)' % (s.reg(x.dst), e))
            elif op == 'select':
                c = s.ce(x.a[0], ir.INT(1))
                a, b2 = E(1), E(2)
                d = s.reg(x.dst)
                L.append(' r=%s' % c)
                L.append(' R[%d]=%s if r is True else %s if r is False else S.select(r,%s,%s)' % (d, a, b2, a, b2))
            elif op == 'call':
                args = []
                for t, v in x.a:
                    args.append(s.ce(v, t))
                if x.x[0] == 'g':
                    nm = x.x[1]
                    if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm == 'llvm.assume':
                        continue
                    # linker-style wrapping: a harness may define __wrap_F and reach the real F as __real_F
                    if nm.startswith('__real_'):
                        nm = nm[7:]
                    elif '__wrap_' + nm in s.mod.m.fns and not s.name.startswith('__wrap_'):
                        nm = '__wrap_' + nm
                    call = 'S.call(%r,[%s])' % (nm, ','.join(args))
                else:
                    call = 'S.icall(%s,[%s])' % (s.ce(x.x, None), ','.join(args))
                if x.dst:
                    L.append(' R[%d]=%s' % (s.reg(x.dst), call))
                else:
                    L.append(' ' + call)
            elif op == 'extractvalue':
                L.append(' R[%d]=S.extract(%s,%r)' % (s.reg(x.dst), E(0), x.x))
            elif op == 'jmp':
                t = s.bi[x.x]
                succ = [t]
                L.append(' return %d' % t)
            elif op == 'br':
                a, b2 = s.bi[x.x[0]], s.bi[x.x[1]]
                succ = [a, b2]
                c = s.ce(x.a[0], ir.INT(1))
                L.append(' r=%s' % c)
                L.append(' return %d if r is True else %d if r is False else (r,%d,%d)' % (a, b2, a, b2))
            elif op == 'switch':
                d, cs = x.x
                succ = [s.bi[d]] + [s.bi[z] for _, z in cs]
                L.append(' return S.switch(%s,%d,%r)' % (s.ce(x.a[0], x.ty), s.bi[d], [(c, s.bi[z]) for c, z in cs]))
            elif op == 'ret':
                if x.a:
                    L.append(' S.rv=%s' % E(0))
                else:
                    L.append(' S.rv=None')
                L.append(' return -1')
            elif op == 'unreachable':
                L.append(' raise S.unreach(%r)' % s.name)
            else:
                raise Unsupported('instruction ' + op)
            if x.dst and op != 'phi':
                s.defs[i].add(s.reg(x.dst))
        s.succ.append(succ)
        s.cur = None
        return '\n'.join(L)

    def gep(s, bt, idx):
        off = 0
        dyn = []
        t = None
        for k, (it, v) in enumerate(idx):
            if k == 0:
                sz = bt.size()
                cur = bt
            elif cur.k == 'array':
                cur = cur.el
                sz = cur.size()
            elif cur.k == 'struct':
                f = v[1]
                off += cur.offs()[f]
                cur = cur.el[f]
                continue
            else:
                raise Unsupported('gep')
            if v[0] == 'c':
                off += v[1] * sz
            elif v[0] == 'zero':
                pass
            else:
                dyn.append((sz, s.ce(v, it)))
        return off, dyn

    # ---- analyses for state merging
    def ipdom(s):
        if s._ipdom is None:
            n = s.n
            full = (1 << (n + 1)) - 1
            pd = [full] * (n + 1)
            pd[n] = 1 << n
            ch = True
            while ch:
                ch = False
                for b in range(n - 1, -1, -1):
                    su = s.succ[b] or [n]
                    v = full
                    for t in su:
                        v &= pd[t]
                    v |= 1 << b
                    if v != pd[b]:
                        pd[b] = v
                        ch = True
            ip = []
            for b in range(n):
                cand_ = pd[b] & ~(1 << b)
                # immediate: the candidate whose own pdom set equals cand_
                r = None
                for c in range(n + 1):
                    if cand_ >> c & 1 and pd[c] == cand_:
                        r = c
                        break
                ip.append(r)
            s._ipdom = ip
        return s._ipdom

    def live_in(s, b):
        if s._live is None:
            n = s.n
            li = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for i in range(n - 1, -1, -1):
                    out = set()
                    for t in s.succ[i]:
                        out |= (li[t] - set(s.phis[t]))
                        out |= s.phiuse.get((i, t), set())
                    v = s.uses[i] | (out - s.defs[i])
                    if v != li[i]:
                        li[i] = v
                        ch = True
            s._live = li
        return s._live[b]


def constgep(v):
    bt, ops = v[1], v[2]
    base = ops[0][1]
    off = 0
    if base[0] == 'gep':
        g, off = constgep(base)
    elif base[0] == 'g':
        g = base[1]
    else:
        g = None
    cur = None
    for k, (it, iv) in enumerate(ops[1:]):
        c = iv[1] if iv[0] == 'c' else 0
        if k == 0:
            off += c * bt.size()
            cur = bt
        elif cur.k == 'array':
            cur = cur.el
            off += c * cur.size()
        elif cur.k == 'struct':
            off += cur.offs()[c]
            cur = cur.el[c]
    return g, off


class CModule:
    def __init__(s, mod):
        s.m = mod
        s.fns = {}

    def fn(s, name):
        f = s.fns.get(name)
        if f is None and name in s.m.fns:
            f = s.fns[name] = CFn(s, s.m.fns[name])
        return f


# ---------------------------------------------------------------------------------------------- state

class Restart(Exception):
    def __init__(s, prefix):
        s.prefix = prefix


class State:
    def __init__(s, cm, prefix, cfg, stats):
        s.cm = cm
        s.cfg = cfg
        s.ctx = sym.Ctx(cfg.get('cut', 120))
        sym.setctx(s.ctx)
        s.sol = sym.Solver(s.ctx, stats)
        s.prefix, s.wov = prefix if type(prefix) is tuple else (prefix, {})
        s.pos = 0
        s.trace = []
        s.pending = []
        s.jr = None
        s.guards = 0
        s.rv = None
        s.merge = cfg.get('merge', 0)
        s.follow = 0
        s.steps = 0
        s.maxsteps = cfg.get('maxsteps', 3000000)
        s.viol = []
        s.reached = {}
        s.nchecks = 0
        s.inconcl = []
        s.heap = []
        s.nalloc = 0
        s.inputs = {}
        s.env = cfg.get('env', {})
        s.out = []
        s.frames = []
        s.fnseen = {}
        s.assumed = 0
        s.seed = cfg.get('wseed', 1)
        s.protected = []
        s.qt = cfg.get('qtimeout', 4.0)
        s.ft = cfg.get('ftimeout', 0.7)
        s.globals = {}
        s.failalloc = None
        s.clock = 1000.0
        s.G = s
        s.restarts = 0
        s.npin = 0
        s.followfns = set(cfg.get('followfns', ()))
        s.exact = cfg.get('exact', 0)
        s.round = cfg.get('round', 0)
        s.opaque = set(cfg.get('opaque', ()))
        s.rsteps = 0

    # globals dictionary protocol used by generated code: G['name'] -> Obj
    def __getitem__(s, name):
        o = s.globals.get(name)
        if o is None:
            o = s.mkglobal(name)
        return o

    def mkglobal(s, name):
        m = s.cm.m
        if name in m.globals:
            t, init, const, ext = m.globals[name]
            if init is not None and init[0] == 'alias':
                v = init[1]
                o = s[v[1]]
                s.globals[name] = o
                return o
            try:
                size = t.size()
            except ir.IRError:
                size = 1 << 20
            o = Obj('@' + name, size, 'global', zero=not ext)
            s.globals[name] = o
            o.ro = const
            if init is not None:
                s.initcells(o, 0, t, init)
            return o
        o = Obj('@' + name, 1, 'func')
        o.fn = name
        s.globals[name] = o
        return o

    def initcells(s, o, off, t, v):
        k = v[0]
        if k in ('zero', 'undef'):
            return
        if k == 'str':
            for i, ch in enumerate(v[1]):
                if ch:
                    o.c[off + i] = (1, ch if ch < 128 else ch - 256)
            return
        if k == 'agg':
            if t.k == 'array':
                for i, (et, ev) in enumerate(v[1]):
                    s.initcells(o, off + i * t.el.size(), et, ev)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    s.initcells(o, off + t.offs()[i], et, ev)
            return
        if k == 'c':
            val = v[1]
            if type(val) is bool:
                val = int(val)
            if t.k == 'int':
                val = wrap(val, t.n)
            o.c[off] = (t.size(), val)
        elif k == 'null':
            o.c[off] = (8, NULL)
        elif k == 'g':
            o.c[off] = (8, Ptr(s[v[1]], 0))
        elif k == 'gep':
            g, of = constgep(v)
            o.c[off] = (8, Ptr(s[g] if g else None, of))
        else:
            raise Unsupported('init ' + k)

    # ------------------------------------------------------------------ decisions
    def decide(s, opts):
        """opts: callable producing (choice, [alternatives]) when exploring; recorded for replay"""
        if s.pos < len(s.prefix):
            c = s.prefix[s.pos]
            s.pos += 1
            s.trace.append(c)
            return c
        s.altm = None
        c, alts = opts()
        for a in alts:
            s.pending.append((s.trace + [a], dict(s.wov, **s.altm) if s.altm else s.wov))
        s.trace.append(c)
        s.pos += 1
        return c

    def isthin(s, cond):
        return False

    def fork(s, cond):
        """decide a symbolic branch condition; returns bool and extends the path condition"""
        h = s.sol.holds(cond)
        if h is not None:
            return h
        if s.jr is not None:
            # inside a merge region: only forced outcomes are allowed
            if s.sol.check([cond], s.ft) == 'unsat':
                return False
            if s.sol.check([cnot(cond)], s.ft) == 'unsat':
                return True
            raise MergeAbort('fork')
        if s.follow and any(not s.ctx.atoms[a].isint or s.ctx.atoms[a].kind == 'ite' for a in cond.atoms):
            c = s.decide(lambda: (bool(cond.wit), []))
            s.sol.add(cond if c else cnot(cond))
            s.assumed += 1
            return c

        def opts():
            ft = s.ft
            w = bool(cond.wit)
            wc, ac = (cond, cnot(cond)) if w else (cnot(cond), cond)
            if not s.sol.witok:
                if s.sol.check([wc], ft) == 'unsat':
                    return not w, []
            r, m = s.sol.check([ac], ft, want_model=True)
            if r == 'unsat':
                return w, []
            s.altm = m
            return w, [not w]
        c = s.decide(opts)
        s.sol.add(cond if c else cnot(cond))
        return c

    def ftoi(s, v):
        """truncation towards zero of a symbolic real"""
        if type(v) is not Poly:
            raise Unsupported('fptosi of %r' % (v,))
        key = ('fti', v.key())
        r = s.ctx.cutmemo.get(key)
        if r is not None:
            return r
        c = rel(v, '<')
        neg = c if isinstance(c, bool) else s.fork(c)
        w = v.wit()
        if not (abs(w) < 2.0 ** 62):
            raise Unsupported('fptosi out of range')
        a = s.ctx.fresh('k', True, 'cut', int(w))
        if neg:
            a.hi = 0
            a.defs = lambda: [a.z >= v.z(), a.z < v.z() + 1]
        else:
            a.lo = 0
            a.defs = lambda: [a.z <= v.z(), v.z() < a.z + 1]
        a.deps = v.atoms()
        r = s.ctx.cutmemo[key] = sym.avar(a)
        return r

    def conc(s, v):
        """concretise a symbolic int by forking over feasible values"""
        if type(v) is int:
            return v
        if v is UNDEF:
            raise Violation('uninit', 'use of an uninitialised value')
        if type(v) is not Poly:
            raise Unsupported('concretise %r' % (v,))
        if v.real:
            raise Unsupported('concretise a real')
        while True:
            hint = v.wit()
            if hint != hint:
                hint = 0
            def opts():
                r = 'sat' if s.sol.witok else s.sol.check([rel(v - int(hint), '==')] if not isinstance(rel(v - int(hint), '=='), bool) else [], s.ft)
                if r == 'sat' and not isinstance(rel(v - int(hint), '=='), bool):
                    val = int(hint)
                else:
                    val = s.feasible_value(v)
                c = rel(v - val, '==')
                if c is True:
                    return ('v', val), []
                r, m = s.sol.check([cnot(c)], s.ft, want_model=True)
                if r == 'unsat':
                    return ('v', val), []
                s.altm = m
                return ('v', val), [('n', val)]
            if s.jr is not None:
                # forced only
                val = s.feasible_value(v)
                c = rel(v - val, '==')
                if c is True or s.sol.check([cnot(c)], s.ft) == 'unsat':
                    return val
                raise MergeAbort('conc')
            d = s.decide(opts)
            c = rel(v - d[1], '==')
            if d[0] == 'v':
                s.sol.add(c)
                return d[1]
            s.sol.add(cnot(c))
            if s.sol.check([], s.ft) == 'unsat':
                raise PathEnd('infeasible')

    def feasible_value(s, v):
        # use a z3 model of the path condition
        fs, seen = s.sol.formula([Cond(sym.z3.BoolVal(True), frozenset(v.atoms()), True, ('t',))])
        r, sol = s.sol._run(fs, 5.0)
        if str(r) != 'sat':
            if str(r) == 'unsat':
                raise PathEnd('infeasible')
            raise Unsupported('no model for concretisation')
        x = sol.model().eval(v.z(), model_completion=True)
        return x.as_long()

    # ------------------------------------------------------------------ ints
    def ovf(s, r, w, nsw):
        if nsw:
            raise Violation('overflow', 'signed integer overflow')
        return wrap(r, w)

    def fit(s, p, w, nsw):
        if type(p) is not Poly:
            h = 1 << (w - 1)
            return p if -h <= p < h else s.ovf(p, w, nsw)
        lo, hi = p.bounds()
        h = 1 << (w - 1)
        if lo is not None and hi is not None and lo >= -h and hi < h:
            return p
        c = cor(rel(p + h, '<'), rel(h - 1 - p, '<'))
        if c is False or (c is not True and s.sol.check([c], s.ft) == 'unsat'):
            return p
        if nsw:
            s.flag(Violation('overflow', 'signed integer overflow', [c]))
            s.assume(cnot(c))
            return p
        return wrap(s.conc(p), w)

    def bin(s, op, a, b, w, nsw):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if w == 1:
            if op == 'xor':
                return cxor(s.tob(a), s.tob(b))
            if op == 'and' or op == 'mul':
                return cand(s.tob(a), s.tob(b))
            if op == 'or':
                return cor(s.tob(a), s.tob(b))
            if op == 'add' or op == 'sub':
                return cxor(s.tob(a), s.tob(b))
            raise Unsupported('i1 ' + op)
        if type(a) is int and type(b) is int:
            return s.binc(op, a, b, w, nsw)
        if type(a) is Ptr or type(b) is Ptr:
            if op == 'sub' and type(a) is Ptr and type(b) is Ptr and a.o is b.o:
                return a.off - b.off
            if op in ('add', 'sub') and type(a) is Ptr:
                return Ptr(a.o, a.off + b if op == 'add' else a.off - b)
            if op == 'add':
                return Ptr(b.o, b.off + a)
            if op == 'and' and type(b) is int and b in (7, 15, 3, 1):
                return (a.off if type(a.off) is int else s.conc(a.off)) & b
            raise Unsupported('pointer arithmetic ' + op)
        if op == 'add':
            return s.fit(a + b, w, nsw)
        if op == 'sub':
            return s.fit(a - b, w, nsw)
        if op == 'mul':
            return s.fit(a * b, w, nsw)
        if op == 'xor' and type(b) is int and b == -1:
            return -a - 1
        if op == 'and' and type(b) is int and b > 0 and (b & (b + 1)) == 0:
            lo, hi = a.bounds()
            if lo is not None and lo >= 0 and hi is not None and hi <= b:
                return a
        if op == 'or' and type(b) is int and b == 0:
            return a
        if op in ('and', 'or') and s.isbit(a) and s.isbit(b):
            return s.zext1(cand(s.bitc(a), s.bitc(b)) if op == 'and' else cor(s.bitc(a), s.bitc(b)))
        if op == 'shl' and type(b) is int:
            return s.fit(a * (1 << b), w, nsw)
        return s.binc(op, s.conc(a), s.conc(b), w, nsw)

    def isbit(s, a):
        if type(a) is int:
            return a in (0, 1)
        lo, hi = a.bounds()
        return lo is not None and hi is not None and lo >= 0 and hi <= 1

    def bitc(s, a):
        return cnot(s.relc(a, '=='))

    def binc(s, op, a, b, w, nsw):
        m = (1 << w) - 1
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op in ('sdiv', 'srem'):
            if b == 0:
                raise Violation('div0', 'integer division by zero')
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            r = q if op == 'sdiv' else a - q * b
        elif op in ('udiv', 'urem'):
            a &= m
            b &= m
            if b == 0:
                raise Violation('div0', 'integer division by zero')
            r = a // b if op == 'udiv' else a % b
        elif op == 'shl':
            r = a << (b & 255)
        elif op == 'lshr':
            r = (a & m) >> (b & 255)
        elif op == 'ashr':
            r = a >> (b & 255)
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        h = 1 << (w - 1)
        if -h <= r < h:
            return r
        return s.ovf(r, w, nsw) if op in ('add', 'sub', 'mul') else wrap(r, w)

    def tob(s, a):
        if a is True or a is False or type(a) is Cond:
            return a
        if type(a) is int:
            return bool(a & 1)
        if a is UNDEF:
            raise Violation('uninit', 'branch on an uninitialised value')
        raise Unsupported('bool %r' % (a,))

    def zext1(s, c):
        if c is True:
            return 1
        if c is False:
            return 0
        k = ('z', c.key)
        r = s.ctx.cutmemo.get(k)
        if r is None:
            r = sym.ite(c, 1, 0, True)
            s.ctx.atoms[next(iter(r.atoms()))].quot = (c, 1, 0)
            s.ctx.cutmemo[k] = r
        return r

    def relc(s, p, op):
        """rel() with special handling of two-valued (ite) atoms"""
        if type(p) is Poly and len(p.t) <= 2:
            ms = [m for m in p.t if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                at = s.ctx.atoms[ms[0][0][0]]
                if at.kind == 'ite' and at.quot is not None:
                    c, a, b = at.quot
                    k, k0 = p.t[ms[0]], p.t.get((), 0)
                    ra, rb = rel(k * a + k0, op), rel(k * b + k0, op)
                    if ra is True and rb is True:
                        return True
                    if ra is False and rb is False:
                        return False
                    return c if ra else cnot(c)
        return rel(p, op)

    def icmp(s, pred, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        ta, tb = type(a), type(b)
        if ta is Ptr or tb is Ptr:
            return s.pcmp(pred, a, b)
        if w == 1:
            a, b = s.tob(a), s.tob(b)
            if pred == 'eq':
                return cnot(cxor(a, b))
            if pred == 'ne':
                return cxor(a, b)
            raise Unsupported('i1 cmp')
        if ta is int and tb is int:
            if pred[0] == 'u':
                m = (1 << w) - 1
                a &= m
                b &= m
                pred = 's' + pred[1:]
            return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]
        if ta is float or tb is float or (ta is Poly and a.real) or (tb is Poly and b.real):
            raise Unsupported('integer comparison of reals')
        if pred[0] == 'u':
            la = (a, a) if ta is int else a.bounds()
            lb = (b, b) if tb is int else b.bounds()
            if la[0] is not None and lb[0] is not None and la[0] >= 0 and lb[0] >= 0:
                pred = 's' + pred[1:]
            else:
                return s.icmp(pred, s.conc(a), s.conc(b), w)
        d = a - b
        if pred == 'eq':
            return s.relc(d, '==')
        if pred == 'ne':
            return cnot(s.relc(d, '=='))
        if pred == 'slt':
            return s.relc(d, '<')
        if pred == 'sle':
            return s.relc(d, '<=')
        if pred == 'sgt':
            return s.relc(-d, '<')
        return s.relc(-d, '<=')

    def pcmp(s, pred, a, b):
        if type(a) is int:
            a = Ptr(None, a)
        if type(b) is int:
            b = Ptr(None, b)
        if a.o is b.o:
            d = a.off - b.off
            if pred == 'eq':
                return s.relc(d, '==') if type(d) is Poly else d == 0
            if pred == 'ne':
                return cnot(s.relc(d, '==')) if type(d) is Poly else d != 0
            return s.icmp('s' + pred[1:], a.off, b.off, 64)
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        ka, kb = (0 if a.o is None else a.o.id), (0 if b.o is None else b.o.id)
        return {'u': lambda: {'ult': ka < kb, 'ule': ka <= kb, 'ugt': ka > kb, 'uge': ka >= kb}[pred]}['u']()

    def cast(s, op, v, sn, dn):
        if v is UNDEF:
            return v
        t = type(v)
        if op == 'zext':
            if sn == 1:
                return s.zext1(s.tob(v))
            if t is int:
                return v & ((1 << sn) - 1)
            lo, _ = v.bounds()
            if lo is not None and lo >= 0:
                return v
            return s.conc(v) & ((1 << sn) - 1)
        if op == 'sext':
            if sn == 1:
                x = s.zext1(s.tob(v))
                return -x
            return v
        if op == 'trunc':
            if dn == 1:
                if t is int:
                    return bool(v & 1)
                if t is Poly:
                    if s.isbit(v):
                        return s.bitc(v)
                    return bool(s.conc(v) & 1)
                return s.tob(v)
            if t is int:
                return wrap(v, dn)
            if t is Ptr:
                raise Unsupported('trunc of pointer')
            lo, hi = v.bounds()
            h = 1 << (dn - 1)
            if lo is not None and hi is not None and lo >= -h and hi < h:
                return v
            return wrap(s.conc(v), dn)
        if op in ('sitofp', 'uitofp'):
            if sn == 1:
                v = s.zext1(s.tob(v))
                t = type(v)
                if t is int:
                    return float(v)
                return Poly(v.t, True)
            if t is int:
                r = float(v if op == 'sitofp' else v & ((1 << sn) - 1))
                return single(r) if dn == 32 else r
            r = Poly(v.t, True)
            if dn == 32:
                lo, hi = v.bounds()
                if lo is None or hi is None or lo < -(1 << 24) or hi > 1 << 24:
                    return sym.narrow(r)
            return r
        if op in ('fptosi', 'fptoui'):
            if t is float:
                if v != v or abs(v) >= 2.0 ** 63:
                    raise Violation('overflow', 'float to int conversion out of range')
                return int(v)
            if type(v) in (int,):
                return v
            if t is Poly and all(s.ctx.atoms[x].isint for x in v.atoms()) and all(type(c) is int for c in v.t.values()):
                return Poly(v.t, False)
            return s.ftoi(v)
        if op == 'fpext':
            return v
        if op == 'fptrunc':
            if dn != 32:
                return v
            if t is float:
                return single(v)
            return sym.narrow(v) if t is Poly else v
        if op in ('ptrtoint',):
            if t is Ptr and v.o is None:
                return v.off
            return v
        if op == 'inttoptr':
            if t is int:
                return Ptr(None, v)
            if t is Ptr:
                return v
            raise Unsupported('inttoptr')
        if op.startswith('bitcast'):
            a, b = op.split('_')[1:]
            if a == b:
                return v
            if a == 'f' and b == 'i':
                return f2i(v) if t is float else v
            if a == 'i' and b == 'f':
                return i2f(v) if t is int else v
        raise Unsupported(op)

    def select(s, c, a, b):
        if c is UNDEF:
            raise Violation('uninit', 'select on an uninitialised value')
        h = s.sol.holds(c)
        if h is not None:
            return a if h else b
        try:
            return s.mergeval(c, a, b)
        except MergeAbort:
            return a if s.fork(c) else b

    # ------------------------------------------------------------------ floats
    def guard_nonzero(s, b):
        if s.guards:
            return
        c = rel(b, '==')
        if c is True:
            raise Unsupported('division by a quantity that is identically zero')
        if c is False:
            return
        h = s.sol.holds(c)
        if h is None:
            s.sol.add(cnot(c))
            s.ctx.assumed_nonzero += 1

    def guard_nonneg(s, a):
        if s.guards:
            return
        c = rel(a, '<')
        if c is True or c is False:
            return
        if s.sol.holds(c) is None:
            s.sol.add(cnot(c))

    def fop(s, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        ta, tb = type(a), type(b)
        if ta is float and tb is float and not (s.exact and op == 'fdiv' and b and abs(a) < 1e300 and abs(b) < 1e300):
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv':
                if b == 0:
                    if a != a or a == 0:
                        return float('nan')
                    return math.copysign(math.inf, a) * math.copysign(1.0, b)
                return a / b
            if op == 'frem':
                return math.fmod(a, b)
        # NaN / infinity propagation
        for x, y, xa in ((a, b, True), (b, a, False)):
            if type(x) is float and (x != x or x in (math.inf, -math.inf)):
                if x != x:
                    return x
                if op in ('fadd',):
                    return x
                if op == 'fsub':
                    return x if xa else -x
                if op == 'fmul':
                    r = s.fork3(y)
                    return float('nan') if r == 0 else x * r
                if op == 'fdiv':
                    if not xa:
                        return 0.0
                    r = s.fork3(y)
                    return x * (r or 1)
        a, b = sym.lift(a), sym.lift(b)
        if op == 'fadd':
            r = a + b
        elif op == 'fsub':
            r = a - b
        elif op == 'fmul':
            r = a * b
        elif op == 'fdiv':
            if type(b) is not Poly:
                if b == 0:
                    r = s.fork3(a)
                    return float('nan') if r == 0 else math.inf * r
                r = a * sym.norm(Fraction(1) / b)
            else:
                r = sym.div(a, b, s.guard_nonzero)
        else:
            raise Unsupported(op)
        if type(r) is Poly:
            return sym.rounded(r) if s.round else r
        return s.mkf(r)

    def mkf(s, r):
        """rational -> concrete value: a double, or in exact mode the rational itself unless it is a short dyadic"""
        if s.exact:
            f = r if type(r) is Fraction else Fraction(r)
            d = f.denominator
            if d & (d - 1) or d > 1 << 20 or abs(f.numerator) > 1 << 20:
                return f
        return float(r)

    def fork3(s, p):
        """sign of a symbolic real by forking"""
        if type(p) is not Poly:
            return (p > 0) - (p < 0)
        c = rel(p, '<')
        if c is True or (c is not False and s.fork(c)):
            return -1
        c = rel(p, '==')
        if c is True or (c is not False and s.fork(c)):
            return 0
        return 1

    def fcmp(s, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        ta, tb = type(a), type(b)
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        nan = (ta is float and a != a) or (tb is float and b != b)
        if pred == 'ord':
            return not nan
        if pred == 'uno':
            return nan
        if nan:
            return pred[0] == 'u'
        p = pred[1:]
        if ta is float and tb is float:
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        for x, sw in ((a, False), (b, True)):
            if type(x) is float and x in (math.inf, -math.inf):
                # x versus a finite real
                gt = (x > 0) != sw      # a > b ?
                return {'eq': False, 'ne': True, 'lt': not gt, 'le': not gt, 'gt': gt, 'ge': gt}[p]
        # sqrt(e) compared with a non-negative constant: compare the squares
        a, b = sym.lift(a), sym.lift(b)
        d = a - b
        if type(d) is not Poly:
            return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[p]
        d = s.sqrtcmp(d)
        if type(d) is not Poly:
            return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[p]
        if p == 'eq':
            return s.relc(d, '==')
        if p == 'ne':
            return cnot(s.relc(d, '=='))
        if p == 'lt':
            return s.relc(d, '<')
        if p == 'le':
            return s.relc(d, '<=')
        if p == 'gt':
            return s.relc(-d, '<')
        return s.relc(-d, '<=')

    def sqrtcmp(s, d):
        """d = k*sqrt(e) - c  with k,c>0 (or negated) -> k^2 e - c^2, same sign"""
        if len(d.t) != 2 or () not in d.t:
            return d
        (m, k), = [(m, c) for m, c in d.t.items() if m]
        c = -d.t[()]
        if len(m) == 1 and m[0][1] == 1:
            sq = s.ctx.atoms[m[0][0]].sq
            if sq is not None and ((k > 0 and c >= 0) or (k < 0 and c <= 0)):
                r = sq * (k * k) - c * c if type(sq) is Poly else sq * k * k - c * c
                return r if k > 0 else -r
        return d

    # ------------------------------------------------------------------ memory
    def badptr(s, p):
        if p is UNDEF:
            raise Violation('uninit', 'address computed from an uninitialised pointer')
        if type(p) is int:
            return Ptr(None, p)
        raise Unsupported('pointer %r' % (p,))

    def new(s, name, size, kind, zero=False):
        o = Obj(name, size, kind, zero)
        s.nalloc += 1
        o.id = s.nalloc
        return o

    def alloca(s, name, sz, cnt):
        o = s.new(name, sz * s.conc(cnt), 'stack')
        s.frames[-1].append(o)
        return Ptr(o, 0)

    def chk(s, p, n, what):
        if type(p) is not Ptr:
            if p is UNDEF:
                raise Violation('uninit', what + ' through an uninitialised pointer')
            p = s.badptr(p)
        o = p.o
        if o is None:
            raise Violation('null', what + ' through a null/invalid pointer')
        off = p.off
        if type(off) is not int:
            if off is UNDEF:
                raise Violation('uninit', what + ' at an uninitialised index')
            # out-of-bounds feasible?
            c = cor(rel(off, '<'), rel(o.size - n - off, '<'))
            if c is True or (c is not False and s.sol.check([c], s.ft) == 'sat'):
                s.flag(Violation('oob', '%s out of bounds of %r (symbolic offset)' % (what, o), [c] if c is not True else []))
                s.assume(cnot(c))
            off = s.conc(off)
        if not o.alive:
            raise Violation('uaf', '%s of freed object %r' % (what, o))
        if off < 0 or off + n > o.size:
            raise Violation('oob', '%s of %d bytes at offset %d of %r' % (what, n, off, o))
        return o, off

    def load(s, p, n, k):
        if type(p) is Ptr and type(p.off) is int and p.o is not None and p.o.alive:
            o = p.o
            off = p.off
            if off < 0 or off + n > o.size:
                raise Violation('oob', 'read of %d bytes at offset %d of %r' % (n, off, o))
        else:
            o, off = s.chk(p, n, 'read')
        cell = o.c.get(off)
        if cell is not None and cell[0] == n:
            v = cell[1]
        else:
            v = s.loadslow(o, off, n)
        t = type(v)
        if k == 'i':
            if t is float:
                return f2i(v)
        elif k == 'f':
            if t is int:
                return i2f(v)
        elif k == 'p':
            if t is int:
                return Ptr(None, v)
        elif k == 'b':
            if t is int:
                return bool(v & 1)
        elif k == 'g':
            if t is int:
                return struct.unpack('<f', struct.pack('<i', wrap(v, 32)))[0]
        return v

    def loadslow(s, o, off, n):
        b = 0
        found = False
        miss = False
        for i in range(n):
            x = s.byteat(o, off + i)
            if x is None:
                miss = True
            else:
                found = True
                b |= x << (8 * i)
        if miss:
            return UNDEF
        return wrap(b, 8 * n)

    def byteat(s, o, off):
        for d in range(16):
            cell = o.c.get(off - d)
            if cell is not None:
                if cell[0] > d:
                    v = cell[1]
                    if type(v) is float:
                        if cell[0] == 4:
                            v = struct.unpack('<i', struct.pack('<f', v))[0]
                        else:
                            v = f2i(v)
                    if v is UNDEF:
                        return None
                    if type(v) is Ptr and v.o is None and type(v.off) is int:
                        v = v.off
                    if type(v) is bool:
                        v = int(v)
                    if type(v) is not int:
                        raise Unsupported('partial read of a symbolic cell')
                    return (v >> (8 * d)) & 255
                break
        return 0 if o.zero else None

    def store(s, p, v, n):
        if type(p) is Ptr and type(p.off) is int and p.o is not None and p.o.alive:
            o = p.o
            off = p.off
            if off < 0 or off + n > o.size:
                raise Violation('oob', 'write of %d bytes at offset %d of %r' % (n, off, o))
        else:
            o, off = s.chk(p, n, 'write')
        if o.ro:
            raise Violation('ro', 'write to read-only object %r' % o)
        c = o.c
        old = c.get(off)
        if s.jr is not None:
            if o.kind != 'stack' or o.id <= s.jr_mark:
                if old is not None and old[0] != n:
                    raise MergeAbort('overlap')
                k = (o, off)
                if k not in s.jr:
                    s.jr[k] = old
        if old is None or old[0] != n:
            s.clear(o, off, n)
        c[off] = (n, v)

    def clear(s, o, off, n):
        c = o.c
        if not c:
            return
        for d in range(-15, n):
            cell = c.get(off + d)
            if cell is None:
                continue
            if d + cell[0] <= 0:
                continue
            # overlapping: split into bytes outside the range
            if d >= 0 and d + cell[0] <= n:
                del c[off + d]
                continue
            bs = [(off + d + i, s.byteat(o, off + d + i)) for i in range(cell[0])]
            del c[off + d]
            for a, b in bs:
                if not (off <= a < off + n) and b is not None:
                    c[a] = (1, b if b < 128 else b - 256)

    def memset(s, p, v, n):
        n = s.conc(n)
        if n == 0:
            return
        o, off = s.chk(p, n, 'memset')
        if s.jr is not None:
            raise MergeAbort('memset')
        if o.ro:
            raise Violation('ro', 'memset of read-only object')
        v = s.conc(v) & 255
        if off == 0 and n == o.size and v == 0:
            o.c.clear()
            o.zero = True
            return
        s.clear(o, off, n)
        i = 0
        while i < n:
            k = 8 if n - i >= 8 and (off + i) % 8 == 0 else 4 if n - i >= 4 and (off + i) % 4 == 0 else 1
            o.c[off + i] = (k, wrap(int.from_bytes(bytes([v]) * k, 'little'), 8 * k))
            i += k

    def memcpy(s, d, p, n):
        n = s.conc(n)
        if n == 0:
            return
        so, soff = s.chk(p, n, 'memcpy read')
        do, doff = s.chk(d, n, 'memcpy write')
        if do.ro:
            raise Violation('ro', 'memcpy to read-only object')
        items = []
        covered = 0
        for k in range(soff, soff + n):
            cell = so.c.get(k)
            if cell is not None and k + cell[0] <= soff + n:
                items.append((k - soff, cell))
                covered += cell[0]
            elif cell is not None:
                for j in range(k, soff + n):
                    b = s.byteat(so, j)
                    if b is not None:
                        items.append((j - soff, (1, wrap(b, 8))))
        head = so.c.get(soff)
        if head is None:
            for d_ in range(1, 16):
                cell = so.c.get(soff - d_)
                if cell is not None:
                    for j in range(soff, min(soff + n, soff - d_ + cell[0])):
                        b = s.byteat(so, j)
                        if b is not None:
                            items.append((j - soff, (1, wrap(b, 8))))
                    break
        if s.jr is not None:
            raise MergeAbort('memcpy')
        s.clear(do, doff, n)
        for k, cell in items:
            do.c[doff + k] = cell
        if so.zero and not do.zero:
            have = set()
            for k, cell in items:
                have.update(range(k, k + cell[0]))
            i = 0
            while i < n:
                if i in have:
                    i += 1
                elif i % 8 == 0 and i + 8 <= n and not any((i + j) in have for j in range(8)):
                    do.c[doff + i] = (8, 0)
                    i += 8
                else:
                    do.c[doff + i] = (1, 0)
                    i += 1
        elif not so.zero and do.zero:
            have = set()
            for k, cell in items:
                have.update(range(k, k + cell[0]))
            for i in range(n):
                if i not in have:
                    do.c[doff + i] = (1, UNDEF)

    def malloc(s, n, zero=False):
        n = s.conc(n)
        if s.jr is not None:
            raise MergeAbort('malloc')
        if s.failalloc is not None:
            k = s.failalloc
            s.failalloc = k - 1
            if k == 0:
                s.failalloc = None
                return NULL
        if n < 0 or n > (1 << 32):
            raise Violation('alloc', 'allocation of a negative or huge size %d' % n)
        o = s.new('malloc%d' % n, n, 'heap', zero)
        s.heap.append(o)
        return Ptr(o, 0)

    def free(s, p):
        if type(p) is int and p == 0:
            return
        if type(p) is not Ptr:
            raise Violation('free', 'free of an uninitialised or invalid pointer')
        if p.o is None:
            if p.off == 0:
                return
            raise Violation('free', 'free of an invalid pointer')
        if s.jr is not None:
            raise MergeAbort('free')
        o = p.o
        if not o.alive:
            raise Violation('free', 'double free of %r' % o)
        if o.kind != 'heap':
            raise Violation('free', 'free of non-heap object %r' % o)
        if p.off != 0:
            raise Violation('free', 'free of an interior pointer')
        if o.ro:
            raise Violation('free', 'free of memory that belongs to the caller')
        o.alive = False

    def cstr(s, p, maxn=4096):
        o, off = s.chk(p, 1, 'string read')
        r = bytearray()
        while len(r) < maxn:
            b = s.conc(s.load(Ptr(o, off), 1, 'i')) & 255
            if b == 0:
                break
            r.append(b)
            off += 1
        return r.decode('latin1')

    # ------------------------------------------------------------------ calls and control flow
    def unreach(s, name):
        return Violation('unreachable', 'reached unreachable code in ' + name)

    def icall(s, p, args):
        if type(p) is not Ptr or p.o is None:
            raise Violation('null', 'call through a null or invalid function pointer')
        if p.o.kind != 'func':
            raise Violation('null', 'call of a non-function')
        return s.call(p.o.fn, args)

    def call(s, name, args):
        f = s.cm.fns.get(name)
        if f is None:
            f = s.cm.fn(name)
            if f is None:
                return s.builtin(name, args)
        if len(s.frames) > 200:
            raise Unsupported('recursion depth')
        R = [None] * len(f.regs)
        R[:f.np] = args[:f.np]
        s.fnseen[name] = s.fnseen.get(name, 0) + 1
        s.frames.append([])
        pol = None
        if name in s.followfns and s.jr is None:
            pol = s.follow, s.merge
            s.follow, s.merge = 1, 0
        snap = None
        if name in s.opaque and s.jr is None:
            snap = {id(o): dict(o.c) for o in s.heap if o.alive}
        try:
            s.run(f, R, 0, -1, None)
        finally:
            for o in s.frames.pop():
                o.alive = False
            if pol:
                s.follow, s.merge = pol
        if snap is not None:
            s.cutheap(snap)
        return s.rv

    def cutheap(s, snap):
        """name every compound value newly written to live heap memory (value = fresh atom with that definition), so that later
        assertions can first be tried without looking inside"""
        A = s.ctx.atoms
        for o in s.heap:
            if not o.alive:
                continue
            old = snap.get(id(o), {})
            for off, (sz, v) in list(o.c.items()):
                if type(v) is Poly and v.real:
                    p = old.get(off)
                    if p is not None and p[1] is v:
                        continue
                    if len(v.t) == 1:
                        m = next(iter(v.t))
                        if len(m) == 1 and m[0][1] == 1 and A[m[0][0]].kind in ('in', 'cut'):
                            continue
                    o.c[off] = (sz, sym.cutpoly(v))

    def run(s, f, R, b, prev, stop):
        """execute from block b (coming from prev) until return (-> None) or until reaching stop (-> phi values)"""
        code = f.code
        edges = f.edges
        skipphi = False
        while True:
            if b == stop:
                e = edges.get((prev, b))
                if e is None:
                    return ()
                return e[1](R, s)
            if not skipphi:
                e = edges.get((prev, b))
                if e is not None:
                    vs = e[1](R, s)
                    ds = e[0]
                    for i in range(len(ds)):
                        R[ds[i]] = vs[i]
            skipphi = False
            s.steps += 1
            if s.steps > s.maxsteps:
                raise Unsupported('step limit')
            n = code[b](R, s, s)
            if type(n) is int:
                if n < 0:
                    if stop is not None:
                        raise MergeAbort('return inside region')
                    return None
                prev = b
                b = n
                continue
            # symbolic branch
            c, t, e_ = n
            if c is UNDEF:
                raise Violation('uninit', 'branch on an uninitialised value in ' + f.name)
            if type(c) is int:
                prev, b = b, (t if c else e_)
                continue
            h = s.sol.holds(c)
            if h is None and s.merge:
                r = s.trymerge(f, R, b, c, t, e_)
                if r is not None:
                    j, vals = r
                    if j == stop:
                        return vals
                    for i, d in enumerate(f.phis[j]):
                        R[d] = vals[i]
                    prev = -1
                    b = j
                    skipphi = True
                    continue
            if h is None:
                h = s.fork(c)
            prev, b = b, (t if h else e_)

    def trymerge(s, f, R, b, c, t, e):
        j = f.ipdom()[b]
        if j is None or j >= f.n:
            return None
        if s.jr is None:
            # decision on whether to merge must be replayable
            def opts():
                if s.merge >= 2:
                    if s.sol.check([c], s.ft) == 'unsat':
                        return False, []
                    if s.sol.check([cnot(c)], s.ft) == 'unsat':
                        return True, []
                return 'm', []
            d = s.decide(opts)
            if d == 'f':
                return None
            if d != 'm':
                s.sol.add(c if d else cnot(c))
                return None
            s.rsteps = s.steps
        outer, omark = s.jr, getattr(s, 'jr_mark', 0)
        R0 = list(R)
        mk = s.sol.mark()
        nfr = len(s.frames)
        res = []
        try:
            for cond, start in ((c, t), (cnot(c), e)):
                s.jr = {}
                s.jr_mark = s.nalloc
                s.guards += 1
                s.sol.add(cond)
                R[:] = R0
                if s.steps - s.rsteps > 4000:
                    raise MergeAbort('region too long')
                try:
                    ph = s.run(f, R, start, b, j)
                    lo = {r: R[r] for r in f.live_in(j)}
                    wr = {}
                    for (o, off), old in s.jr.items():
                        wr[(o, off)] = (old, o.c.get(off))
                except Violation as v:
                    v.conds = list(v.conds) + [cond]
                    if s.sol.check([], s.ft) == 'unsat':
                        raise MergeAbort('infeasible side')
                    raise MergeAbort('violation in region')
                finally:
                    s.undo(s.jr)
                    s.guards -= 1
                    s.sol.restore(mk)
                res.append((ph, lo, wr))
            s.jr, s.jr_mark = outer, omark
            R[:] = R0
            (pa, la, wa), (pb, lb, wb) = res
            vals = tuple(s.mergeval(c, x, y) for x, y in zip(pa, pb))
            live = {}
            for r in la:
                if la[r] is not lb[r]:
                    live[r] = s.mergeval(c, la[r], lb[r])
            mem = []
            for k in list(dict.fromkeys(list(wa) + list(wb))):
                old = (wa.get(k) or wb.get(k))[0]
                na = wa[k][1] if k in wa else old
                nb = wb[k][1] if k in wb else old
                if na is nb:
                    mem.append((k, na))
                    continue
                if na is None or nb is None:
                    if k[0].kind == 'stack' and not k[0].alive:
                        continue
                    if k[0].zero:
                        na = na or (nb[0], 0)
                        nb = nb or (na[0], 0)
                    else:
                        raise MergeAbort('one-sided initialisation')
                if na[0] != nb[0]:
                    raise MergeAbort('cell sizes')
                mem.append((k, (na[0], s.mergeval(c, na[1], nb[1]))))
            for r, v in live.items():
                R[r] = v
            for (o, off), cell in mem:
                s.store(Ptr(o, off), cell[1], cell[0]) if o.alive else None
            return j, vals
        except MergeAbort:
            s.jr = outer
            s.jr_mark = omark
            R[:] = R0
            s.sol.restore(mk)
            while len(s.frames) > nfr:
                for o in s.frames.pop():
                    o.alive = False
            if outer is not None:
                raise
            if s.trace and s.pos > len(s.prefix):
                s.trace[-1] = 'f'
            return None

    def undo(s, jr):
        for (o, off), old in jr.items():
            if old is None:
                o.c.pop(off, None)
            else:
                o.c[off] = old

    def mergeval(s, c, a, b):
        if a is b:
            return a
        ta, tb = type(a), type(b)
        if (ta is bool or ta is Cond) and (tb is bool or tb is Cond):
            return cor(cand(c, a), cand(cnot(c), b))
        if ta is Ptr and tb is Ptr:
            if a.o is b.o:
                if type(a.off) is int and a.off == b.off:
                    return a
                off = s.mergeval(c, a.off, b.off)
                return Ptr(a.o, off)
            raise MergeAbort('pointers differ')
        if a is UNDEF or b is UNDEF or a is None or b is None:
            raise MergeAbort('undef')
        if ta in (float, Fraction) or tb in (float, Fraction) or (ta is Poly and a.real) or (tb is Poly and b.real):
            if ta is float and tb is float and a == b:
                return a
            for x in (a, b):
                if type(x) is float and (x != x or x in (math.inf, -math.inf)):
                    raise MergeAbort('non-finite')
            a, b = sym.lift(a), sym.lift(b)
            r = sym.ite(c, a, b, False)
            if type(r) is Poly and type(a) is not Poly and type(b) is not Poly:
                s.ctx.atoms[next(iter(r.atoms()))].quot = (c, a, b)
            return r if type(r) is Poly else s.mkf(r)
        if ta in (int, Poly) and tb in (int, Poly):
            r = sym.ite(c, a, b, True)
            if type(r) is Poly and ta is int and tb is int and a != b:
                s.ctx.atoms[next(iter(r.atoms()))].quot = (c, a, b)
            return r
        raise MergeAbort('types')

    def switch(s, v, d, cs):
        if v is UNDEF:
            raise Violation('uninit', 'switch on an uninitialised value')
        if type(v) is Cond or type(v) is bool:
            v = s.zext1(v)
        if type(v) is int:
            for c, t in cs:
                if c == v:
                    return t
            return d
        for c, t in cs:
            q = s.icmp('eq', v, c, 64)
            if q is True or (q is not False and s.fork(q)):
                return t
        return d

    # ------------------------------------------------------------------ properties
    def assume(s, c):
        if c is True:
            return
        if c is False:
            raise PathEnd('assume')
        if s.jr is not None:
            raise MergeAbort('assume')
        h = s.sol.holds(c)
        if h is True:
            return
        if h is False:
            raise PathEnd('assume')
        if s.sol.witok and not c.wit and s.restarts < 6:
            # keep the witness on the path: find one that satisfies the assumption and start over
            r, m = s.sol.check([c], s.qt, want_model=True)
            if r == 'unsat':
                raise PathEnd('assume')
            if r == 'sat' and m:
                raise Restart((list(s.trace) + list(s.prefix[s.pos:]), dict(s.wov, **m)))
        s.sol.add(c)

    def flag(s, v):
        """record a violation that happens under v.conds (path continues)"""
        if s.jr is not None:
            raise MergeAbort('violation')
        s.record(v.kind, v.msg, list(v.conds))

    def record(s, kind, msg, conds, extra=None):
        m = None
        # prefer 'nice' models
        r = 'unknown'
        trial = []
        if extra is not None:
            trial.append(conds + extra)
        trial.append(conds)
        for cs in trial:
            r, m = s.sol.check(cs, s.qt, want_model=True, full=True)
            if r == 'sat':
                break
        if r == 'unsat':
            return False
        s.viol.append({'kind': kind, 'msg': msg, 'model': m, 'status': r, 'inputs': s.fullmodel(m),
                       'trace': list(s.trace), 'conds': [str(c)[:300] for c in conds][:4]})
        return True

    def fullmodel(s, m):
        out = {}
        for nm, (at, val) in s.inputs.items():
            if at is None:
                out[nm] = val
            elif m is not None and at.name in m:
                out[nm] = m[at.name]
            else:
                w = at.wit
                out[nm] = w
        return {k: (str(v) if isinstance(v, Fraction) else v) for k, v in out.items()}

    def prove(s, c, msg, kind='check', margin=None):
        s.nchecks += 1
        if c is True:
            return
        if s.jr is not None:
            raise MergeAbort('check')
        if c is False:
            s.record(kind, msg, [])
            return
        n = cnot(c)
        h = s.sol.holds(c)
        if h is True:
            return
        r = s.sol.check([n], s.qt * 0.3, usedefs=False)
        if r == 'unsat':
            s.sol.add(c)
            return
        if s.opaque:
            r = s.sol.check([n], s.qt * 0.5, usedefs='mid')
            if r == 'unsat':
                s.sol.add(c)
                return
        r = s.sol.check([n], s.qt)
        if r == 'unsat':
            s.sol.add(c)
            return
        if r == 'unknown' and s.sol.witok and not c.wit:
            # the path's own witness satisfies the path condition and refutes the assertion
            s.viol.append({'kind': kind, 'msg': msg, 'model': None, 'status': 'witness', 'inputs': s.fullmodel(None),
                           'trace': list(s.trace), 'conds': [str(n)[:300]]})
            s.sol.add(c)
            return
        if r == 'sat':
            s.record(kind, msg, [n], margin)
            s.sol.add(c)
            return
        if r == 'unknown' and s.pinned(n, msg, kind, margin):
            s.sol.add(c)
            return
        s.inconcl.append(msg)

    def pinned(s, n, msg, kind, margin):
        """undecided: ask the solver again with most real inputs fixed (finds counterexamples, proves nothing)"""
        if s.npin > 40:
            return False
        s.npin += 1
        import random
        rg = random.Random('%s/%s/%d' % (s.seed, msg, s.npin))
        ins = [at for nm, (at, v) in s.inputs.items() if at is not None and not at.isint]
        if not ins:
            return False
        for k in range(6):
            free = set(a.id for a in rg.sample(ins, min(len(ins), 1 + k % 2)))
            pins = []
            for a in ins:
                if a.id not in free:
                    w = a.wit if k == 0 else round(a.wit * (1 + rg.uniform(-.5, .5)) * 64) / 64 if k < 4 else rg.randint(-16, 16) / 8
                    pins.append(rel(sym.avar(a) - sym.lift(float(w)), '=='))
            pins = [x for x in pins if x is not True]
            if any(x is False for x in pins):
                continue
            for ex in ([margin] if margin else []) + [[]]:
                r, m = s.sol.check([n] + pins + list(ex), 0.6, want_model=True, full=True)
                if r == 'sat':
                    s.viol.append({'kind': kind, 'msg': msg, 'model': m, 'status': 'pinned', 'inputs': s.fullmodel(m),
                                   'trace': list(s.trace), 'conds': [str(n)[:300]]})
                    return True
        return False

    def builtin(s, name, args):
        b = BUILTINS.get(name)
        if b is None:
            if name.startswith('llvm.'):
                base = '.'.join(name.split('.')[:2])
                b = BUILTINS.get(base)
            if b is None:
                va = s.cm.fn(name + '__va')
                if va is not None:
                    return s.callva(name, va, args)
                raise Unsupported('external function ' + name)
        return b(s, *args)

    def callva(s, name, f, args):
        nfix = f.np - 2
        extra = args[nfix:]
        o = s.new('va', 8 * max(1, len(extra)), 'stack')
        s.frames[-1].append(o)
        for i, v in enumerate(extra):
            o.c[8 * i] = (8, v)
        return s.call(f.name, list(args[:nfix]) + [len(extra), Ptr(o, 0)])


# ---------------------------------------------------------------------------------------------- builtins
BUILTINS = {}


def bi(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return d


@bi('malloc')
def _(s, n):
    return s.malloc(n)


@bi('calloc')
def _(s, a, b):
    return s.malloc(s.conc(a) * s.conc(b), True)


@bi('realloc')
def _(s, p, n):
    q = s.malloc(n)
    if p.o is not None and q.o is not None:
        k = min(p.o.size, q.o.size)
        s.memcpy(q, p, k)
        q.o.zero = False
        s.free(p)
    return q


@bi('free')
def _(s, p):
    s.free(p)


@bi('memcpy', 'memmove', 'llvm.memcpy', 'llvm.memmove', '__memcpy_chk')
def _(s, d, p, n, *r):
    s.memcpy(d, p, n)
    return d


@bi('memset', 'llvm.memset')
def _(s, p, v, n, *r):
    s.memset(p, v, n)
    return p


def abs_(s, a):
    if type(a) is float:
        return abs(a)
    c = rel(a, '<')
    if c is True:
        return -a
    if c is False:
        return a
    k = ('abs', a.key())
    # |a| as a merged value keeps one path
    h = s.sol.holds(c)
    if h is not None:
        return -a if h else a
    r = s.ctx.cutmemo.get(k)
    if r is None:
        r = sym.ite(c, -a, a, False)
        s.ctx.cutmemo[k] = r
    return r


@bi('fabs', 'llvm.fabs')
def _(s, a):
    return UNDEF if a is UNDEF else abs_(s, a)


@bi('sqrt', 'llvm.sqrt')
def _(s, a):
    if a is UNDEF:
        return a
    if type(a) is float:
        return math.sqrt(a) if a >= 0 else float('nan')
    r = sym.sqrt_(a, s.guard_nonneg)
    return r


@bi('fmax', 'llvm.maxnum', 'fmin', 'llvm.minnum')
def _(s, a, b):
    raise Unsupported('fmin/fmax')


def _mm(s, a, b, mx):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    if type(a) is float and type(b) is float:
        return max(a, b) if mx else min(a, b)
    for x, y in ((a, b), (b, a)):
        if type(x) is float and math.isinf(x):
            return x if (x > 0) == mx else y
    c = s.fcmp('olt', a, b)
    if c is True or c is False or type(c) is int:
        return (b if mx else a) if c else (a if mx else b)
    return sym.ite(c, b, a, False) if mx else sym.ite(c, a, b, False)


@bi('fmax', 'llvm.maxnum')
def _(s, a, b):
    return _mm(s, a, b, True)


@bi('fmin', 'llvm.minnum')
def _(s, a, b):
    return _mm(s, a, b, False)


def mkminmax(mx):
    def f(s, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is float and a != a:
            return b
        if type(b) is float and b != b:
            return a
        c = s.fcmp('ogt' if mx else 'olt', a, b)
        if c is True:
            return a
        if c is False:
            return b
        return s.select(c, a, b)
    return f


BUILTINS['fmax'] = BUILTINS['llvm.maxnum'] = mkminmax(True)
BUILTINS['fmin'] = BUILTINS['llvm.minnum'] = mkminmax(False)


@bi('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')
def _(s, a, b):
    raise Unsupported('int minmax')


def _imm(pred):
    def f(s, a, b):
        c = s.icmp(pred, a, b, 64)
        return a if c is True else b if c is False else s.select(c, a, b)
    return f


BUILTINS['llvm.smax'] = _imm('sgt')
BUILTINS['llvm.smin'] = _imm('slt')
BUILTINS['llvm.umax'] = _imm('ugt')
BUILTINS['llvm.umin'] = _imm('ult')


@bi('llvm.abs', 'abs', 'labs')
def _(s, a, *r):
    c = s.icmp('slt', a, 0, 64)
    return -a if c is True else a if c is False else s.select(c, -a, a)


@bi('floor', 'llvm.floor')
def _(s, a):
    return math.floor(a) * 1.0 if type(a) is float else _raise('floor')


@bi('ceil', 'llvm.ceil')
def _(s, a):
    return math.ceil(a) * 1.0 if type(a) is float else _raise('ceil')


@bi('llvm.copysign', 'copysign')
def _(s, a, b):
    if type(a) is float and type(b) is float:
        return math.copysign(a, b)
    m = abs_(s, a) if type(a) is not float else abs(a)
    c = s.fcmp('olt', b, 0.0)
    return (-m if c is True else m if c is False else s.select(c, -m, m))


@bi('pow', 'llvm.pow')
def _(s, a, b):
    if type(a) is float and type(b) is float:
        return math.pow(a, b)
    if type(b) is float and b in (1.0, 2.0, 3.0, 4.0):
        r = a
        for _ in range(int(b) - 1):
            r = s.fop('fmul', r, a)
        return r
    if type(b) is float and b == 0.5:
        return BUILTINS['sqrt'](s, a)
    _raise('pow')


@bi('cbrt')
def _(s, a):
    if type(a) is float:
        return math.cbrt(a)
    _raise('cbrt')


@bi('llvm.fma', 'fma', 'llvm.fmuladd')
def _(s, a, b, c):
    return s.fop('fadd', s.fop('fmul', a, b), c)


@bi('hypot')
def _(s, a, b):
    if type(a) is float and type(b) is float:
        return math.hypot(a, b)
    return BUILTINS['sqrt'](s, s.fop('fadd', s.fop('fmul', a, a), s.fop('fmul', b, b)))


def _raise(n):
    raise Unsupported(n)


@bi('llvm.is.fpclass')
def _(s, a, mask):
    if a is UNDEF:
        return UNDEF
    if type(a) is float:
        if a != a:
            return bool(mask & 3)
        if a in (math.inf, -math.inf):
            return bool(mask & (0x200 if a > 0 else 4))
        if a == 0:
            return bool(mask & (0x40 if math.copysign(1, a) > 0 else 0x20))
        sub = abs(a) < 2.2250738585072014e-308
        return bool(mask & ((0x80 if sub else 0x100) if a > 0 else (0x10 if sub else 8)))
    if not (mask & 0x1f8):
        return False
    if (mask & 0x1f8) == 0x1f8:
        return True
    _raise('fpclass')


@bi('isnan', '__isnan')
def _(s, a):
    return int(type(a) is float and a != a)


@bi('isinf', '__isinf')
def _(s, a):
    return int(type(a) is float and a in (math.inf, -math.inf))


@bi('finite', '__finite')
def _(s, a):
    return int(not (type(a) is float and (a != a or a in (math.inf, -math.inf))))


@bi('printf', 'mexPrintf', 'ssPrintf')
def _(s, f, *a):
    if s.jr is not None:
        raise MergeAbort('printf')
    for i, v in enumerate(a):
        if v is UNDEF:
            raise Violation('uninit', 'printf of an uninitialised value: %r' % s.cstr(f)[:60])
    s.out.append((s.cstr(f), a))
    return 1


@bi('puts')
def _(s, f):
    s.out.append((s.cstr(f) + '\n', ()))
    return 1


@bi('putchar', 'fputc', 'putc')
def _(s, f, *r):
    s.out.append(('c', (f,)))
    return 1


@bi('fprintf')
def _(s, st, f, *a):
    s.out.append((s.cstr(f), a))
    return 1


@bi('fflush')
def _(s, *a):
    return 0


@bi('snprintf', 'sprintf')
def _(s, *a):
    _raise('sprintf')


@bi('strcmp')
def _(s, a, b):
    x, y = s.cstr(a), s.cstr(b)
    return (x > y) - (x < y)


@bi('strncmp')
def _(s, a, b, n):
    n = s.conc(n)
    x, y = s.cstr(a)[:n], s.cstr(b)[:n]
    return (x > y) - (x < y)


@bi('strlen')
def _(s, a):
    return len(s.cstr(a))


@bi('clock_gettime')
def _(s, clk, p):
    s.clock += 0.001
    s.store(Ptr(p.o, p.off), int(s.clock), 8)
    s.store(Ptr(p.o, p.off + 8), int((s.clock % 1) * 1e9), 8)
    return 0


@bi('abort', 'exit', '_exit', '__assert_fail')
def _(s, *a):
    raise Violation('abort', 'the code called abort/exit/assert')


# --- harness API
def rnd(s, name):
    h = hashlib.sha256(('%s|%s' % (s.seed, name)).encode()).digest()
    return int.from_bytes(h[:6], 'little')


def uname(s, name):
    if name not in s.inputs:
        return name
    i = 2
    while '%s#%d' % (name, i) in s.inputs:
        i += 1
    return '%s#%d' % (name, i)


@bi('sym_int')
def _(s, nm, lo, hi):
    name = uname(s, s.cstr(nm))
    lo, hi = s.conc(lo), s.conc(hi)
    if name in s.cfg.get('pin', {}):
        v = int(s.cfg['pin'][name])
        s.inputs[name] = (None, v)
        return v
    if lo == hi:
        s.inputs[name] = (None, lo)
        return lo
    a = s.ctx.atom(name, True, 'in', lo + rnd(s, name) % (hi - lo + 1))
    a.lo, a.hi = lo, hi
    s.inputs[name] = (a, None)
    return sym.avar(a)


@bi('sym_choose')
def _(s, nm, n):
    n = s.conc(n)
    pin = s.cfg.get('pin', {})
    if n < 2 or pin or s.jr is not None or not s.cfg.get('multi'):
        return s.conc(BUILTINS['sym_int'](s, nm, 0, n - 1))
    name = uname(s, s.cstr(nm))     # a fresh choice: all values are feasible, fork over them at once
    k = s.decide(lambda: (('c', 0), [('c', i) for i in range(n - 1, 0, -1)]))[1]
    a = s.ctx.atom(name, True, 'in', k)
    a.lo, a.hi = 0, n - 1
    s.inputs[name] = (a, None)
    s.sol.add(rel(sym.avar(a) - k, '=='))
    return k


@bi('sym_conc')
def _(s, v):
    return s.conc(v)


@bi('sym_real')
def _(s, nm):
    return mkreal(s, s.cstr(nm), None)


@bi('sym_real_w')
def _(s, nm, w):
    return mkreal(s, s.cstr(nm), w)


def mkreal(s, name, w):
    name = uname(s, name)
    if name in s.cfg.get('pin', {}):
        v = s.cfg['pin'][name]
        v = float(Fraction(v)) if isinstance(v, str) else float(v)
        s.inputs[name] = (None, v)
        return v
    if w is None:
        k = rnd(s, name) % 31 - 15
        w = (k if k else 1) / 8.0 + (rnd(s, name + '~') % 7) / 64.0
    if name in s.wov:
        w = float(s.wov[name])
    a = s.ctx.atom(name, False, 'in', w)
    s.inputs[name] = (a, None)
    return sym.avar(a)


@bi('sym_assume')
def _(s, c):
    if c is UNDEF:
        raise Unsupported('assume undef')
    if type(c) is Poly:
        c = cnot(s.relc(c, '=='))
    elif type(c) is int:
        c = c != 0
    s.assume(c)


def tocond(s, c):
    if c is UNDEF:
        return c
    if type(c) is Poly:
        return cnot(s.relc(c, '=='))
    if type(c) is int:
        return c != 0
    return c


@bi('sym_check')
def _(s, c, msg):
    c = tocond(s, c)
    m = s.cstr(msg)
    if c is UNDEF:
        raise Violation('uninit', 'checked value is uninitialised: ' + m)
    s.prove(c, m)


def margin(s, d):
    """extra constraints that make a counterexample robust in floating point"""
    return None


@bi('sym_eq')
def _(s, a, b, msg):
    m = s.cstr(msg)
    if a is UNDEF or b is UNDEF:
        raise Violation('uninit', 'checked value is uninitialised: ' + m)
    ta, tb = type(a), type(b)
    s.nchecks += 0
    if ta is float and tb is float:
        ok = (a == b) or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        return s.prove(ok, m)
    for x in (a, b):
        if type(x) is float and (x != x or x in (math.inf, -math.inf)):
            return s.prove(False, m)
    d = sym.lift(a) - sym.lift(b)
    if type(d) is not Poly:
        return s.prove(abs(d) <= 1e-9, m)
    d = reduce(s, d)
    if type(d) is Poly and any(s.ctx.atoms[v].kind in ('quot', 'cut') for v in d.atoms()):
        for cuts in (False, True):
            try:
                d2 = sym.clear(d, cuts=cuts)
            except sym.TooBig:
                continue
            if type(d2) is not Poly or cuts:
                d = d2
                break
    if type(d) is not Poly:
        return s.prove(abs(d) <= 1e-9, m)
    c = rel(d, '==')
    big = cor(rel(d + Fraction(1, 100), '<'), rel(Fraction(1, 100) - d, '<'))
    s.prove(c, m, margin=[big] + nice(s) if big is not True else None)


@bi('sym_near')
def _(s, a, b, tol, msg):
    """|a - b| <= tol (natively with a little slack)"""
    m = s.cstr(msg)
    if a is UNDEF or b is UNDEF:
        raise Violation('uninit', 'checked value is uninitialised: ' + m)
    if type(a) is float and type(b) is float:
        return s.prove((a == b) or (a != a and b != b) or abs(a - b) <= tol, m)
    for x in (a, b):
        if type(x) is float and (x != x or x in (math.inf, -math.inf)):
            return s.prove(False, m)
    d = sym.lift(a) - sym.lift(b)
    t = sym.lift(tol)
    if type(d) is not Poly:
        return s.prove(abs(d) <= t, m)
    d = reduce(s, d)
    if type(d) is not Poly:
        return s.prove(abs(d) <= t, m)
    s.nchecks -= 1
    big = cor(rel(d + 10 * t, '<'), rel(10 * t - d, '<'))
    for c in (rel(d - t, '<='), rel(-d - t, '<=')):
        s.prove(c, m, margin=[big] if big is not True else None)
    return


@bi('sym_same')
def _(s, a, b, msg):
    """bit-for-bit same (used for copies); over symbolic values: equal"""
    m = s.cstr(msg)
    if type(a) is float and type(b) is float:
        return s.prove(a == b or (a != a and b != b), m)
    return BUILTINS['sym_eq'](s, a, b, msg)


def nice(s):
    out = []
    for nm, (at, v) in s.inputs.items():
        if at is not None and not at.isint:
            p = sym.avar(at)
            out.append(cand(rel(p - 50, '<='), rel(-50 - p, '<=')))
    return out


def cmpbuiltin(op):
    def f(s, a, b, msg):
        m = s.cstr(msg)
        if a is UNDEF or b is UNDEF:
            raise Violation('uninit', 'checked value is uninitialised: ' + m)
        if type(a) is float and type(b) is float:
            tol = 1e-9 * max(1.0, abs(a), abs(b)) if abs(a) < 1e300 and abs(b) < 1e300 else 0
            return s.prove(a <= b + tol if op == 'ole' else a < b, m)
        c = s.fcmp(op, a, b)
        mg = None
        if type(c) is Cond:
            try:
                d = sym.lift(a) - sym.lift(b)
                x = rel(Fraction(1, 100) - d, '<')
                if type(x) is Cond:
                    mg = [x] + nice(s)
            except Unsupported:
                pass
        s.prove(c, m, margin=mg)
    return f


BUILTINS['sym_le'] = cmpbuiltin('ole')
BUILTINS['sym_lt'] = cmpbuiltin('olt')


def reduce(s, d):
    """rewrite modulo the quotient definitions q*b = a (normal form step; sound because it only uses the
    definitions): replace q*lm(b) by (a - q*(b-lm(b)))"""
    A = s.ctx.atoms
    n = 0
    while type(d) is Poly and n < 400:
        hit = None
        for m in d.t:
            for v, e in m:
                at = A[v]
                if at.kind == 'quot' and at.quot is not None:
                    num_, b = at.quot
                    lb = sym.lead(b.t)
                    if not lb:
                        continue
                    rest = sym.mdiv(m, ((v, 1),))
                    r2 = sym.mdiv(rest, lb)
                    if r2 is not None:
                        # newest quotient first
                        if hit is None or v > hit[0]:
                            hit = (v, m, r2, at, num_, b, lb)
        if hit is None:
            break
        v, m, r2, at, num_, b, lb = hit
        c = d.t[m]
        q = sym.avar(at)
        rest = sym.mk({k: x for k, x in b.t.items() if k != lb}, True)
        rep = (num_ - q * rest) if not (type(rest) is int and rest == 0) else num_
        d2 = dict(d.t)
        del d2[m]
        base = sym.mk(d2, True)
        mon = sym.mk({r2: c}, True)
        d = base + (mon * rep if type(mon) is Poly else rep * mon if type(rep) is Poly else mon * rep)
        n += 1
        if type(d) is Poly and len(d.t) > 3000:
            break
    return d


@bi('sym_reach')
def _(s, tag):
    t = s.cstr(tag)
    if not s.reached.get(t):
        # witness: is the path condition satisfiable here?
        r = s.sol.check([], s.qt, full=True) if s.sol.pc and not s.sol.witok else 'sat'
        s.reached[t] = r
        s.sol.st.q += 0


@bi('sym_policy')
def _(s, follow, merge):
    s.follow = s.conc(follow)
    s.merge = s.conc(merge)


@bi('sym_wseed')
def _(s, k):
    s.seed = '%s/%d' % (s.cfg.get('wseed', 1), s.conc(k))


@bi('sym_param')
def _(s, nm, dflt):
    return int(s.env.get(s.cstr(nm), dflt))


@bi('sym_paramd')
def _(s, nm, dflt):
    return float(s.env.get(s.cstr(nm), dflt))


@bi('sym_outcount')
def _(s):
    return len(s.out)


def outscan(s, start):
    """-> [(label, value)], text: numbers printed since print call start with the letters before them on their line"""
    items, lab, txt = [], [], []

    def lit(t):
        for ch in t:
            if ch == '\n':
                lab.clear()
            elif ch == '_' or (ch.isascii() and ch.isalnum()):
                lab.append(ch)
                txt.append(ch)
    for k, (f, a) in enumerate(s.out):
        if f == 'c' and len(a) == 1:
            lit(chr(a[0] & 255) if type(a[0]) is int else '')
            continue
        if k == start:
            txt.clear()
            items.clear()
        a = list(a)
        pos = 0
        for m in re.finditer(r'%([-+ #0-9.*]*)([lzhjt]*)([a-zA-Z%])', f):
            lit(f[pos:m.start()])
            pos = m.end()
            if m.group(3) == '%':
                continue
            for _ in range(m.group(1).count('*')):
                a.pop(0)
            if not a:
                raise Violation('check', 'printf is given fewer values than its format has')
            v = a.pop(0)
            if m.group(3) == 's':
                lit(s.cstr(v))
                continue
            isf = m.group(3) in 'feEgGaAF'
            if (type(v) is float and not isf) or (type(v) is int and isf):
                v = math.nan
            items.append((''.join(lab), v, isf))
            lab.clear()
        lit(f[pos:])
    if start >= len(s.out):
        return [], ''
    return items, ''.join(txt)


def letters(t):
    return ''.join(ch for ch in t if ch == '_' or (ch.isascii() and ch.isalnum()))


@bi('sym_outhas')
def _(s, start, t):
    return int(letters(s.cstr(t)) in outscan(s, s.conc(start))[1])


@bi('sym_outnum')
def _(s, start, t):
    l = letters(s.cstr(t))
    return sum(1 for x in outscan(s, s.conc(start))[0] if x[0] == l)


@bi('sym_outval')
def _(s, start, t, k):
    l = letters(s.cstr(t))
    x = [x for x in outscan(s, s.conc(start))[0] if x[0] == l]
    k = s.conc(k)
    if k >= len(x):
        return 0.0
    v = x[k][1]
    return float(v) if type(v) is int else v


@bi('sym_heapmark')
def _(s):
    return s.nalloc


@bi('sym_noleak')
def _(s, mark, msg):
    s.nchecks += 1
    for o in s.heap:
        if o.alive and o.id > mark:
            s.record('leak', s.cstr(msg) + ': %r allocated and never freed' % o, [])
            break


@bi('sym_failalloc')
def _(s, k):
    k = s.conc(k)
    s.failalloc = None if k < 0 else k


@bi('sym_isnull_or_valid')
def _(s, p):
    return 1


@bi('sym_protect')
def _(s, p, n):
    n = s.conc(n)
    if n == 0 or p.o is None:
        return
    o, off = s.chk(p, n, 'protect')
    s.protected.append((o, off, n, {k: v for k, v in o.c.items() if off <= k < off + n}))


@bi('sym_callermem')
def _(s, n):
    return s.malloc(n)


@bi('sym_callerfree')
def _(s, p):
    s.free(p)


@bi('sym_readonly')
def _(s, p, on):
    s.chk(p, 1, 'read-only mark')[0].ro = bool(s.conc(on))


@bi('sym_unmodelled')
def _(s, msg):
    raise Unsupported('the environment model lacks ' + s.cstr(msg))


@bi('sym_verify_protected')
def _(s, msg):
    m = s.cstr(msg)
    for o, off, n, snap in s.protected:
        if not o.alive:
            s.nchecks += 1
            s.record('check', m + ': caller memory %r was freed' % o, [])
            continue
        for k in sorted(set(snap) | {k for k in o.c if off <= k < off + n}):
            a, b = snap.get(k), o.c.get(k)
            if a is b:
                s.nchecks += 1
                continue
            if a is None or b is None or a[0] != b[0]:
                s.prove(False, m)
                continue
            x, y = a[1], b[1]
            if type(x) is Ptr or type(y) is Ptr:
                s.prove(type(x) is Ptr and type(y) is Ptr and x.o is y.o and x.off == y.off, m)
            elif type(x) in (int,) and type(y) is int:
                s.prove(x == y, m)
            elif x is UNDEF or y is UNDEF:
                s.prove(x is y, m)
            elif type(x) is float and type(y) is float:
                s.prove(x == y or (x != x and y != y), m)
            else:
                d = sym.lift(x) - sym.lift(y)
                s.prove(rel(d, '=='), m)
    s.protected = []


@bi('sym_catch')
def _(s, fn, arg):
    """run fn(arg); returns 1 if it ended in sym_throw()"""
    n = len(s.frames)
    try:
        s.icall(fn, [arg])
        return 0
    except SymThrow:
        while len(s.frames) > n:
            for o in s.frames.pop():
                o.alive = False
        return 1


@bi('sym_throw')
def _(s):
    raise SymThrow()


@bi('sym_note')
def _(s, msg, v):
    pass


@bi('sym_globals_mark')
def _(s):
    """snapshot of every mutable global of the program (not of the harness, whose names start with h_)"""
    s.gsnap = {}
    for name, (t, init, const, ext) in s.cm.m.globals.items():
        if const or name.startswith(('h_', '.str', 'llvm.', '__const')) or ext:
            continue
        o = s[name]
        s.gsnap[name] = dict(o.c)


@bi('sym_globals_readonly')
def _(s, on):
    """from now on any store to a mutable global of the program is a violation"""
    on = bool(s.conc(on))
    for name, (t, init, const, ext) in s.cm.m.globals.items():
        if not (const or name.startswith(('h_', '.str', 'llvm.', '__const')) or ext):
            s[name].ro = on


@bi('sym_globals_check')
def _(s, msg):
    m = s.cstr(msg)
    for name, snap in s.gsnap.items():
        o = s[name]
        s.nchecks += 1
        if o.c != snap:
            ks = [k for k in set(o.c) | set(snap) if o.c.get(k) != snap.get(k)]
            bad = False
            for k in ks:
                a, b = o.c.get(k), snap.get(k)
                if a is None and b is not None or b is None and a is not None:
                    bad = True
                elif type(a[1]) is Ptr and type(b[1]) is Ptr:
                    bad |= not (a[1].o is b[1].o and a[1].off == b[1].off)
                else:
                    bad = True
            if bad:
                s.record('check', m + ': global %s was modified' % name, [])
