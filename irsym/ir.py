"""Parser for the subset of textual LLVM IR that clang -O0 + mem2reg emits for C."""
import re

TOK = re.compile(r'''
  c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*"
 | [%@](?:"[^"]*"|[-\w.$]+)
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | -?\d+
 | !\w+ | \#\d+
 | \.\.\.
 | [A-Za-z_][\w.]*
 | [()\[\]{}<>,=*:!]
''', re.X)


class IRError(Exception):
    pass


class T:
    """type: kind in int,double,float,ptr,void,array,struct,label,func,metadata"""
    __slots__ = ('k', 'n', 'el', 'packed', '_sz', '_al', '_offs')

    def __init__(s, k, n=0, el=None, packed=False):
        s.k, s.n, s.el, s.packed = k, n, el, packed
        s._sz = s._al = s._offs = None

    def __repr__(s):
        return '%s%s' % (s.k, s.n or '')

    def align(s):
        if s._al is None:
            k = s.k
            if k == 'int':
                b = (s.n + 7) // 8
                a = 1
                while a < b and a < 16:
                    a *= 2
                s._al = a
            elif k in ('double', 'ptr'):
                s._al = 8
            elif k == 'float':
                s._al = 4
            elif k == 'x86_fp80':
                s._al = 16
            elif k == 'array':
                s._al = s.el.align()
            elif k == 'struct':
                s._al = 1 if s.packed else max([e.align() for e in s.el] or [1])
            else:
                raise IRError('align of ' + k)
        return s._al

    def size(s):
        if s._sz is None:
            k = s.k
            if k == 'int':
                a = s.align()
                s._sz = (((s.n + 7) // 8 + a - 1) // a) * a
            elif k in ('double', 'ptr'):
                s._sz = 8
            elif k == 'float':
                s._sz = 4
            elif k == 'x86_fp80':
                s._sz = 16
            elif k == 'array':
                s._sz = s.n * s.el.size()
            elif k == 'struct':
                s.offs()
            else:
                raise IRError('size of ' + k)
        return s._sz

    def offs(s):
        if s._offs is None:
            o = 0
            r = []
            for e in s.el:
                if not s.packed:
                    a = e.align()
                    o = (o + a - 1) // a * a
                r.append(o)
                o += e.size()
            a = s.align()
            s._offs = r
            s._sz = (o + a - 1) // a * a
        return s._offs


I = {}


def INT(n):
    if n not in I:
        I[n] = T('int', n)
    return I[n]


DOUBLE, FLOAT, PTR, VOID, LABEL, META, FP80 = (T('double'), T('float'), T('ptr'), T('void'),
                                              T('label'), T('metadata'), T('x86_fp80'))

PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'readnone', 'writeonly',
               'noalias', 'returned', 'immarg', 'inreg', 'nest', 'swiftself', 'nofree', 'allocalign', 'allocptr',
               'writable', 'nsw', 'nuw', 'exact', 'inbounds', 'tail', 'musttail', 'notail', 'fastcc', 'ccc',
               'coldcc', 'noundef,', 'mustprogress', 'nneg', 'disjoint', 'samesign', 'nnan', 'ninf', 'nsz', 'arcp',
               'contract', 'afn', 'reassoc', 'fast', 'volatile'}
FASTMATH = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'flags', 'line')

    def __init__(s, op, dst=None, ty=None, a=(), x=None, flags=(), line=''):
        s.op, s.dst, s.ty, s.a, s.x, s.flags, s.line = op, dst, ty, a, x, flags, line


class Fn:
    def __init__(s, name):
        s.name = name
        s.params = []
        s.ret = None
        s.blocks = {}
        s.order = []
        s.vararg = False


class Module:
    def __init__(s):
        s.types = {}
        s.globals = {}   # name -> (type, init const or None, is_const, is_extern)
        s.fns = {}
        s.decls = {}


class P:
    """token cursor"""

    def __init__(s, text, mod):
        s.t = TOK.findall(text)
        s.i = 0
        s.m = mod
        s.text = text

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        r = s.t[s.i]
        s.i += 1
        return r

    def acc(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def exp(s, x):
        if not s.acc(x):
            raise IRError('expected %r at %r in %r' % (x, s.t[s.i:s.i + 5], s.text[:200]))

    def type(s):
        t = s.next()
        if t == 'ptr':
            r = PTR
            if s.peek() == 'addrspace':
                s.next(); s.exp('('); s.next(); s.exp(')')
        elif t == 'double':
            r = DOUBLE
        elif t == 'float':
            r = FLOAT
        elif t == 'x86_fp80':
            r = FP80
        elif t == 'void':
            r = VOID
        elif t == 'label':
            r = LABEL
        elif t == 'metadata':
            r = META
        elif re.fullmatch(r'i\d+', t):
            r = INT(int(t[1:]))
        elif t == '[':
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp(']')
            r = T('array', n, e)
        elif t == '{':
            r = T('struct', 0, s.typelist('}'))
        elif t == '<':
            if s.acc('{'):
                r = T('struct', 0, s.typelist('}'), True)
                s.exp('>')
            else:
                n = int(s.next()); s.exp('x'); e = s.type(); s.exp('>')
                r = T('vector', n, e)
        elif t[0] == '%':
            n = t
            if n not in s.m.types:
                s.m.types[n] = T('opaque')
            r = s.m.types[n]
            if isinstance(r, str):
                body = r
                r = P(body, s.m).type()
                s.m.types[n] = r
        else:
            raise IRError('type? %r in %r' % (t, s.text[:200]))
        # function type suffix (only in calls): ret (args)
        return r

    def typelist(s, end):
        r = []
        if s.acc(end):
            return r
        while True:
            r.append(s.type())
            if s.acc(end):
                return r
            s.exp(',')

    def attrs(s):
        while True:
            t = s.peek()
            if t in PARAM_ATTRS:
                s.i += 1
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'align', 'byval', 'sret', 'elementtype',
                       'allocsize', 'memory', 'captures', 'range'):
                s.i += 1
                if s.peek() == '(':
                    d = 0
                    while True:
                        u = s.next()
                        if u == '(':
                            d += 1
                        elif u == ')':
                            d -= 1
                            if d == 0:
                                break
                elif t == 'align':
                    s.i += 1
            else:
                return

    def val(s, ty):
        """operand value of type ty -> ('r',name)|('c',const)|('g',name)|('ce',...)"""
        t = s.next()
        if t[0] == '%':
            return ('r', t)
        if t[0] == '@':
            return ('g', t[1:].strip('"'))
        if t == 'true':
            return ('c', True)
        if t == 'false':
            return ('c', False)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('c', 0)
        if t[0] in '-0123456789' and (ty is None or ty.k in ('int',)):
            return ('c', int(t))
        if ty is not None and ty.k in ('double', 'float'):
            if t.startswith('0x'):
                import struct
                return ('c', struct.unpack('<d', int(t, 16).to_bytes(8, 'little'))[0])
            return ('c', float(t))
        if ty is not None and ty.k == 'x86_fp80':
            return ('undef',)
        if t[0:2] == 'c"':
            return ('str', unesc(t[2:-1]))
        if t == '[' or t == '{' or t == '<':
            end = {'[': ']', '{': '}', '<': '>'}[t]
            packed = False
            if t == '<' and s.peek() == '{':
                s.next(); packed = True; end = '}'
            els = []
            if not s.acc(end):
                while True:
                    et = s.type()
                    els.append((et, s.val(et)))
                    if s.acc(end):
                        break
                    s.exp(',')
            if packed:
                s.exp('>')
            return ('agg', els)
        if t == 'getelementptr':
            while s.peek() in ('inbounds', 'nuw', 'nusw'):
                s.next()
            s.exp('(')
            bt = s.type(); s.exp(',')
            ops = []
            while True:
                et = s.type()
                if s.peek() == 'inrange':
                    s.next()
                ops.append((et, s.val(et)))
                if s.acc(')'):
                    break
                s.exp(',')
            return ('gep', bt, ops)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
            s.exp('(')
            et = s.type(); v = s.val(et); s.exp('to'); s.type(); s.exp(')')
            return v
        raise IRError('value? %r in %r' % (t, s.text[:200]))

    def tval(s):
        ty = s.type()
        s.attrs()
        return ty, s.val(ty)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode('latin1'); i += 1
    return bytes(out)


LINK = {'private', 'internal', 'external', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'common', 'appending',
        'extern_weak', 'available_externally', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
        'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized'}


def parse(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    # types first (lazily parsed)
    for l in lines:
        mt = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', l)
        if mt:
            m.types[mt.group(1)] = T('opaque') if mt.group(2).strip() == 'opaque' else mt.group(2)
    while i < n:
        l = lines[i]
        i += 1
        if not l or l[0] in ';!' or l.startswith(('source_filename', 'target ', 'attributes', 'module asm', '%')):
            continue
        if l[0] == '@':
            pglobal(m, l)
        elif l.startswith('declare'):
            pheader(m, l, True)
        elif l.startswith('define'):
            f = pheader(m, l, False)
            body = []
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            pbody(m, f, body)
    return m


def pglobal(m, l):
    p = P(l, m)
    name = p.next()[1:].strip('"')
    p.exp('=')
    ext = False
    while p.peek() in LINK:
        if p.peek() in ('external', 'extern_weak'):
            ext = True
        if p.next() == 'thread_local' and p.peek() == '(':
            while p.next() != ')':
                pass
    k = p.next()
    if k == 'alias':
        t = p.type(); p.exp(','); p.type(); v = p.val(PTR)
        m.globals[name] = (t, ('alias', v), False, False)
        return
    if k not in ('global', 'constant'):
        raise IRError('global? ' + l[:100])
    t = p.type()
    init = None
    if not ext:
        init = p.val(t)
    m.globals[name] = (t, init, k == 'constant', ext)


def pheader(m, l, decl):
    p = P(l, m)
    p.next()
    while not (p.peek()[0] == '@'):
        # skip to name; capture return type just before it
        save = p.i
        t = p.peek()
        if t in LINK or t in PARAM_ATTRS or t in ('range', 'align', 'dereferenceable', 'dereferenceable_or_null'):
            if t in LINK:
                p.i += 1
            else:
                p.attrs() if t != 'tail' else p.next()
            continue
        ret = p.type()
        p.attrs()
    name = p.next()[1:].strip('"')
    p.exp('(')
    f = Fn(name)
    f.ret = ret
    k = 0
    if not p.acc(')'):
        while True:
            if p.acc('...'):
                f.vararg = True
                p.exp(')')
                break
            t = p.type()
            p.attrs()
            nm = '%' + str(k)
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()
            f.params.append((t, nm))
            k += 1
            if p.acc(')'):
                break
            p.exp(',')
    if decl:
        m.decls[name] = f
    else:
        m.fns[name] = f
    return f


LBL = re.compile(r'^((?:"[^"]*"|[-\w.$]+)):')


def pbody(m, f, body):
    cur = None
    nunnamed = str(len([1 for t, nm in f.params if re.fullmatch(r'%\d+', nm)]))
    j = 0
    while j < len(body):
        l = body[j]
        j += 1
        if not l.strip() or l.lstrip().startswith(';'):
            continue
        mt = LBL.match(l)
        if mt:
            cur = '%' + mt.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = '%' + nunnamed
            f.blocks[cur] = []
            f.order.append(cur)
        s = l.strip()
        if s.startswith('switch') and not s.rstrip().endswith(']') and ']' not in s:
            while True:
                s += ' ' + body[j].strip()
                j += 1
                if body[j - 1].strip().startswith(']'):
                    break
        # strip metadata / trailing attributes
        s = re.sub(r', !\w+ !\d+', '', s)
        f.blocks[cur].append(pinst(m, s))


def pinst(m, s):
    p = P(s, m)
    dst = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        dst = p.next()
        p.next()
    op = p.next()
    fl = []

    def flags():
        while p.peek() in ('nsw', 'nuw', 'exact', 'inbounds', 'nneg', 'disjoint', 'samesign', 'nusw') or p.peek() in FASTMATH:
            fl.append(p.next())
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
              'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        flags()
        t = p.type(); a = p.val(t); p.exp(','); b = p.val(t)
        return Inst(op, dst, t, (a, b), None, fl, s)
    if op == 'fneg' or op == 'freeze':
        flags()
        t = p.type(); a = p.val(t)
        return Inst(op, dst, t, (a,), None, fl, s)
    if op in ('icmp', 'fcmp'):
        flags()
        pred = p.next()
        t = p.type(); a = p.val(t); p.exp(','); b = p.val(t)
        return Inst(op, dst, t, (a, b), pred, fl, s)
    if op in ('trunc', 'zext', 'sext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
              'ptrtoint', 'inttoptr'):
        flags()
        t = p.type(); a = p.val(t); p.exp('to'); t2 = p.type()
        return Inst(op, dst, t2, (a,), t, fl, s)
    if op == 'alloca':
        t = p.type()
        cnt = None
        if p.acc(','):
            if p.peek() != 'align':
                ct = p.type(); cnt = p.val(ct)
        return Inst(op, dst, t, (), cnt, fl, s)
    if op == 'load':
        if p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type(); p.exp(','); p.type(); a = p.val(PTR)
        return Inst(op, dst, t, (a,), None, fl, s)
    if op == 'store':
        if p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type(); v = p.val(t); p.exp(','); p.type(); a = p.val(PTR)
        return Inst(op, None, t, (v, a), None, fl, s)
    if op == 'getelementptr':
        flags()
        bt = p.type(); p.exp(',')
        p.type(); base = p.val(PTR)
        idx = []
        while p.acc(','):
            it = p.type()
            idx.append((it, p.val(it)))
        return Inst(op, dst, bt, (base,), idx, fl, s)
    if op == 'phi':
        flags()
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.val(t); p.exp(','); b = p.next(); p.exp(']')
            inc.append((v, b))
            if not p.acc(','):
                break
        return Inst(op, dst, t, (), inc, fl, s)
    if op == 'select':
        flags()
        ct = p.type(); c = p.val(ct); p.exp(',')
        t = p.type(); a = p.val(t); p.exp(',')
        p.type(); b = p.val(t)
        return Inst(op, dst, t, (c, a, b), None, fl, s)
    if op == 'br':
        if p.acc('label'):
            return Inst('jmp', None, None, (), p.next(), fl, s)
        p.type(); c = p.val(INT(1)); p.exp(','); p.exp('label'); a = p.next(); p.exp(','); p.exp('label'); b = p.next()
        return Inst('br', None, None, (c,), (a, b), fl, s)
    if op == 'switch':
        t = p.type(); v = p.val(t); p.exp(','); p.exp('label'); d = p.next(); p.exp('[')
        cs = []
        while not p.acc(']'):
            p.type(); c = p.val(t); p.exp(','); p.exp('label')
            cs.append((c[1], p.next()))
        return Inst('switch', None, t, (v,), (d, cs), fl, s)
    if op == 'ret':
        if p.peek() == 'void':
            return Inst('ret', None, VOID, (), None, fl, s)
        t = p.type(); v = p.val(t)
        return Inst('ret', None, t, (v,), None, fl, s)
    if op == 'unreachable':
        return Inst(op, None, None, (), None, fl, s)
    if op == 'call':
        flags()
        p.attrs()
        rt = p.type()
        p.attrs()
        if p.peek() == '(':  # function type
            d = 0
            while True:
                u = p.next()
                if u == '(':
                    d += 1
                elif u == ')':
                    d -= 1
                    if d == 0:
                        break
        if p.peek() == 'asm':
            raise IRError('inline asm')
        callee = p.val(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                t = p.type()
                p.attrs()
                if t.k == 'metadata':
                    # skip metadata argument
                    d = 0
                    while p.peek() not in (',', ')') or d:
                        u = p.next()
                        if u == '(':
                            d += 1
                        elif u == ')':
                            d -= 1
                    args.append((t, ('undef',)))
                else:
                    args.append((t, p.val(t)))
                if p.acc(')'):
                    break
                p.exp(',')
        return Inst('call', dst, rt, tuple(args), callee, fl, s)
    if op == 'extractvalue':
        t = p.type(); a = p.val(t)
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))
        return Inst(op, dst, t, (a,), idx, fl, s)
    if op == 'insertvalue':
        t = p.type(); a = p.val(t); p.exp(','); t2 = p.type(); b = p.val(t2)
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))
        return Inst(op, dst, t, (a, b), idx, fl, s)
    raise IRError('inst? ' + s[:200])
