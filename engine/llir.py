"""Mechanical extraction: C source -> LLVM IR (clang, -O0 + mem2reg-style
clean-up) -> a small Python AST of the IR.  Nothing is dropped: every function
defined in the translation unit is parsed; an instruction outside the supported
subset raises Unsupported as soon as it is executed symbolically."""
import re, subprocess, os, tempfile

CLANG = 'clang-18'
OPT = 'opt-18'
PASSES = 'function(sroa,simplifycfg,loop-simplify)'


class ExtractError(Exception):
    pass


class Unsupported(Exception):
    pass


def compile_ll(src, incdirs, defines=()):
    """Compile one C file to textual IR."""
    cmd = [CLANG, '-std=gnu11', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
           '-S', '-emit-llvm', '-g0', '-w'] + ['-I' + d for d in incdirs] + \
          ['-D' + d for d in defines] + [src, '-o', '-']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise ExtractError('clang failed on %s: %s' % (src, p.stderr.decode()[:2000]))
    q = subprocess.run([OPT, '-S', '-passes=' + PASSES], input=p.stdout,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if q.returncode:
        raise ExtractError('opt failed on %s: %s' % (src, q.stderr.decode()[:2000]))
    return q.stdout.decode()


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el')

    def __init__(self, k, n=0, el=None):
        self.k, self.n, self.el = k, n, el

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.n
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.el))
        return self.k


VOID = Ty('void')
PTR = Ty('ptr')
_ity = {}


def ITY(n):
    if n not in _ity:
        _ity[n] = Ty('i', n)
    return _ity[n]


def align_of(t):
    if t.k == 'i':
        b = max(1, (t.n + 7) // 8)
        p = 1
        while p < b:
            p *= 2
        return min(p, 8)
    if t.k == 'ptr':
        return 8
    if t.k == 'arr':
        return align_of(t.el)
    if t.k == 'struct':
        return max([align_of(e) for e in t.el] or [1])
    raise Unsupported('align_of ' + t.k)


def size_of(t):
    if t.k == 'i':
        b = max(1, (t.n + 7) // 8)
        a = align_of(t)
        return (b + a - 1) // a * a
    if t.k == 'ptr':
        return 8
    if t.k == 'arr':
        return t.n * size_of(t.el)
    if t.k == 'struct':
        o, _ = struct_layout(t)
        return o
    raise Unsupported('size_of ' + t.k)


def struct_layout(t):
    off, offs = 0, []
    for e in t.el:
        a = align_of(e)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += size_of(e)
    a = align_of(t)
    return (off + a - 1) // a * a, offs


# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*") |
  (?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+) |
  (?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+) |
  (?P<meta>![-a-zA-Z$._0-9]*) |
  (?P<attr>\#\d+) |
  (?P<num>-?\d+(?:\.\d+e[+-]?\d+)?) |
  (?P<dots>\.\.\.) |
  (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*) |
  (?P<p>[=,()\[\]{}<>*:])
)''', re.X)


def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '':
                break
            raise ExtractError('token error at: ' + s[i:i + 60])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


SKIP_ATTR = {'noundef', 'zeroext', 'signext', 'nonnull', 'inbounds', 'nocapture', 'readonly',
             'writeonly', 'immarg', 'noalias', 'returned', 'tail', 'musttail', 'notail',
             'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'internal', 'private', 'constant',
             'global', 'inrange', 'allocptr', 'noreturn', 'volatile', 'hidden', 'fastcc', 'ccc',
             'external', 'linkonce_odr', 'weak', 'common', 'available_externally', 'disjoint', 'nneg', 'readnone'}


class P:
    def __init__(self, toks, structs):
        self.t, self.i, self.structs = toks, 0, structs

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ExtractError('expected %r, got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t)))

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in SKIP_ATTR:
                self.i += 1
            elif k == 'word' and v == 'align':
                self.i += 2
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'range', 'memory', 'captures'):
                self.i += 1
                d = 0
                while True:
                    _, x = self.next()
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
                        if d == 0:
                            break
            else:
                return

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'void':
                return VOID
            if v == 'ptr':
                return PTR
            if re.fullmatch(r'i\d+', v):
                return ITY(int(v[1:]))
            raise Unsupported('type ' + v)
        if v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            return Ty('arr', n, e)
        if v == '{':
            els = []
            if not self.accept('}'):
                while True:
                    els.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            return Ty('struct', len(els), els)
        if k == 'loc':
            if v not in self.structs:
                raise Unsupported('unknown struct ' + v)
            return self.structs[v]
        raise Unsupported('type token %r' % (v,))

    def value(self, ty):
        """operand -> tuple"""
        k, v = self.next()
        if k == 'loc':
            return ('loc', v)
        if k == 'glob':
            return ('glob', v)
        if k == 'num':
            return ('int', int(v))
        if k == 'str':
            s = v[2:-1] if v[0] == 'c' else v[1:-1]
            bs, i = [], 0
            while i < len(s):
                if s[i] == '\\':
                    bs.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    bs.append(ord(s[i]))
                    i += 1
            return ('agg', [('int', b) for b in bs])
        if k == 'word':
            if v in ('true', 'false'):
                return ('int', 1 if v == 'true' else 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                self.skip_attrs()
                self.expect('(')
                t = self.type()
                self.expect(',')
                bt = self.type()
                base = self.value(bt)
                idx = []
                while self.accept(','):
                    self.skip_attrs()
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('gep', t, base, idx)
        if v in ('[', '{'):
            close = ']' if v == '[' else '}'
            els = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    els.append(self.value(et))
                    if self.accept(close):
                        break
                    self.expect(',')
            return ('agg', els)
        raise Unsupported('operand %r' % (v,))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'txt')

    def __init__(self, op, res=None, ty=None, args=(), x=None, txt=''):
        self.op, self.res, self.ty, self.args, self.x, self.txt = op, res, ty, args, x, txt


class Func:
    def __init__(self, name, ret, params, internal):
        self.name, self.ret, self.params, self.internal = name, ret, params, internal
        self.blocks = {}
        self.order = []
        self.loops = None
        self.module = None


class Module:
    def __init__(self):
        self.structs, self.globals, self.funcs, self.decls = {}, {}, {}, {}


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}


def parse_instr(line, structs):
    toks = tokenize(line)
    # drop trailing metadata
    for n, (k, v) in enumerate(toks):
        if k == 'meta' and n > 0 and toks[n - 1][1] == ',':
            toks = toks[:n - 1]
            break
    p = P(toks, structs)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    k, op = p.next()
    txt = line.strip()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in BIN:
        fl = set()
        while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint'):
            fl.add(p.next()[1])
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr(op, res, ty, (a, b), fl, txt)
    if op == 'icmp':
        p.accept('samesign')
        pred = p.next()[1]
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr('icmp', res, ty, (a, b), pred, txt)
    if op in CAST:
        p.skip_attrs()
        while p.peek()[1] in ('nsw', 'nuw'):
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect('to')
        return Instr(op, res, p.type(), (a,), ty, txt)
    if op == 'select':
        t0 = p.type()
        c = p.value(t0)
        p.expect(',')
        t1 = p.type()
        a = p.value(t1)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return Instr('select', res, t1, (c, a, b), None, txt)
    if op == 'freeze':
        ty = p.type()
        return Instr('freeze', res, ty, (p.value(ty),), None, txt)
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            b = p.next()[1]
            p.expect(']')
            inc.append((v, b[1:]))
            if not p.accept(','):
                break
        return Instr('phi', res, ty, inc, None, txt)
    if op == 'load':
        p.skip_attrs()
        ty = p.type()
        p.expect(',')
        p.expect('ptr')
        return Instr('load', res, ty, (p.value(PTR),), None, txt)
    if op == 'store':
        p.skip_attrs()
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('ptr')
        return Instr('store', None, ty, (v, p.value(PTR)), None, txt)
    if op == 'alloca':
        ty = p.type()
        cnt = None
        if p.accept(','):
            if p.peek()[1] != 'align':
                ct = p.type()
                cnt = (ct, p.value(ct))
        return Instr('alloca', res, ty, (), cnt, txt)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        ty = p.type()
        p.expect(',')
        bt = p.type()
        base = p.value(bt)
        idx = []
        while p.accept(','):
            p.skip_attrs()
            it = p.type()
            idx.append((it, p.value(it)))
        return Instr('gep', res, ty, (base,), idx, txt)
    if op == 'br':
        if p.accept('label'):
            return Instr('br', None, None, (), [p.next()[1][1:]], txt)
        p.type()
        c = p.value(ITY(1))
        p.expect(',')
        p.expect('label')
        a = p.next()[1][1:]
        p.expect(',')
        p.expect('label')
        b = p.next()[1][1:]
        return Instr('br', None, None, (c,), [a, b], txt)
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = p.next()[1][1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            p.type()
            c = int(p.next()[1])
            p.expect(',')
            p.expect('label')
            cases.append((c, p.next()[1][1:]))
        return Instr('switch', None, ty, (v,), (d, cases), txt)
    if op == 'ret':
        ty = p.type()
        if ty.k == 'void':
            return Instr('ret', None, ty, (), None, txt)
        return Instr('ret', None, ty, (p.value(ty),), None, txt)
    if op == 'unreachable':
        return Instr('unreachable', txt=txt)
    if op == 'call':
        p.skip_attrs()
        ty = p.type()
        if p.peek()[1] == '(':   # varargs function type
            d = 0
            while True:
                _, v = p.next()
                if v == '(':
                    d += 1
                if v == ')':
                    d -= 1
                    if d == 0:
                        break
        k, callee = p.next()
        if k == 'loc':
            return Instr('calli', res, ty, (), callee, txt)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = p.type()
                p.skip_attrs()
                args.append((at, p.value(at)))
                if p.accept(')'):
                    break
                p.expect(',')
        return Instr('call', res, ty, args, callee[1:], txt)
    return Instr('unsupported:' + op, res, txt=txt)


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    # structs first
    sdefs = {}
    for l in lines:
        mm = re.match(r'(%[-a-zA-Z$._0-9]+|%"[^"]*") = type (.*)$', l)
        if mm:
            sdefs[mm.group(1)] = mm.group(2)
    todo = dict(sdefs)
    while todo:
        n0 = len(todo)
        for nme, d in list(todo.items()):
            try:
                if d.strip() == 'opaque':
                    m.structs[nme] = Ty('opaque')
                else:
                    m.structs[nme] = P(tokenize(d), m.structs).type()
                del todo[nme]
            except Unsupported:
                pass
        if len(todo) == n0:
            break
    while i < len(lines):
        l = lines[i]
        if l.startswith('@'):
            mm = re.match(r'@([-a-zA-Z$._0-9]+) = (.*)$', l)
            if mm:
                try:
                    rest = mm.group(2)
                    const = ' constant ' in ' ' + rest
                    p = P(tokenize(rest), m.structs)
                    p.skip_attrs()
                    ty = p.type()
                    init = None
                    if p.peek()[0] != 'eof' and p.peek()[1] != ',':
                        init = p.value(ty)
                    m.globals[mm.group(1)] = (ty, init, const)
                except Unsupported:
                    m.globals[mm.group(1)] = (None, None, False)
        elif l.startswith('declare'):
            mm = re.search(r'@([-a-zA-Z$._0-9]+)\(', l)
            m.decls[mm.group(1)] = l
        elif l.startswith('define'):
            internal = ' internal ' in l or ' private ' in l
            mm = re.match(r'define (.*?)@([-a-zA-Z$._0-9]+)\((.*)\)[^)]*\{$', l)
            if not mm:
                raise ExtractError('bad define: ' + l)
            p = P(tokenize(mm.group(1)), m.structs)
            p.skip_attrs()
            ret = p.type()
            params = []
            p = P(tokenize(mm.group(3)), m.structs)
            while p.peek()[0] != 'eof':
                if p.accept('...'):
                    params.append((None, '...'))
                    break
                t = p.type()
                p.skip_attrs()
                params.append((t, p.next()[1]))
                if not p.accept(','):
                    break
            f = Func(mm.group(2), ret, params, internal)
            f.module = m
            i += 1
            cur = None
            while lines[i] != '}':
                s = lines[i]
                if s.strip() == '' or s.lstrip().startswith(';'):
                    i += 1
                    continue
                lm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
                if lm:
                    cur = lm.group(1).strip('"')
                    f.blocks[cur] = []
                    f.order.append(cur)
                    i += 1
                    continue
                if cur is None:
                    cur = 'entry'
                    f.blocks[cur] = []
                    f.order.append(cur)
                if s.strip().startswith('switch') and ']' not in s:
                    while ']' not in lines[i]:
                        i += 1
                        s += ' ' + lines[i]
                f.blocks[cur].append(parse_instr(s, m.structs))
                i += 1
            find_loops(f)
            m.funcs[f.name] = f
        i += 1
    return m


def succs(ins):
    if ins.op == 'br':
        return list(ins.x)
    if ins.op == 'switch':
        return [ins.x[0]] + [b for _, b in ins.x[1]]
    return []


class Loop:
    def __init__(self, header):
        self.header, self.blocks, self.latches = header, {header}, set()


def find_loops(f):
    preds = {b: [] for b in f.order}
    sc = {}
    for b in f.order:
        sc[b] = succs(f.blocks[b][-1])
        for s in sc[b]:
            preds[s].append(b)
    # dominators (iterative)
    allb = set(f.order)
    dom = {b: set(allb) for b in f.order}
    ent = f.order[0]
    dom[ent] = {ent}
    ch = True
    while ch:
        ch = False
        for b in f.order:
            if b == ent:
                continue
            ps = [dom[p] for p in preds[b]]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in f.order:
        for s in sc[b]:
            if s in dom[b]:
                L = loops.setdefault(s, Loop(s))
                L.latches.add(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    work += preds[x]
    f.loops = loops
    f.preds = preds


def load_c(src, incdirs, defines=()):
    return parse_module(compile_ll(src, incdirs, defines))


if __name__ == '__main__':
    import sys
    for fn in sys.argv[1:]:
        m = load_c(fn, ['/repo'])
        for f in m.funcs.values():
            print(f.name, f.ret, f.params, len(f.order), {h: sorted(L.blocks) for h, L in f.loops.items()})
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op.startswith('unsup'):
                        print('   ', ins.op, ins.txt)
        print({g: (repr(t), c) for g, (t, _, c) in m.globals.items()})
