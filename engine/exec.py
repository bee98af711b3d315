"""Symbolic executor for LLVM IR: decodes functions to closures and explores paths.

Values: int (concrete), terms.T (symbolic), tuple (aggregate / vector).
Pointers are 64-bit ints: (object id << 32) + 0x80000000 + offset.
"""
import re
import time
import terms as t
from terms import T, BIN, CMP
from llir import (P, tokenize, Module, PTR, size_of, align_of, struct_offsets, unquote, cstr, IRError, CEXPR, DBG)

MID = 0x80000000
M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class Inconclusive(Exception):
    pass


class Split(Exception):
    """the term must be made concrete: enumerate its values with the solver"""
    def __init__(self, term, user=False):
        self.term = term
        self.user = user


class Stop(Exception):
    """end of the current path"""
    def __init__(self, why):
        self.why = why


class Violated(Exception):
    def __init__(self, kind, info, model):
        self.kind = kind
        self.info = info
        self.model = model


class Obj(object):
    __slots__ = ('data', 'size', 'alive', 'ro', 'kind', 'align')

    def __init__(self, data, kind, ro=False):
        self.data = data
        self.size = len(data)
        self.alive = True
        self.ro = ro
        self.kind = kind

    def clone(self):
        o = Obj(list(self.data), self.kind, self.ro)
        o.alive = self.alive
        return o


class FnObj(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Frame(object):
    __slots__ = ('fn', 'r', 'seg', 'ip', 'allocas', 'ret')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.r = list(self.r)
        f.seg = self.seg
        f.ip = self.ip
        f.allocas = list(self.allocas)
        f.ret = self.ret
        return f


class Seg(object):
    __slots__ = ('code', 'lines', 'end', 'next', 'block', 'pure', 'hit', 'idx', 'endline')

    def __init__(self, block):
        self.code = []
        self.lines = []
        self.end = None
        self.next = None
        self.block = block
        self.pure = True
        self.hit = False
        self.endline = ''


class Block(object):
    __slots__ = ('name', 'first', 'last', 'phis', 'term', 'panic', 'fn', 'idx', 'lines', 'region', 'nsegs')


# ------------------------------------------------------------------ the state

class State(object):
    __slots__ = ('eng', 'frames', 'objs', 'own', 'nextid', 'pc', 'pcset', 'pending', 'model', 'guard', 'syms', 'conc',
                 'obs', 'ip', 'expect', 'watch', 'nsplit', 'steps', 'trace', 'memo', 'nsym')

    def clone(self):
        s = State()
        s.eng = self.eng
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        s.own = set()
        self.own = set()
        s.nextid = self.nextid
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.pending = list(self.pending)
        s.model = self.model
        s.memo = {}
        s.guard = self.guard
        s.syms = list(self.syms)
        s.conc = dict(self.conc)
        s.obs = list(self.obs)
        s.ip = self.ip
        s.expect = self.expect
        s.watch = self.watch
        s.nsplit = self.nsplit
        s.steps = self.steps
        s.trace = self.trace
        s.nsym = self.nsym
        return s

    # ---- obligations
    def oblige(self, cond, kind, info):
        """cond must hold whenever this point is reached (under the current guard)"""
        if type(cond) is int and cond:
            self.eng.stats['trivial'] += 1
            return
        g = self.guard
        if g != 1 or type(g) is not int:
            cond = t.or_(1, t.not_(g), cond)
            if type(cond) is int and cond:
                self.eng.stats['trivial'] += 1
                return
        if type(cond) is int:
            raise Violated(kind, info, self.model)
        if not t.evaluate(cond, self.model, self.memo):
            raise Violated(kind, info, self.model)
        self.pending.append((cond, kind, info))

    def set_model(self, m):
        self.model = m
        self.memo = {}

    def ev(self, x):
        return t.evaluate(x, self.model, self.memo)

    # ---- memory
    def alloc(self, size, kind, fill=None):
        i = self.nextid
        self.nextid = i + 1
        self.objs[i] = Obj([fill] * size, kind)
        self.own.add(i)
        return (i << 32) | MID

    def obj(self, i):
        o = self.objs.get(i)
        if o is None:
            o = self.eng.global_obj(i)
        return o

    def wobj(self, i):
        if i in self.own:
            return self.objs[i]
        o = self.objs.get(i)
        if o is None:
            o = self.eng.global_obj(i)
            if o is None:
                return None
        o = o.clone()
        self.objs[i] = o
        self.own.add(i)
        return o

    def bad(self, what, a, n):
        """a definitely invalid access under the current guard"""
        self.oblige(0, 'memory', '%s of %d bytes at %s' % (what, n, self.describe(a)))

    def describe(self, a):
        if type(a) is not int:
            return 'symbolic address'
        o = self.obj(a >> 32)
        if o is None or isinstance(o, FnObj):
            return hex(a)
        return '%s object of %d bytes%s, offset %d' % (o.kind, o.size, '' if o.alive else ' (freed)', (a & 0xffffffff) - MID)

    def load(self, a, n):
        """n bytes little-endian at concrete address a; value of 8n bits"""
        o = self.objs.get(a >> 32)
        if o is None:
            o = self.eng.global_obj(a >> 32)
        off = (a & 0xffffffff) - MID
        if o is None or type(o) is FnObj or not o.alive or off < 0 or off + n > o.size:
            self.bad('read', a, n)
            return 0
        d = o.data
        if n == 1:
            v = d[off]
            if v is None:
                v = self.undef(8)
            return v
        bs = d[off:off + n]
        try:
            return int.from_bytes(bytes(bs), 'little')
        except TypeError:
            return self.join(bs)

    def undef(self, w):
        self.eng.nundef += 1
        return t.var('undef%d' % self.eng.nundef, w)

    def join(self, bs):
        if None in bs:
            if all(b is None for b in bs):
                return self.undef(8 * len(bs))
            bs = [self.undef(8) if b is None else b for b in bs]
        return t.concat([(8, b) for b in reversed(bs)])

    def store(self, a, n, v):
        o = self.wobj(a >> 32)
        off = (a & 0xffffffff) - MID
        if o is None or type(o) is FnObj or not o.alive or off < 0 or off + n > o.size or o.ro:
            self.bad('write', a, n)
            return
        d = o.data
        g = self.guard
        if type(g) is int:
            if n == 1:
                d[off] = v
            elif type(v) is int:
                d[off:off + n] = v.to_bytes(n, 'little')
            else:
                d[off:off + n] = [t.ext(8 * i + 7, 8 * i, v) for i in range(n)]
        else:
            for i in range(n):
                nv = t.ext(8 * i + 7, 8 * i, v) if n > 1 else v
                old = d[off + i]
                d[off + i] = nv if old is None else t.ite(8, g, nv, old)

    def resolve(self, a):
        """symbolic address -> [(guard, base, offset term or int)]"""
        if type(a) is int:
            return [(1, a, 0)]
        if a.op == 'ite':
            out = []
            for (g, x) in ((a.a[0], a.a[1]), (t.not_(a.a[0]), a.a[2])):
                for (h, b, o) in self.resolve(x):
                    out.append((t.and_(1, g, h), b, o))
            return [e for e in out if not (type(e[0]) is int and e[0] == 0)]
        if a.op == 'add':
            x, y = a.a
            if type(y) is int:
                if y >> 32 and y >> 63 == 0:
                    if type(x) is T and x.op == 'ite' and x.pm >> 32:
                        pass
                    return [(1, y, x)]
                return [(g, b, t.add(64, o, y)) for (g, b, o) in self.resolve(x)]
            for (p, q) in ((x, y), (y, x)):
                if p.op == 'ite' and p.pm >> 33:
                    return [(g, b, t.add(64, o, q)) for (g, b, o) in self.resolve(p)]
        v = self.conc.get(a.id)
        if v is not None:
            return [(1, v, 0)]
        raise Split(a)

    def load_sym(self, a, n, ip):
        self.ip = ip
        v = self.conc.get(a.id)
        if v is not None:
            return self.load(v, n)
        cases = self.resolve(a)
        res = None
        g0 = self.guard
        for (g, b, off) in cases:
            self.guard = t.and_(1, g0, g) if len(cases) > 1 else g0
            v = self.load(t.add(64, b, off), n) if type(off) is int else self.load_off(b, off, n)
            self.guard = g0
            res = v if res is None else t.ite(8 * n, g, v, res)
        return res

    def offrange(self, o, b, off, n, what):
        """in-bounds obligation for base b plus symbolic offset; returns candidate positions"""
        bo = (b & 0xffffffff) - MID
        if o is None or type(o) is FnObj or not o.alive:
            self.bad(what, b, n)
            return 0, []
        # 0 <= bo + off <= size - n   (64-bit wrap-around arithmetic)
        pos = t.add(64, off, bo & M64)
        lim = o.size - n
        if lim < 0:
            self.bad(what, b, n)
            return 0, []
        self.oblige(t.ule(64, pos, lim), 'memory', '%s of %d bytes at symbolic offset of %s object of %d bytes' % (what, n, o.kind, o.size))
        pm = pos if type(pos) is int else pos.pm
        return pos, [k for k in range(lim + 1) if k & ~pm == 0]

    def load_off(self, b, off, n):
        o = self.obj(b >> 32)
        pos, ks = self.offrange(o, b, off, n, 'read')
        if len(ks) > 4096:
            raise Split(off)
        base = (b & ~0xffffffff) | MID
        w = 8 * n
        res = None
        # balanced by value: later candidates override earlier ones
        for k in ks:
            v = self.load(base + k, n)
            res = v if res is None else t.ite(w, t.eq(64, pos, k), v, res)
        return 0 if res is None else res

    def store_sym(self, a, n, v, ip):
        self.ip = ip
        c = self.conc.get(a.id)
        if c is not None:
            return self.store(c, n, v)
        cases = self.resolve(a)
        g0 = self.guard
        for (g, b, off) in cases:
            gg = t.and_(1, g0, g) if len(cases) > 1 else g0
            self.guard = gg
            if type(off) is int:
                self.store(t.add(64, b, off), n, v)
            else:
                o = self.wobj(b >> 32)
                pos, ks = self.offrange(o, b, off, n, 'write')
                base = (b & ~0xffffffff) | MID
                for k in ks:
                    self.guard = t.and_(1, gg, t.eq(64, pos, k))
                    if type(self.guard) is int and self.guard == 0:
                        continue
                    self.store(base + k, n, v)
            self.guard = g0

    def concretize(self, x, ip, user=False):
        if type(x) is int:
            return x
        v = self.conc.get(x.id)
        if v is not None:
            return v
        self.ip = ip
        raise Split(x, user)

    def bytes_at(self, a, n):
        """list of n byte values at concrete address (bounds obligation included)"""
        if n == 0:
            return []
        o = self.obj(a >> 32)
        off = (a & 0xffffffff) - MID
        if o is None or type(o) is FnObj or not o.alive or off < 0 or off + n > o.size:
            self.bad('read', a, n)
            return [0] * n
        return o.data[off:off + n]

    def put_bytes(self, a, bs):
        n = len(bs)
        if n == 0:
            return
        o = self.wobj(a >> 32)
        off = (a & 0xffffffff) - MID
        if o is None or type(o) is FnObj or not o.alive or off < 0 or off + n > o.size or o.ro:
            self.bad('write', a, n)
            return
        g = self.guard
        if type(g) is int:
            o.data[off:off + n] = bs
        else:
            for i, b in enumerate(bs):
                old = o.data[off + i]
                o.data[off + i] = b if (old is None or b is None) else t.ite(8, g, b, old)


# -------------------------------------------------------------------- decoding

class Fn(object):
    pass


FLAGS = frozenset(('nuw', 'nsw', 'exact', 'disjoint', 'samesign', 'nneg', 'inbounds', 'nusw', 'fast', 'nnan', 'ninf',
                   'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'atomic', 'weak'))
IGNORED = ('llvm.experimental.noalias.scope.decl', 'llvm.lifetime.', 'llvm.dbg.', 'llvm.assume', 'llvm.prefetch',
           'llvm.donothing', 'llvm.invariant', 'llvm.sideeffect', 'llvm.x86.sse2.pause', 'llvm.var.annotation')


class Decoder(object):
    def __init__(self, eng, name):
        self.eng = eng
        self.mod = eng.mod
        self.name = name

    def slot(self, name):
        s = self.slots.get(name)
        if s is None:
            s = self.slots[name] = len(self.tmpl)
            self.tmpl.append(None)
        return s

    def const(self, v):
        k = ('c', v)
        s = self.cslots.get(k)
        if s is None:
            s = self.cslots[k] = len(self.tmpl)
            self.tmpl.append(v)
        return s

    def val(self, p, ty):
        k, v = p.t[p.i]
        if k == 'l':
            p.i += 1
            return self.slot(v)
        return self.const(self.eng.const_value(p, ty))

    def tval(self, p):
        """type then (attributes) value"""
        ty = p.type()
        p.skip_attrs()
        return ty, self.val(p, ty)

    def run(self):
        header, lines = self.mod.funcs[self.name]
        self.slots = {}
        self.cslots = {}
        self.tmpl = []
        self.phity = {}
        fn = Fn()
        fn.name = self.name
        # parameters
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', header)
        rest = header[m.end() - 1:]
        p = P(tokenize(rest.split(' !', 1)[0] if ' !' in rest else rest), self.mod)
        p.expect('(')
        params = []
        unnamed = 0
        if not p.accept(')'):
            while True:
                if p.kind() == 'd':
                    break
                ty = p.type()
                p.skip_attrs()
                if p.kind() == 'l':
                    nm = p.next()
                    unnamed += nm[1:].isdigit()
                else:
                    nm = '%' + str(unnamed)
                    unnamed += 1
                params.append(self.slot(nm))
                if p.accept(')'):
                    break
                p.expect(',')
        fn.params = params
        # split into blocks; join multi-line switch
        blocks = []
        cur = None
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ';':
                continue
            if ln[0] != ' ':
                s = ln.split(';', 1)[0].rstrip()
                assert s.endswith(':'), ln
                nm = s[:-1]
                cur = ['%' + nm, []]
                blocks.append(cur)
                continue
            s = ln.strip()
            if s[0] == ';':
                continue
            if s.startswith('switch ') and s.endswith('['):
                parts = [s]
                while not lines[i].strip().startswith(']'):
                    parts.append(lines[i].strip())
                    i += 1
                parts.append(lines[i].strip())
                i += 1
                s = ' '.join(parts)
            elif s.startswith('#dbg'):
                continue
            elif i < n and (lines[i].startswith('          to label') or lines[i].startswith('          cleanup') or lines[i].startswith('          catch') or lines[i].startswith('          filter')):
                while i < n and lines[i].startswith('          '):
                    s += ' ' + lines[i].strip()
                    i += 1
            if cur is None:
                cur = ['%' + str(unnamed), []]      # the entry block is numbered after the parameters
                blocks.append(cur)
            cur[1].append(s)
        fn.blocks = {}
        for k, (nm, ls) in enumerate(blocks):
            b = Block()
            b.name = nm
            b.idx = k
            b.lines = ls
            b.phis = {}
            b.fn = fn
            b.region = None
            b.panic = None
            fn.blocks[nm] = b
        fn.order = [fn.blocks[nm] for nm, _ in blocks]
        if len(fn.blocks) != len(blocks):
            raise IRError('two blocks of one name in %s' % self.name)
        self.fn = fn
        for b in fn.order:
            self.block(b)
        fn.entry = fn.order[0]
        fn.tmpl = self.tmpl
        fn.ipdom = None
        fn.phity = self.phity
        self.find_panics(fn)
        return fn

    def find_panics(self, fn):
        changed = True
        for b in fn.order:
            b.panic = None
            if b.term[0] == 'unreachable':
                b.panic = 'panic' if b.term[1] else 'ub'
        while changed:
            changed = False
            for b in fn.order:
                if b.panic is None and b.term[0] == 'br' and b.first is b.last and all_skip(b):
                    tb = fn.blocks[b.term[1]]
                    if tb.panic:
                        b.panic = tb.panic
                        changed = True

    def block(self, b):
        seg = Seg(b)
        b.first = seg
        b.nsegs = 1
        noreturn = False
        for ln in b.lines:
            db = None
            if ', !' in ln:
                m = DBG.search(ln)
                db = m.group(1) if m else None
                ln2 = ln.split(', !', 1)[0]
            else:
                ln2 = ln
            if ln2.startswith('%'):
                i = ln2.index(' = ')
                res, body = ln2[:i], ln2[i + 3:]
            else:
                res, body = None, ln2
            op = body.split(' ', 1)[0]
            if op in ('tail', 'musttail', 'notail'):
                body = body.split(' ', 1)[1]
                op = 'call'
            if op == 'phi':
                self.phi(b, res, body)
                continue
            if op == 'call':
                noreturn = True
                kind = self.call(b, seg, res, body, db)
                if kind is not None:      # a call that pushes a frame ends the segment
                    seg.end, seg.endline = kind, db
                    nx = Seg(b)
                    seg.next = nx
                    seg = nx
                    b.nsegs += 1
                continue
            if op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke', 'indirectbr'):
                seg.endline = db
                self.terminator(b, seg, op, res, body, noreturn)
                break
            try:
                c = self.instr(op, res, body, len(seg.code), seg)
            except (IRError, KeyError, ValueError, IndexError) as e:
                c = _unsupported('%s: %s' % (ln[:160], e))
            seg.code.append(c)
            seg.lines.append(db)
        b.last = seg

    def phi(self, b, res, body):
        p = P(tokenize(body), self.mod)
        p.next()
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        d = self.slot(res)
        while True:
            p.expect('[')
            v = self.val(p, ty)
            p.expect(',')
            lab = p.next()
            p.expect(']')
            b.phis.setdefault(lab, []).append((d, v))
            self.phity[d] = ty
            if not p.accept(','):
                break

    # ---- terminators
    def terminator(self, b, seg, op, res, body, noreturn):
        if op == 'unreachable':
            b.term = ('unreachable', noreturn)
            seg.end = _end_unreachable
            return
        p = P(tokenize(body), self.mod)
        p.next()
        if op == 'br':
            if p.accept('label'):
                lab = p.next()
                b.term = ('br', lab)
                seg.end = _end_br(lab)
                return
            p.expect('i1')
            c = self.val(p, ('i', 1))
            p.expect(',')
            p.expect('label')
            x = p.next()
            p.expect(',')
            p.expect('label')
            y = p.next()
            b.term = ('cond', c, x, y)
            seg.end = _end_cond(c, x, y)
        elif op == 'switch':
            ty = p.type()
            c = self.val(p, ty)
            p.expect(',')
            p.expect('label')
            dflt = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                v = self.eng.const_value(p, ct)
                p.expect(',')
                p.expect('label')
                cases.append((v, p.next()))
            b.term = ('switch', c, ty[1], dflt, cases)
            seg.end = _end_switch(c, ty[1], dflt, cases)
        elif op == 'ret':
            if p.peek() == 'void':
                b.term = ('ret', None)
                seg.end = _end_ret(None)
            else:
                ty = p.type()
                v = self.val(p, ty)
                b.term = ('ret', v)
                seg.end = _end_ret(v)
        elif op == 'invoke':
            lab = re.search(r'to label (%"[^"]*"|%[-\w$.]+)', body).group(1)
            body2 = body[:body.rindex(' to label ')].replace('invoke', 'call', 1)
            kind = self.call(b, seg, res, body2, None)
            if kind is not None:
                seg.end = kind
                nx = Seg(b)
                seg.next = nx
                b.nsegs += 1
                seg = nx
            b.term = ('br', lab)
            seg.end = _end_br(lab)
            b.last = seg
        else:
            b.term = ('unsupported',)
            seg.end = _end_unsupported(op)

    # ---- ordinary instructions: returns closure(st, r)
    def instr(self, op, res, body, ip, seg):
        p = P(tokenize(body), self.mod)
        p.next()
        while p.peek() in FLAGS:
            p.next()
        d = self.slot(res) if res else None
        if op in BIN:
            ty = p.type()
            a = self.val(p, ty)
            p.expect(',')
            b = self.val(p, ty)
            if ty[0] == 'x':
                w = ty[2][1]
                f = BIN[op]
                def c(st, r):
                    r[d] = tuple(f(w, x, y) for x, y in zip(r[a], r[b]))
                return c
            w = ty[1]
            f = BIN[op]
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                def c(st, r):
                    y = r[b]
                    if type(y) is not int or y == 0:
                        st.oblige(t.not_(t.eq(w, y, 0)), 'ub', 'division by zero')
                    r[d] = f(w, r[a], y)
                return c
            m = (1 << w) - 1
            if op == 'add':
                def c(st, r):
                    x = r[a]
                    y = r[b]
                    r[d] = (x + y) & m if type(x) is int and type(y) is int else f(w, x, y)
                return c
            if op == 'sub':
                def c(st, r):
                    x = r[a]
                    y = r[b]
                    r[d] = (x - y) & m if type(x) is int and type(y) is int else f(w, x, y)
                return c
            def c(st, r):
                r[d] = f(w, r[a], r[b])
            return c
        if op == 'icmp':
            while p.peek() in FLAGS:
                p.next()
            pred = p.next()
            ty = p.type()
            a = self.val(p, ty)
            p.expect(',')
            b = self.val(p, ty)
            f = CMP[pred]
            if ty[0] == 'x':
                w = ty[2][1] if ty[2][0] == 'i' else 64
                def c(st, r):
                    r[d] = tuple(f(w, x, y) for x, y in zip(r[a], r[b]))
                return c
            w = 64 if ty[0] == 'p' else ty[1]
            def c(st, r):
                r[d] = f(w, r[a], r[b])
            return c
        if op == 'select':
            ct = p.type()
            cc = self.val(p, ct)
            p.expect(',')
            ty = p.type()
            a = self.val(p, ty)
            p.expect(',')
            ty2 = p.type()
            b = self.val(p, ty2)
            if ct[0] == 'x':
                w = _width(ty[2])
                def c(st, r):
                    r[d] = tuple(t.ite(w, k, x, y) for k, x, y in zip(r[cc], r[a], r[b]))
                return c
            def c(st, r):
                k = r[cc]
                if type(k) is int:
                    r[d] = r[a] if k else r[b]
                else:
                    r[d] = ite_val(ty, k, r[a], r[b])
            return c
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'ptrtoaddr'):
            ty = p.type()
            a = self.val(p, ty)
            p.expect('to')
            ty2 = p.type()
            if op == 'bitcast' and (ty[0] == 'x') != (ty2[0] == 'x'):
                def c(st, r):
                    r[d] = split_val(ty2, join_val(ty, r[a]))
                return c
            if op == 'bitcast' and ty[0] == 'x':
                def c(st, r):
                    r[d] = split_val(ty2, join_val(ty, r[a]))
                return c
            if ty[0] == 'x':
                w0, w1 = _width(ty[2]), _width(ty2[2])
                def c(st, r):
                    r[d] = tuple(_cast(op, w0, w1, x) for x in r[a])
                return c
            w0, w1 = _width(ty), _width(ty2)
            if op == 'zext' or (w1 > w0 and op != 'sext'):
                def c(st, r):
                    x = r[a]
                    r[d] = x if type(x) is int else t.zext(w0, w1, x)
                return c
            if op == 'sext':
                def c(st, r):
                    r[d] = t.sext(w0, w1, r[a])
                return c
            if w1 < w0:
                m = (1 << w1) - 1
                def c(st, r):
                    x = r[a]
                    r[d] = x & m if type(x) is int else t.ext(w1 - 1, 0, x)
                return c
            def c(st, r):
                r[d] = r[a]
            return c
        if op == 'getelementptr':
            while p.kind() == 'w' and (p.peek() in FLAGS or p.peek() == 'inrange'):
                if p.next() == 'inrange':
                    p.skip_parens()
            ty = p.type()
            p.expect(',')
            pt = p.type()
            base = self.val(p, pt)
            const = 0
            dyn = []
            first = True
            while p.accept(','):
                it, iv = self.tval(p)
                if it[0] == 'x':
                    raise IRError('vector gep')
                w = it[1]
                cv = self.tmpl[iv]
                if first:
                    stride = size_of(ty)
                    first = False
                elif ty[0] == 's':
                    const += struct_offsets(ty)[cv]
                    ty = ty[2][cv]
                    continue
                else:
                    stride = size_of(ty[2])
                    ty = ty[2]
                if cv is not None:
                    const += stride * (cv - (1 << w) if cv >> (w - 1) else cv)
                else:
                    dyn.append((iv, w, stride))
            const &= M64
            if not dyn:
                def c(st, r):
                    x = r[base]
                    r[d] = (x + const) & M64 if type(x) is int else t.add(64, x, const)
                return c
            if len(dyn) == 1:
                iv, w, stride = dyn[0]
                def c(st, r):
                    x = r[base]
                    y = r[iv]
                    if type(x) is int and type(y) is int:
                        if w != 64:
                            y = t.sext(w, 64, y)
                        r[d] = (x + y * stride + const) & M64
                    else:
                        y = t.mul(64, t.sext(w, 64, y), stride)
                        r[d] = t.add(64, t.add(64, y, x), const)
                return c
            def c(st, r):
                x = r[base]
                for (iv, w, stride) in dyn:
                    x = t.add(64, x, t.mul(64, t.sext(w, 64, r[iv]), stride))
                r[d] = t.add(64, x, const)
            return c
        if op == 'load':
            ty = p.type()
            p.expect(',')
            p.type()
            a = self.val(p, PTR)
            if ty[0] in 'asx':
                def c(st, r):
                    r[d] = load_agg(st, ty, r[a], ip)
                return c
            w = _width(ty)
            n = (w + 7) // 8
            if w == 8 * n:
                def c(st, r):
                    x = r[a]
                    r[d] = st.load(x, n) if type(x) is int else st.load_sym(x, n, ip)
                return c
            def c(st, r):
                x = r[a]
                r[d] = t.ext(w - 1, 0, st.load(x, n) if type(x) is int else st.load_sym(x, n, ip))
            return c
        if op == 'store':
            ty = p.type()
            v = self.val(p, ty)
            p.expect(',')
            p.type()
            a = self.val(p, PTR)
            if ty[0] in 'asx':
                def c(st, r):
                    store_agg(st, ty, r[a], r[v], ip)
                return c
            w = _width(ty)
            n = (w + 7) // 8
            if w == 8 * n:
                def c(st, r):
                    x = r[a]
                    if type(x) is int:
                        st.store(x, n, r[v])
                    else:
                        st.store_sym(x, n, r[v], ip)
                return c
            def c(st, r):
                x = r[a]
                y = t.zext(w, 8 * n, r[v])
                if type(x) is int:
                    st.store(x, n, y)
                else:
                    st.store_sym(x, n, y, ip)
            return c
        if op == 'alloca':
            ty = p.type()
            n = size_of(ty)
            cnt = None
            if p.accept(',') and p.is_type():
                _, cnt = self.tval(p)
            seg.pure = False
            def c(st, r):
                k = n if cnt is None else n * st.concretize(r[cnt], ip)
                a = st.alloc(k, 'stack')
                st.frames[-1].allocas.append(a >> 32)
                r[d] = a
            return c
        if op == 'extractvalue':
            ty, a = self.tval(p)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            def c(st, r):
                x = r[a]
                for i in idx:
                    x = x[i]
                r[d] = x
            return c
        if op == 'insertvalue':
            ty, a = self.tval(p)
            p.expect(',')
            ty2, b = self.tval(p)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            def ins(x, y, k):
                if k == len(idx):
                    return y
                l = list(x)
                l[idx[k]] = ins(l[idx[k]], y, k + 1)
                return tuple(l)
            def c(st, r):
                r[d] = ins(r[a], r[b], 0)
            return c
        if op == 'extractelement':
            ty, a = self.tval(p)
            p.expect(',')
            it, b = self.tval(p)
            w = _width(ty[2])
            iw = it[1]
            def c(st, r):
                x = r[a]
                i = r[b]
                if type(i) is int:
                    r[d] = x[i]
                else:
                    v = x[0]
                    for k in range(1, len(x)):
                        v = t.ite(w, t.eq(iw, i, k), x[k], v)
                    r[d] = v
            return c
        if op == 'insertelement':
            ty, a = self.tval(p)
            p.expect(',')
            ty2, b = self.tval(p)
            p.expect(',')
            it, ix = self.tval(p)
            w = _width(ty2)
            iw = it[1]
            def c(st, r):
                x = list(r[a])
                i = r[ix]
                if type(i) is int:
                    x[i] = r[b]
                else:
                    x = [t.ite(w, t.eq(iw, i, k), r[b], x[k]) for k in range(len(x))]
                r[d] = tuple(x)
            return c
        if op == 'shufflevector':
            ty, a = self.tval(p)
            p.expect(',')
            ty2, b = self.tval(p)
            p.expect(',')
            ty3 = p.type()
            mask = self.eng.const_value(p, ty3)
            def c(st, r):
                v = tuple(r[a]) + tuple(r[b])
                r[d] = tuple(v[i] if i < len(v) else 0 for i in mask)
            return c
        if op == 'freeze':
            ty, a = self.tval(p)
            def c(st, r):
                r[d] = r[a]
            return c
        if op == 'fence':
            return _skip
        if op == 'atomicrmw':
            rop = p.next()
            p.type()
            a = self.val(p, PTR)
            p.expect(',')
            ty, v = self.tval(p)
            w = _width(ty)
            n = (w + 7) // 8
            seg.pure = False
            def c(st, r):
                x = st.load(st.concretize(r[a], ip), n)
                y = r[v]
                if rop == 'xchg':
                    z = y
                elif rop in ('add', 'sub', 'and', 'or', 'xor'):
                    z = BIN[rop](w, x, y)
                else:
                    raise Unsupported('atomicrmw ' + rop)
                st.store(r[a], n, z)
                r[d] = x
            return c
        if op == 'cmpxchg':
            p.type()
            a = self.val(p, PTR)
            p.expect(',')
            ty, e = self.tval(p)
            p.expect(',')
            ty, v = self.tval(p)
            w = _width(ty)
            n = (w + 7) // 8
            seg.pure = False
            def c(st, r):
                x = st.load(st.concretize(r[a], ip), n)
                k = t.eq(w, x, r[e])
                st.store(r[a], n, t.ite(w, k, r[v], x))
                r[d] = (x, k)
            return c
        raise IRError('unsupported instruction ' + op)

    # ---- calls
    def call(self, b, seg, res, body, db):
        """appends a closure to the segment, or returns an end action for a call that pushes a frame"""
        name = None
        try:
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', body)
            nm = unquote('@' + m.group(1)) if m else None
            if nm and nm.startswith('llvm.') and nm.startswith(IGNORED):
                return None
            p = P(tokenize(body), self.mod)
            p.expect('call')
            while not p.is_type():
                if p.kind() in ('w', 'h', 's'):
                    al = p.next() == 'align'
                    if p.kind() == 'p' and p.peek() == '(':
                        p.skip_parens()
                    elif al:
                        p.i += 1
                else:
                    raise IRError('call? ' + body[:100])
            rty = p.type()
            if p.peek() == '(':
                p.skip_parens()
            if p.kind() == 'g':
                name = unquote(p.next())
                tgt = None
            elif p.kind() == 'l':
                tgt = self.slot(p.next())
            else:
                raise IRError('callee ' + body[:100])
            p.expect('(')
            args = []
            tys = []
            if not p.accept(')'):
                while True:
                    ty = p.type()
                    p.skip_attrs()
                    if ty == ('o', 'metadata'):
                        while p.peek() not in (',', ')'):
                            p.i += 1
                        args.append(self.const(0))
                    else:
                        args.append(self.val(p, ty))
                    tys.append(ty)
                    if p.accept(')'):
                        break
                    p.expect(',')
        except (IRError, KeyError, ValueError) as e:
            seg.code.append(_unsupported('%s: %s' % (body[:160], e)))
            seg.lines.append(db)
            seg.pure = False
            return None
        d = self.slot(res) if res else None
        if name is not None and name in self.mod.aliases:
            name = self.mod.aliases[name]
        if name is not None and name not in self.mod.funcs or (name in EXT):
            f = self.eng.external(name, rty, tys)
            ip = len(seg.code)
            if f is None:
                seg.pure = False
                seg.code.append(_unsupported('call to external function ' + name))
            else:
                impure, h = f
                if impure:
                    seg.pure = False
                if d is None:
                    def c(st, r):
                        h(st, ip, *[r[x] for x in args])
                else:
                    def c(st, r):
                        r[d] = h(st, ip, *[r[x] for x in args])
                seg.code.append(c)
            seg.lines.append(db)
            return None
        seg.pure = False
        return _end_call(name, tgt, args, d)


def all_skip(b):
    return all(c is _skip for c in b.first.code)


def _skip(st, r):
    pass


def _unsupported(msg):
    def c(st, r):
        raise Unsupported(msg)
    return c


def _width(ty):
    if ty[0] == 'p':
        return 64
    if ty[0] in 'if':
        return ty[1]
    raise IRError('width %r' % (ty,))


def _cast(op, w0, w1, x):
    if op == 'sext':
        return t.sext(w0, w1, x)
    if w1 >= w0:
        return t.zext(w0, w1, x)
    return t.ext(w1 - 1, 0, x)


def ite_val(ty, c, a, b):
    if ty[0] == 's':
        return tuple(ite_val(k, c, x, y) for k, x, y in zip(ty[2], a, b))
    if ty[0] in 'ax':
        return tuple(ite_val(ty[2], c, x, y) for x, y in zip(a, b))
    return t.ite(_width(ty), c, a, b)


def join_val(ty, v):
    if ty[0] == 'x':
        w = _width(ty[2])
        return t.concat([(w, x) for x in reversed(v)])
    return v


def split_val(ty, v):
    if ty[0] == 'x':
        w = _width(ty[2])
        return tuple(t.ext(w * i + w - 1, w * i, v) for i in range(ty[1]))
    return v


def load_agg(st, ty, a, ip):
    k = ty[0]
    if k == 's':
        return tuple(load_agg(st, x, t.add(64, a, o), ip) for x, o in zip(ty[2], struct_offsets(ty)))
    if k == 'a':
        s = size_of(ty[2])
        return tuple(load_agg(st, ty[2], t.add(64, a, s * i), ip) for i in range(ty[1]))
    if k == 'x':
        w = _width(ty[2])
        if w % 8:
            n = size_of(ty)
            v = st.load(a, n) if type(a) is int else st.load_sym(a, n, ip)
            return tuple(t.ext(w * i + w - 1, w * i, v) for i in range(ty[1]))
        return tuple(load_agg(st, ty[2], t.add(64, a, w // 8 * i), ip) for i in range(ty[1]))
    w = _width(ty)
    n = (w + 7) // 8
    v = st.load(a, n) if type(a) is int else st.load_sym(a, n, ip)
    return v if w == 8 * n else t.ext(w - 1, 0, v)


def store_agg(st, ty, a, v, ip):
    k = ty[0]
    if k == 's':
        for x, o, y in zip(ty[2], struct_offsets(ty), v):
            store_agg(st, x, t.add(64, a, o), y, ip)
        return
    if k == 'a':
        s = size_of(ty[2])
        for i in range(ty[1]):
            store_agg(st, ty[2], t.add(64, a, s * i), v[i], ip)
        return
    if k == 'x':
        w = _width(ty[2])
        if w % 8:
            v = t.concat([(w, x) for x in reversed(v)])
            n = size_of(ty)
            v = t.zext(w * ty[1], 8 * n, v) if w * ty[1] != 8 * n else v
        else:
            for i in range(ty[1]):
                store_agg(st, ty[2], t.add(64, a, w // 8 * i), v[i], ip)
            return
    else:
        w = _width(ty)
        n = (w + 7) // 8
        v = t.zext(w, 8 * n, v)
    if type(a) is int:
        st.store(a, n, v)
    else:
        st.store_sym(a, n, v, ip)


# ----------------------------------------------------------------- control flow

def goto(fr, frm, to):
    """follow the edge between two blocks of the current function"""
    b = fr.fn.blocks[to]
    ph = b.phis.get(frm.name)
    if ph:
        r = fr.r
        if len(ph) == 1:
            r[ph[0][0]] = r[ph[0][1]]
        else:
            vs = [r[s] for (_, s) in ph]
            for (d, _), v in zip(ph, vs):
                r[d] = v
    fr.seg = b.first
    fr.ip = 0


def _end_br(lab):
    def end(eng, st, fr):
        goto(fr, fr.seg.block, lab)
    return end


def _end_cond(c, x, y):
    def end(eng, st, fr):
        k = fr.r[c]
        if type(k) is int:
            goto(fr, fr.seg.block, x if k else y)
        else:
            eng.branch(st, fr, fr.seg.block, [(k, x), (t.not_(k), y)])
    return end


def _end_switch(c, w, dflt, cases):
    tab = dict((v, l) for v, l in cases)
    def end(eng, st, fr):
        k = fr.r[c]
        if type(k) is int:
            goto(fr, fr.seg.block, tab.get(k, dflt))
            return
        by = {}
        dc = 1
        for v, l in cases:
            e = t.eq(w, k, v)
            if l != dflt:
                by[l] = t.or_(1, by.get(l, 0), e)
                dc = t.and_(1, dc, t.not_(e))
        by[dflt] = dc
        eng.branch(st, fr, fr.seg.block, [(g, l) for l, g in by.items()])
    return end


def _end_ret(v):
    def end(eng, st, fr):
        val = fr.r[v] if v is not None else None
        for i in fr.allocas:
            st.objs[i] = FREED
            st.own.discard(i)
        st.frames.pop()
        if not st.frames:
            raise Stop('return')
        up = st.frames[-1]
        if fr.ret is not None:
            up.r[fr.ret] = val
        up.seg = up.seg.next
        up.ip = 0
    return end


FREED = Obj([], 'freed')
FREED.alive = False


def _end_unreachable(eng, st, fr):
    b = fr.seg.block
    if b.term[1]:
        eng.panicked(st, fr, b)
    st.oblige(0, 'ub', 'unreachable code reached')
    raise Stop('unreachable')


def _end_unsupported(op):
    def end(eng, st, fr):
        raise Unsupported('terminator ' + op)
    return end


def _end_call(name, tgt, args, d):
    def end(eng, st, fr):
        nm = name
        if nm is None:
            a = fr.r[tgt]
            if type(a) is not int:
                a = st.concretize(a, len(fr.seg.code))
            o = st.obj(a >> 32)
            if type(o) is not FnObj:
                raise Unsupported('indirect call to ' + hex(a))
            nm = o.name
        # a call whose continuation is `unreachable` is a diverging call: do not enter it
        nx = fr.seg.next
        if not nx.code and nx.end is _end_unreachable:
            eng.panicked(st, fr, fr.seg.block, nm)
        if nm not in eng.mod.funcs:
            f = eng.external(nm, None, None)
            if f is None:
                raise Unsupported('indirect call to external ' + nm)
            v = f[1](st, len(fr.seg.code), *[fr.r[x] for x in args])
            if d is not None:
                fr.r[d] = v
            fr.seg = nx
            fr.ip = 0
            return
        fn = eng.function(nm)
        nf = Frame()
        nf.fn = fn
        r = list(fn.tmpl)
        for s, x in zip(fn.params, args):
            r[s] = fr.r[x]
        nf.r = r
        nf.seg = fn.entry.first
        nf.ip = 0
        nf.allocas = []
        nf.ret = d
        st.frames.append(nf)
        eng.called.add(nm)
        if len(st.frames) > 400:
            st.oblige(0, 'hang', 'runaway recursion in %s' % nm)
    return end


# ---------------------------------------------------------- external functions

def _bswap(w, x):
    n = w // 8
    return t.concat([(8, t.ext(8 * i + 7, 8 * i, x)) for i in range(n)])


def _bitrev(w, x):
    if type(x) is int:
        return int(bin(x)[2:].zfill(w)[::-1], 2)
    return t.concat([(1, t.ext(i, i, x)) for i in range(w)])


def _ctpop(w, x):
    if type(x) is int:
        return bin(x).count('1')
    s = 0
    for i in range(w):
        if (x.pm >> i) & 1:
            s = t.add(w, s, t.zext(1, w, t.ext(i, i, x)))
    return s


def _ctlz(w, x):
    if type(x) is int:
        return w - x.bit_length()
    r = w
    for i in range(w):
        if (x.pm >> i) & 1:
            r = t.ite(w, t.ext(i, i, x), w - 1 - i, r) if w > 1 else t.not_(x)
    return r


def _cttz(w, x):
    if type(x) is int:
        return (x & -x).bit_length() - 1 if x else w
    r = w
    for i in reversed(range(w)):
        if (x.pm >> i) & 1:
            r = t.ite(w, t.ext(i, i, x), i, r)
    return r


def _fsh(left, w, a, b, s):
    s = t.urem(w, s, w)
    if type(s) is int:
        if s == 0:
            return a if left else b
        if left:
            return t.or_(w, t.shl(w, a, s), t.lshr(w, b, w - s))
        return t.or_(w, t.shl(w, a, w - s), t.lshr(w, b, s))
    if left:
        return t.or_(w, t.shl(w, a, s), t.ite(w, t.eq(w, s, 0), 0, t.lshr(w, b, t.sub(w, w, s))))
    return t.or_(w, t.ite(w, t.eq(w, s, 0), 0, t.shl(w, a, t.sub(w, w, s))), t.lshr(w, b, s))


def _ovf(op, w, a, b):
    m = (1 << w) - 1
    k = 2 * w if op[1:] == 'mul' else w + 1
    f = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op[1:]]
    if op == 'umul':
        pa, pb = t.pmof(a), t.pmof(b)
        if pa * pb <= m:
            return (t.mul(w, a, b), 0)
        if type(b) is int and b:
            return (t.mul(w, a, b), t.ult(w, m // b, a))
    if op == 'uadd':
        s = t.add(w, a, b)
        if t.pmof(a) + t.pmof(b) <= m:
            return (s, 0)
        if type(b) is int:
            return (s, t.ult(w, m - b, a))
        return (s, t.ult(w, s, a))
    if op == 'usub':
        return (t.sub(w, a, b), t.ult(w, a, b))
    ex = t.zext if op[0] == 'u' else t.sext
    r = f(k, ex(w, k, a), ex(w, k, b))
    lo = t.ext(w - 1, 0, r)
    return (lo, t.not_(t.eq(k, ex(w, k, lo), r)))


def _sat(op, w, a, b):
    m = (1 << w) - 1
    if op == 'uadd':
        s, o = _ovf('uadd', w, a, b)
        return t.ite(w, o, m, s)
    if op == 'usub':
        return t.ite(w, t.ult(w, a, b), 0, t.sub(w, a, b))
    s, o = _ovf(op, w, a, b)
    neg = t.slt(w, a, 0)
    return t.ite(w, o, t.ite(w, neg, 1 << (w - 1), m >> 1), s)


def _memcmp(st, ip, a, b, n, bcmp):
    n = st.concretize(n, ip)
    a = st.concretize(a, ip)
    b = st.concretize(b, ip)
    if n == 0:
        return 0
    xs, ys = st.bytes_at(a, n), st.bytes_at(b, n)
    r = 0
    for x, y in zip(reversed(xs), reversed(ys)):
        x = st.undef(8) if x is None else x
        y = st.undef(8) if y is None else y
        e = t.eq(8, x, y)
        if bcmp:
            r = t.ite(32, e, r, 1)
        else:
            r = t.ite(32, e, r, t.ite(32, t.ult(8, x, y), 0xffffffff, 1))
    return r


def _alloc_limit(st, n):
    if n > 1 << 40:
        st.oblige(0, 'hang', 'allocation of %d bytes' % n)
    if n > 1 << 22:
        raise Unsupported('allocation of %d bytes' % n)


def _malloc(st, ip, n):
    n = st.concretize(n, ip)
    _alloc_limit(st, n)
    return st.alloc(n, 'heap')


def _calloc(st, ip, n, m):
    n = st.concretize(t.mul(64, n, m), ip)
    _alloc_limit(st, n)
    return st.alloc(n, 'heap', 0)


def _free(st, ip, p):
    p = st.concretize(p, ip)
    if p == 0:
        return None
    o = st.obj(p >> 32)
    if o is None or type(o) is FnObj or not o.alive or o.kind != 'heap' or (p & 0xffffffff) != MID:
        st.bad('free', p, 0)
    st.objs[p >> 32] = FREED
    st.own.discard(p >> 32)
    return None


def _realloc(st, ip, p, n):
    p = st.concretize(p, ip)
    n = st.concretize(n, ip)
    if p == 0:
        return _malloc(st, ip, n)
    o = st.obj(p >> 32)
    if o is None or type(o) is FnObj or not o.alive or o.kind != 'heap' or (p & 0xffffffff) != MID:
        st.bad('realloc', p, 0)
    q = st.alloc(n, 'heap')
    k = min(n, o.size)
    st.objs[q >> 32].data[:k] = o.data[:k]
    st.objs[p >> 32] = FREED
    st.own.discard(p >> 32)
    return q


def _posix_memalign(st, ip, pp, al, n):
    st.store(st.concretize(pp, ip), 8, _malloc(st, ip, n))
    return 0


def _memcpy(st, ip, d, s, n, *_):
    n = st.concretize(n, ip)
    if n == 0:
        return
    if type(s) is int and type(d) is int:
        st.put_bytes(d, st.bytes_at(s, n))
        return
    vs = []
    for i in range(n):
        x = t.add(64, s, i)
        vs.append(st.load(x, 1) if type(x) is int else st.load_sym(x, 1, ip))
    for i in range(n):
        x = t.add(64, d, i)
        if type(x) is int:
            st.store(x, 1, vs[i])
        else:
            st.store_sym(x, 1, vs[i], ip)


def _memset(st, ip, d, v, n, *_):
    n = st.concretize(n, ip)
    if n == 0:
        return
    if type(d) is int:
        st.put_bytes(d, [v] * n)
    else:
        for i in range(n):
            st.store_sym(t.add(64, d, i), 1, v, ip)


def _sx_sym(st, ip, bits):
    k = st.nsym
    st.nsym = k + 1
    bits = st.concretize(bits, ip)
    v = t.var('s%d_%d' % (k, bits), bits)
    st.syms.append(v)
    return t.zext(bits, 64, v)


def _sx_assume(st, ip, c):
    st.eng.assume(st, c)


def _sx_assert(st, ip, c, i):
    st.eng.stats['asserts'] += 1
    st.oblige(c, 'assert', st.concretize(i, ip))


def _sx_fail(st, ip, i):
    st.eng.stats['asserts'] += 1
    st.oblige(0, 'assert', st.concretize(i, ip))
    raise Stop('fail')


def _sx_split(st, ip, v):
    return st.concretize(v, ip, True)


def _sx_expect_panic(st, ip, i):
    st.expect = st.concretize(i, ip)


def _sx_watch(st, ip, p, n):
    """remember the bytes at p (and of heap blocks they point to); checked again at an expected panic"""
    p = st.concretize(p, ip)
    n = st.concretize(n, ip)
    w = list(st.watch or ())
    bs = list(st.bytes_at(p, n))
    w.append((p, bs))
    for k in range(0, n - 7, 8):
        c = bs[k:k + 8]
        if all(type(x) is int for x in c):
            a = int.from_bytes(bytes(c), 'little')
            o = st.objs.get(a >> 32)
            if o is not None and o.alive and o.kind == 'heap' and (a & 0xffffffff) == MID:
                w.append((a, list(o.data)))
    st.watch = w


def _sx_observe(st, ip, v):
    st.obs.append(v)


def _sx_tier(st, ip):
    return st.eng.tier


EXT = {
    'malloc': (1, _malloc), 'calloc': (1, _calloc), 'free': (1, _free), 'realloc': (1, _realloc),
    'posix_memalign': (1, _posix_memalign),
    'aligned_alloc': (1, lambda st, ip, a, n: _malloc(st, ip, n)),
    'memcmp': (0, lambda st, ip, a, b, n: _memcmp(st, ip, a, b, n, False)),
    'bcmp': (0, lambda st, ip, a, b, n: _memcmp(st, ip, a, b, n, True)),
    'memcpy': (0, lambda st, ip, d, s, n: (_memcpy(st, ip, d, s, n), d)[1]),
    'memmove': (0, lambda st, ip, d, s, n: (_memcpy(st, ip, d, s, n), d)[1]),
    'memset': (0, lambda st, ip, d, v, n: (_memset(st, ip, d, t.ext(7, 0, v), n), d)[1]),
    'sx_sym': (1, _sx_sym), 'sx_assume': (1, _sx_assume), 'sx_assert': (0, _sx_assert), 'sx_fail': (1, _sx_fail),
    'sx_split': (1, _sx_split), 'sx_expect_panic': (1, _sx_expect_panic), 'sx_watch': (1, _sx_watch),
    'sx_observe': (1, _sx_observe), 'sx_tier': (1, _sx_tier),
}


def intrinsic(name, rty, tys):
    """(impure, handler) for an llvm.* intrinsic"""
    base = name.split('.')
    n = base[1]
    vec = rty is not None and rty[0] == 'x'

    def lift(f):
        if vec:
            return lambda st, ip, *a: tuple(f(*z) for z in zip(*[x if type(x) is tuple else [x] * rty[1] for x in a]))
        return lambda st, ip, *a: f(*a)
    if n in ('memcpy', 'memmove') or (n == 'memcpy' and base[2] == 'inline'):
        return (0, _memcpy)
    if n == 'memset':
        return (0, _memset)
    w = None
    if tys:
        ty = tys[0]
        if ty[0] == 'x':
            ty = ty[2]
        if ty[0] in 'if':
            w = ty[1]
        elif ty[0] == 'p':
            w = 64
    if n in ('umin', 'umax', 'smin', 'smax'):
        f = t.ult if n[0] == 'u' else t.slt
        if n[1:] == 'min':
            return (0, lift(lambda a, b: t.ite(w, f(w, a, b), a, b)))
        return (0, lift(lambda a, b: t.ite(w, f(w, b, a), a, b)))
    if len(base) > 3 and base[2] == 'with':
        return (0, lambda st, ip, a, b: _ovf(n, w, a, b))
    if len(base) > 2 and base[2] == 'sat':
        return (0, lift(lambda a, b: _sat(n, w, a, b)))
    if n == 'fshl':
        return (0, lift(lambda a, b, s: _fsh(True, w, a, b, s)))
    if n == 'fshr':
        return (0, lift(lambda a, b, s: _fsh(False, w, a, b, s)))
    if n == 'ctpop':
        return (0, lift(lambda a: _ctpop(w, a)))
    if n == 'ctlz':
        return (0, lift(lambda a, z=0: _ctlz(w, a)))
    if n == 'cttz':
        return (0, lift(lambda a, z=0: _cttz(w, a)))
    if n == 'bswap':
        return (0, lift(lambda a: _bswap(w, a)))
    if n == 'bitreverse':
        return (0, lift(lambda a: _bitrev(w, a)))
    if n in ('ucmp', 'scmp'):
        rw = (rty[2] if vec else rty)[1]
        f = t.ult if n[0] == 'u' else t.slt
        return (0, lift(lambda a, b: t.ite(rw, f(w, a, b), (1 << rw) - 1, t.ite(rw, t.eq(w, a, b), 0, 1))))
    if n == 'abs':
        return (0, lift(lambda a, z=0: t.ite(w, t.slt(w, a, 0), t.sub(w, 0, a), a)))
    if n == 'expect':
        return (0, lambda st, ip, a, *b: a)
    if n == 'is':
        return (0, lambda st, ip, a: 0)
    if n == 'threadlocal':
        return (0, lambda st, ip, a: a)
    if n == 'objectsize':
        return (0, lambda st, ip, a, mn, *b: 0 if mn else (1 << rty[1]) - 1)
    if n == 'vector' and base[2] == 'reduce':
        k = base[3]
        ew = tys[-1][2][1] if tys[-1][0] == 'x' else None
        if k in ('add', 'or', 'and', 'xor', 'mul'):
            f = BIN[k if k not in ('or', 'and') else k]
            def h(st, ip, v):
                x = v[0]
                for y in v[1:]:
                    x = f(ew, x, y)
                return x
            return (0, h)
        if k in ('umin', 'umax', 'smin', 'smax'):
            f = t.ult if k[0] == 'u' else t.slt
            def h(st, ip, v):
                x = v[0]
                for y in v[1:]:
                    x = t.ite(ew, f(ew, x, y), x, y) if k[1:] == 'min' else t.ite(ew, f(ew, y, x), x, y)
                return x
            return (0, h)
    if n == 'trap':
        def h(st, ip):
            raise Stop('trap')
        return (1, h)
    return None
