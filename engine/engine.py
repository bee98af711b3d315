"""Path exploration, SMT queries and module-level services for the executor."""
import random
import time
import z3
import terms as t
from terms import T
from llir import (P, tokenize, Module, PTR, size_of, struct_offsets, unquote, cstr, IRError, CEXPR)
from exec import (State, Frame, Obj, FnObj, Decoder, Stop, Split, Violated, Unsupported, Inconclusive, EXT, intrinsic,
                  MID, M64, goto, ite_val, _end_unreachable)


class Engine(object):
    def __init__(self, mod, tier=0, deadline=None, query_timeout_ms=60000):
        self.mod = mod
        self.tier = tier
        self.deadline = deadline
        self.query_timeout = query_timeout_ms
        self.max_steps = 6000000
        self.fns = {}
        self.gaddr = {}
        self.gname = {}
        self.gobjs = {}
        self.called = set()
        self.nundef = 0
        self.extcache = {}
        self.models = []
        self.qcache = {}
        self.proven = set()
        self.stats = dict(paths=0, forks=0, merges=0, asserts=0, trivial=0, obligations=0, queries=0, solver_s=0.0,
                          unsat=0, sat=0, blocks=0, model_hits=0, cache_hits=0, splits=0, max_query_s=0.0, expected_panics=0)
        self.assertlines = {}
        self.violations = []
        self.samples = []
        self.max_samples = 6
        self.rnd = random.Random(1)

    # ------------------------------------------------------------ module access
    def function(self, name):
        f = self.fns.get(name)
        if f is None:
            f = self.fns[name] = Decoder(self, name).run()
        return f

    def external(self, name, rty, tys):
        if name in EXT:
            return EXT[name]
        if name.startswith('llvm.'):
            return intrinsic(name, rty, tys)
        return None

    def addr_of(self, name):
        a = self.gaddr.get(name)
        if a is None:
            i = len(self.gaddr) + 1
            a = self.gaddr[name] = (i << 32) | MID
            self.gname[i] = name
            if name in self.mod.funcs or name in self.mod.declares:
                self.gobjs[i] = FnObj(name)
        return a

    def global_obj(self, i):
        o = self.gobjs.get(i)
        if o is None:
            name = self.gname.get(i)
            if name is None:
                return None
            line = self.mod.globals.get(name)
            if line is None:
                raise Unsupported('global ' + name)
            p = P(tokenize(line.split(', !')[0]), self.mod)
            while p.peek() not in ('constant', 'global', 'alias'):
                if p.kind() == 'e':
                    raise Unsupported('global ' + line[:80])
                p.i += 1
            kw = p.next()
            ty = p.type()
            if kw == 'alias':
                raise Unsupported('alias ' + name)
            if p.kind() == 'e' or p.peek() == ',':
                raise Unsupported('external global ' + name)
            v = self.const_raw(p, ty)
            o = Obj(self.bytes_of(ty, v), 'global', ro=(kw == 'constant'))
            self.gobjs[i] = o
        return o

    def bytes_of(self, ty, v):
        k = ty[0]
        if k in 'ipf':
            n = size_of(ty)
            return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
        if k in 'ax':
            out = []
            for x in v:
                out += self.bytes_of(ty[2], x)
            return out
        out = []
        for x, o, y in zip(ty[2], struct_offsets(ty), v):
            out += [0] * (o - len(out))
            out += self.bytes_of(x, y)
        out += [0] * (size_of(ty) - len(out))
        return out

    def zero(self, ty):
        k = ty[0]
        if k in 'ipfo':
            return 0
        if k in 'ax':
            return (self.zero(ty[2]),) * ty[1]
        return tuple(self.zero(x) for x in ty[2])

    def const_value(self, p, ty):
        return self.const_raw(p, ty)

    def const_raw(self, p, ty):
        k, v = p.t[p.i]
        p.i += 1
        if k == 'n':
            if v.startswith('0x') or '.' in v:
                return int(v, 16) if v.startswith('0x') else 0
            w = ty[1] if ty[0] in 'if' else 64
            return int(v) & ((1 << w) - 1)
        if k == 'g':
            return self.addr_of(unquote(v))
        if k == 's':
            return tuple(cstr(v))
        if k == 'w':
            if v == 'true':
                return 1
            if v == 'false' or v == 'null':
                return 0
            if v in ('undef', 'poison', 'zeroinitializer', 'none'):
                return self.zero(ty)
            if v == 'splat':
                p.expect('(')
                et = p.type()
                x = self.const_raw(p, et)
                p.expect(')')
                return (x,) * ty[1]
            if v == 'getelementptr':
                while p.peek() != '(' or p.kind() != 'p':
                    if p.peek() == 'inrange':
                        p.i += 1
                        p.skip_parens()
                    else:
                        p.i += 1
                p.expect('(')
                et = p.type()
                p.expect(',')
                p.type()
                a = self.const_raw(p, PTR)
                first = True
                while p.accept(','):
                    while p.peek() == 'inrange':
                        p.i += 1
                    it = p.type()
                    i = self.const_raw(p, it)
                    if i >> (it[1] - 1):
                        i -= 1 << it[1]
                    if first:
                        a += i * size_of(et)
                        first = False
                    elif et[0] == 's':
                        a += struct_offsets(et)[i]
                        et = et[2][i]
                    else:
                        et = et[2]
                        a += i * size_of(et)
                p.expect(')')
                return a & M64
            if v in CEXPR:
                while p.peek() != '(':
                    p.i += 1
                p.expect('(')
                t1 = p.type()
                a = self.const_raw(p, t1)
                if p.accept('to'):
                    t2 = p.type()
                    p.expect(')')
                    w = t2[1] if t2[0] == 'i' else 64
                    if v == 'sext':
                        return t.sext(t1[1], w, a)
                    return a & ((1 << w) - 1)
                p.expect(',')
                t2 = p.type()
                b = self.const_raw(p, t2)
                p.expect(')')
                return t.BIN[v](t1[1], a, b)
        if k == 'p':
            if v == '[':
                return tuple(self.const_list(p, ']'))
            if v == '{':
                return tuple(self.const_list(p, '}'))
            if v == '<':
                if p.accept('{'):
                    r = tuple(self.const_list(p, '}'))
                    p.expect('>')
                    return r
                return tuple(self.const_list(p, '>'))
        raise IRError('constant %s near %s' % (v, ' '.join(x[1] for x in p.t[max(0, p.i - 5):p.i + 5])))

    def const_list(self, p, end):
        out = []
        if p.accept(end):
            return out
        while True:
            ty = p.type()
            out.append(self.const_raw(p, ty))
            if p.accept(end):
                return out
            p.expect(',')

    # ------------------------------------------------------------------- solver
    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive('time budget exhausted')

    def slice(self, pc, vm):
        """constraints of pc connected with the variables in vm"""
        rest = [c for c in pc if type(c) is T]
        out = []
        changed = True
        while changed and rest:
            changed = False
            nr = []
            for c in rest:
                if c.vm & vm:
                    out.append(c)
                    if c.vm & ~vm:
                        vm |= c.vm
                        changed = True
                else:
                    nr.append(c)
            rest = nr
        return out, vm

    def solve(self, pc, cond, base):
        """is pc /\\ cond satisfiable?  base is a model of pc.  -> model or None"""
        if type(cond) is int:
            return base if cond else None
        cs, vm = self.slice(pc, cond.vm)
        cs.append(cond)
        key = frozenset(c.id for c in cs)
        hit = self.qcache.get(key)
        if hit is not None:
            self.stats['cache_hits'] += 1
            if hit is False:
                return None
            m = dict(base)
            m.update(hit)
            return m
        for hm in self.models[-8:]:
            memo = {}
            if all(t.evaluate(c, hm, memo) for c in cs):
                self.stats['model_hits'] += 1
                m = dict(base)
                for i in _bits(vm):
                    m[i] = hm.get(i, 0)
                return m
        self.check_time()
        t0 = time.time()
        self.stats['queries'] += 1
        r, m = self.z3check(cs, vm)
        dt = time.time() - t0
        self.stats['solver_s'] += dt
        if dt > self.stats['max_query_s']:
            self.stats['max_query_s'] = dt
        if r == 'unsat':
            self.stats['unsat'] += 1
            self.qcache[key] = False
            return None
        self.stats['sat'] += 1
        self.qcache[key] = m
        self.models.append(m)
        if len(self.models) > 64:
            del self.models[:32]
        mm = dict(base)
        mm.update(m)
        return mm

    def z3check(self, cs, vm):
        budget = self.query_timeout
        if self.deadline:
            budget = min(budget, max(1000, int((self.deadline - time.time()) * 1000)))
        s = z3.SolverFor('QF_BV')
        s.set('timeout', budget)
        for c in cs:
            s.add(t.to_z3(c))
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.unknown:
            raise Inconclusive('solver gave no answer (%s)' % s.reason_unknown())
        zm = s.model()
        m = {}
        for i in _bits(vm):
            v = t.VARS[i]
            x = zm.eval(t.to_z3(v), model_completion=True)
            m[i] = (1 if z3.is_true(x) else 0) if v.w == 1 else x.as_long()
        return 'sat', m

    def flush(self, st):
        """discharge the pending obligations of this path"""
        pend = st.pending
        if not pend:
            return
        st.pending = []
        seen = set()
        todo = []
        for (c, kind, info) in pend:
            if c.id in seen or c.id in st.pcset:
                continue
            seen.add(c.id)
            cs, _ = self.slice(st.pc, c.vm)
            key = (c.id, frozenset(x.id for x in cs))
            if key in self.proven:
                continue
            todo.append((c, kind, info, key))
        for i in range(0, len(todo), 64):
            self.flush_chunk(st, todo[i:i + 64])

    def flush_chunk(self, st, todo):
        bad = 0
        for (c, kind, info, key) in todo:
            bad = t.or_(1, bad, t.not_(c))
        try:
            m = self.solve(st.pc, bad, st.model)
        except Inconclusive:
            # too hard together: one half at a time
            if len(todo) == 1 or self.deadline and time.time() > self.deadline:
                raise
            fail = None
            for part in (todo[:len(todo) // 2], todo[len(todo) // 2:]):
                try:
                    self.flush_chunk(st, part)
                except Inconclusive as ex:
                    fail = ex
            if fail:
                raise fail
            return
        self.stats['obligations'] += len(todo)
        if m is not None:
            memo = {}
            for (c, kind, info, key) in todo:
                if not t.evaluate(c, m, memo):
                    raise Violated(kind, info, m)
            raise Unsupported('inconsistent model')
        for e in todo:
            self.proven.add(e[3])

    # ---------------------------------------------------------------- exploration
    def assume(self, st, c):
        if type(c) is int:
            if not c:
                raise Stop('assume')
            return
        if c.id in st.pcset:
            return
        self.flush(st)
        if not st.ev(c):
            m = self.solve(st.pc, c, st.model)
            if m is None:
                raise Stop('assume')
            st.set_model(m)
        st.pc.append(c)
        st.pcset.add(c.id)

    def blockinfo(self, b):
        """where a panicking block points to: (callee, location)"""
        callee = ''
        dbg = b.first.lines[-1] if b.first.lines else None
        for ln in b.lines:
            if 'call ' in ln and '@' in ln:
                import re
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                if m and not m.group(1).startswith('llvm.'):
                    callee = m.group(1)
                    d = re.search(r'!dbg !(\d+)', ln)
                    if d:
                        dbg = d.group(1)
        loc = self.mod.loc(dbg) if dbg else []
        return '%s%s' % (callee, ' at ' + ' <- '.join('%s:%d' % (f, l) for (_, f, l) in loc[:6]) if loc else '')

    def panicked(self, st, fr, b, callee=None):
        if st.expect is not None:
            self.stats['expected_panics'] += 1
            ww = st.watch
            if ww:
                for (p, bs) in ww:
                    cur = st.bytes_at(p, len(bs))
                    for x, y in zip(bs, cur):
                        if x is not y and not (type(x) is int and type(y) is int and x == y):
                            st.oblige(t.eq(8, x, y) if x is not None and y is not None else 0, 'assert', st.expect)
            raise Stop('panic')
        st.oblige(0, 'panic', self.blockinfo(b))
        raise Stop('panic')

    def branch(self, st, fr, blk, alts):
        blocks = fr.fn.blocks
        live = []
        for (g, l) in alts:
            if type(g) is int and g == 0:
                continue
            pk = blocks[l].panic
            if pk == 'ub' or (pk and st.expect is None):
                st.oblige(t.not_(g), pk, self.blockinfo(blocks[l]) if pk == 'panic' else 'unreachable code')
                continue
            live.append((g, l))
        if len(live) == 1:
            goto(fr, blk, live[0][1])
            return
        if not live:
            raise Stop('dead')
        if st.expect is None or not any(blocks[l].panic for _, l in live):
            reg = self.region(fr.fn, blk)
            if reg and (st.expect is None or not reg[2]):
                snap = st.clone()
                try:
                    self.run_region(st, fr, blk, live, reg)
                    self.stats['merges'] += 1
                    return
                except Split:
                    blk.region = False
                    for k in State.__slots__:
                        setattr(st, k, getattr(snap, k))
                    fr = st.frames[-1]
        self.flush(st)
        # fork: order the side the current model takes first
        todo = []
        for (g, l) in live:
            if type(g) is int or st.ev(g):
                todo.insert(0, (g, l, st.model))
            else:
                m = self.solve(st.pc, g, st.model)
                if m is not None:
                    todo.append((g, l, m))
        self.stats['forks'] += len(todo) - 1
        for (g, l, m) in reversed(todo[1:]):
            s2 = st.clone()
            s2.set_model(m)
            if type(g) is T and g.id not in s2.pcset:
                s2.pc.append(g)
                s2.pcset.add(g.id)
            goto(s2.frames[-1], blk, l)
            self.stack.append(s2)
        g, l, m = todo[0]
        if len(todo) > 1 and type(g) is T and g.id not in st.pcset:
            st.pc.append(g)
            st.pcset.add(g.id)
        goto(fr, blk, l)

    def succs(self, b):
        k = b.term[0]
        if k == 'br':
            return [b.term[1]]
        if k == 'cond':
            return [b.term[2], b.term[3]]
        if k == 'switch':
            return list(dict.fromkeys([b.term[3]] + [l for _, l in b.term[4]]))
        return []

    def analyse(self, fn):
        """immediate post-dominators over non-panicking blocks"""
        bs = [b for b in fn.order if not b.panic]
        n = len(bs)
        idx = {b.name: i for i, b in enumerate(bs)}
        full = (1 << (n + 1)) - 1          # bit n: virtual exit
        pd = [full] * n
        sc = []
        for b in bs:
            s = [idx[l] for l in self.succs(b) if l in idx]
            sc.append(s)
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                if sc[i]:
                    v = full
                    for j in sc[i]:
                        v &= pd[j]
                else:
                    v = 1 << n
                v |= 1 << i
                if v != pd[i]:
                    pd[i] = v
                    changed = True
        ip = {}
        for i, b in enumerate(bs):
            best = None
            m = pd[i] & ~(1 << i) & ~(1 << n)
            bc = -1
            while m:
                j = (m & -m).bit_length() - 1
                m &= m - 1
                c = bin(pd[j]).count('1')
                if c > bc:
                    bc = c
                    best = j
            ip[b.name] = bs[best].name if best is not None else None
        fn.ipdom = ip

    def region(self, fn, blk):
        if blk.region is not None:
            return blk.region
        if fn.ipdom is None:
            self.analyse(fn)
        blk.region = False
        join = fn.ipdom.get(blk.name)
        if join is None or join == blk.name:
            return False
        order = []
        state = {}
        size = [0]
        haspanic = [False]

        def visit(l):
            if l == join:
                return True
            b = fn.blocks[l]
            if b.panic:
                haspanic[0] = True
                return True
            s = state.get(l)
            if s == 1 or b is blk:
                return False
            if s == 2:
                return True
            state[l] = 1
            if b.nsegs > 1 or not b.first.pure or b.term[0] not in ('br', 'cond', 'switch'):
                return False
            size[0] += len(b.first.code) + 1
            if size[0] > 600 or len(state) > 80:
                return False
            for k in self.succs(b):
                if not visit(k):
                    return False
            state[l] = 2
            order.append(l)
            return True

        for l in self.succs(blk):
            if not visit(l):
                return False
        order.reverse()
        blk.region = (join, order, haspanic[0])
        return blk.region

    def run_region(self, st, fr, blk, live, reg):
        join, order, _ = reg
        blocks = fr.fn.blocks
        r = fr.r
        phity = fr.fn.phity
        inc = {}
        for (g, l) in live:
            inc.setdefault(l, []).append((blk.name, g))

        def enter(b, es):
            if not b.phis:
                return
            vals = []
            lists = [(b.phis[pn], g) for (pn, g) in es]
            for k, (d, _) in enumerate(lists[0][0]):
                v = r[lists[-1][0][k][1]]
                ty = phity[d]
                for (ph, g) in reversed(lists[:-1]):
                    x = r[ph[k][1]]
                    if x is not v:
                        v = ite_val(ty, g, x, v)
                vals.append((d, v))
            for d, v in vals:
                r[d] = v

        for l in order:
            es = inc.get(l)
            if not es:
                continue
            b = blocks[l]
            g = 0
            for (_, x) in es:
                g = t.or_(1, g, x)
            if type(g) is int and g == 0:
                continue
            enter(b, es)
            st.guard = g
            seg = b.first
            seg.hit = True
            self.stats['blocks'] += 1
            for f in seg.code:
                f(st, r)
            term = b.term
            if term[0] == 'br':
                alts = [(1, term[1])]
            elif term[0] == 'cond':
                k = r[term[1]]
                alts = [(k, term[2]), (t.not_(k), term[3])]
            else:
                _, c, w, dflt, cases = term
                k = r[c]
                by = {}
                dc = 1
                for v, lab in cases:
                    e = t.eq(w, k, v)
                    if lab != dflt:
                        by[lab] = t.or_(1, by.get(lab, 0), e)
                        dc = t.and_(1, dc, t.not_(e))
                by[dflt] = dc
                alts = [(x, lab) for lab, x in by.items()]
            for (x, lab) in alts:
                if type(x) is int and x == 0:
                    continue
                pk = blocks[lab].panic
                if pk:
                    st.oblige(t.not_(x), pk, self.blockinfo(blocks[lab]) if pk == 'panic' else 'unreachable code')
                    continue
                gg = t.and_(1, g, x)
                if type(gg) is int and gg == 0:
                    continue
                inc.setdefault(lab, []).append((l, gg))
        st.guard = 1
        es = inc.get(join)
        if not es:
            raise Stop('dead')
        b = blocks[join]
        enter(b, es)
        fr.seg = b.first
        fr.ip = 0

    def enumerate(self, st, x):
        """all values of term x on this path, with a model for each"""
        cs, vm = self.slice(st.pc, x.vm)
        s = z3.SolverFor('QF_BV')
        s.set('timeout', self.query_timeout)
        for c in cs:
            s.add(t.to_z3(c))
        out = []
        v = st.ev(x)
        zx = t.to_z3(x)
        models = {v: st.model}
        out.append(v)
        s.add(z3.Not(zx) if x.w == 1 and v else (zx if x.w == 1 else zx != v))
        while True:
            self.check_time()
            t0 = time.time()
            self.stats['queries'] += 1
            r = s.check()
            self.stats['solver_s'] += time.time() - t0
            if r == z3.unsat:
                self.stats['unsat'] += 1
                break
            if r == z3.unknown:
                raise Inconclusive('solver gave no answer while splitting')
            self.stats['sat'] += 1
            zm = s.model()
            m = dict(st.model)
            for i in _bits(vm):
                vv = t.VARS[i]
                y = zm.eval(t.to_z3(vv), model_completion=True)
                m[i] = (1 if z3.is_true(y) else 0) if vv.w == 1 else y.as_long()
            v = t.evaluate(x, m, {})
            models[v] = m
            out.append(v)
            if len(out) > 20000:
                raise Unsupported('too many values for a split')
            s.add(z3.Not(zx) if x.w == 1 and v else (zx if x.w == 1 else zx != v))
        out.sort()
        return [(v, models[v]) for v in out]

    def split(self, st, sp):
        self.flush(st)
        self.stats['splits'] += 1
        fr = st.frames[-1]
        fr.ip = st.ip
        vals = self.enumerate(st, sp.term)
        if sp.user and st.nsplit == 0 and self.shards > 1:
            vals = [e for k, e in enumerate(vals) if k % self.shards == self.shard]
        if sp.user:
            st.nsplit += 1
        for (v, m) in reversed(vals):
            s2 = st.clone()
            s2.set_model(m)
            s2.conc[sp.term.id] = v
            e = t.eq(sp.term.w, sp.term, v)
            if type(e) is T and e.id not in s2.pcset:
                s2.pc.append(e)
                s2.pcset.add(e.id)
            self.stack.append(s2)

    def run(self, st):
        while True:
            fr = st.frames[-1]
            seg = fr.seg
            seg.hit = True
            r = fr.r
            self.stats['blocks'] += 1
            st.steps += 1
            if st.steps & 0x3fff == 0:
                self.check_time()
                if st.steps > self.max_steps:
                    st.oblige(0, 'hang', 'no end after %d blocks' % st.steps)
            if fr.ip:
                ip = fr.ip
                fr.ip = 0
                for f in seg.code[ip:]:
                    f(st, r)
            else:
                for f in seg.code:
                    f(st, r)
            seg.end(self, st, fr)

    def explore(self, fname, shard=0, shards=1, max_violations=3):
        self.shard, self.shards = shard, shards
        st = State()
        st.eng = self
        st.frames = []
        st.objs = {}
        st.own = set()
        st.nextid = 1 << 20
        st.pc = []
        st.pcset = set()
        st.pending = []
        st.model = {}
        st.memo = {}
        st.guard = 1
        st.syms = []
        st.conc = {}
        st.obs = []
        st.ip = 0
        st.expect = None
        st.watch = None
        st.nsplit = 0
        st.steps = 0
        st.trace = None
        st.nsym = 0
        fn = self.function(fname)
        fr = Frame()
        fr.fn = fn
        fr.r = list(fn.tmpl)
        fr.seg = fn.entry.first
        fr.ip = 0
        fr.allocas = []
        fr.ret = None
        st.frames.append(fr)
        self.called.add(fname)
        self.stack = [st]
        self.completed = 0
        self.unknown = []
        first = True
        while self.stack:
            st = self.stack.pop()
            try:
                try:
                    self.run(st)
                except Split as sp:
                    self.split(st, sp)
                except Stop as s:
                    self.flush(st)
                    # a path that never reached a case split belongs to shard 0 only
                    if not (st.nsplit == 0 and shard != 0):
                        self.finish(st, s.why)
            except Violated as v:
                st.guard = 1
                self.violations.append(dict(kind=v.kind, info=v.info, inputs=self.inputs(st, v.model), expect=st.expect))
                if len(self.violations) >= max_violations:
                    break
            except Inconclusive as ex:
                # the solver gave up on this path: go on with the others
                if self.deadline and time.time() > self.deadline:
                    raise
                self.unknown.append(str(ex))
                self.query_timeout = max(5000, self.query_timeout // 2)
        if self.unknown:
            raise Inconclusive('%d paths without an answer: %s' % (len(self.unknown), self.unknown[0]))
        return self

    def encoded(self):
        """(function, file) of every repository function some executed instruction belongs to"""
        out = set()
        ids = set()
        for fn in self.fns.values():
            for b in fn.order:
                seg = b.first
                while seg is not None:
                    if seg.hit:
                        ids.update(x for x in seg.lines if x)
                        if seg.endline:
                            ids.add(seg.endline)
                    seg = seg.next
        for i in ids:
            for (name, file, line) in self.mod.loc(i):
                k = file.find('/repo/src/')
                if k >= 0:
                    out.add((name, file[k + 6:]))
        return out

    def inputs(self, st, model):
        memo = {}
        return [[v.w, t.evaluate(v, model, memo)] for v in st.syms]

    def finish(self, st, why):
        if why in ('assume', 'dead', 'fail'):
            return
        self.stats['paths'] += 1
        self.completed += 1
        n = self.completed
        # keep the first paths and then a sparse deterministic selection of later ones
        if len(self.samples) < self.max_samples // 2 or (n & (n - 1)) == 0:
            self.sample(st, why)

    def sample(self, st, why):
        # pick inputs that exercise the path: solve for a model that also sets many symbolic bits
        m = st.model
        free = []
        used = 0
        for c in st.pc:
            if type(c) is T:
                used |= c.vm
        for v in st.syms:
            if type(v) is T and not (v.vm & used):
                free.append(v)
        if free:
            m = dict(m)
            for v in free:
                for i in _bits(v.vm):
                    m[i] = self.rnd.getrandbits(v.w)
        memo = {}
        self.samples.append(dict(why=why, inputs=[[v.w, t.evaluate(v, m, memo)] for v in st.syms],
                                 obs=[t.evaluate(o, m, memo) for o in st.obs]))


def _bits(vm):
    while vm:
        b = vm & -vm
        yield b.bit_length() - 1
        vm ^= b
