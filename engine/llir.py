"""Reader for textual LLVM IR (opaque pointers), decoding functions lazily."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<s>c?"(?:[^"\\]|\\.)*")
 |(?P<l>%"(?:[^"])*"|%[-\w$.]+)
 |(?P<g>@"(?:[^"])*"|@[-\w$.]+)
 |(?P<m>!"(?:[^"])*"|![\w.]*)
 |(?P<n>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?(?![\w.])|0x[0-9A-Fa-f]+|[us]0x[0-9A-Fa-f]+)
 |(?P<w>[A-Za-z_$][-\w.$]*)
 |(?P<h>\#\d+)
 |(?P<d>\.\.\.)
 |(?P<p>[\[\](){}<>,=*:|^+])
)''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        k = m(s, i)
        if k is None:
            if s[i:].strip() == '':
                break
            raise IRError('cannot tokenize: ' + s[i:i + 60])
        out.append((k.lastgroup, k.group(k.lastgroup)))
        i = k.end()
    out.append(('e', ''))
    return out


# ------------------------------------------------------------------- types
# int: ('i', n); ptr: ('p',); void ('v',); array ('a', n, t); struct ('s', packed, (t..));
# vector ('x', n, t); float ('f', bits); label/metadata/token ('o', name)

_INT = re.compile(r'^i(\d+)$')
PTR = ('p',)
VOID = ('v',)
_FL = {'half': 16, 'bfloat': 16, 'float': 32, 'double': 64, 'x86_fp80': 80, 'fp128': 128}


class P(object):
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self):
        return self.t[self.i][1]

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.t[self.i][1] == s and self.t[self.i][0] != 's':
            self.i += 1
            return True
        return False

    def expect(self, s):
        v = self.next()
        if v != s:
            raise IRError('expected %r got %r near %r' % (s, v, ' '.join(x[1] for x in self.t[max(0, self.i - 6):self.i + 6])))

    def skip_parens(self):
        """cursor is at '(': skip the balanced group"""
        d = 0
        while True:
            k, v = self.t[self.i]
            self.i += 1
            if k == 'p':
                if v in '([{':
                    d += 1
                elif v in ')]}':
                    d -= 1
                    if d == 0:
                        return
            elif k == 'e':
                raise IRError('unbalanced')

    def is_type(self):
        k, v = self.t[self.i]
        if k == 'w':
            return v == 'ptr' or v == 'void' or _INT.match(v) is not None or v in _FL or v in ('label', 'metadata', 'token')
        if k == 'p':
            return v in '[{<'
        if k == 'l':
            return v in self.m.types
        return False

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'w':
            if v == 'ptr':
                t = PTR
                if self.peek() == 'addrspace':
                    self.next()
                    self.skip_parens()
                return t
            if v == 'void':
                return VOID
            m = _INT.match(v)
            if m:
                return ('i', int(m.group(1)))
            if v in _FL:
                return ('f', _FL[v])
            if v in ('label', 'metadata', 'token'):
                return ('o', v)
        elif k == 'l':
            return self.m.named_type(v)
        elif k == 'p':
            if v == '[':
                n = int(self.next())
                self.expect('x')
                t = self.type()
                self.expect(']')
                return ('a', n, t)
            if v == '{':
                ts = self.typelist('}')
                return ('s', False, ts)
            if v == '<':
                if self.accept('{'):
                    ts = self.typelist('}')
                    self.expect('>')
                    return ('s', True, ts)
                n = int(self.next())
                self.expect('x')
                t = self.type()
                self.expect('>')
                return ('x', n, t)
        raise IRError('type? %r near %r' % (v, ' '.join(x[1] for x in self.t[max(0, self.i - 6):self.i + 6])))

    def typelist(self, end):
        ts = []
        if self.accept(end):
            return ()
        while True:
            ts.append(self.type())
            if self.accept(end):
                return tuple(ts)
            self.expect(',')

    def skip_attrs(self):
        """skip parameter/return attributes up to the next type or value token"""
        while True:
            k, v = self.t[self.i]
            if k == 'w':
                if v in VALWORDS:
                    return
                self.i += 1
                if v in ('align', 'dereferenceable', 'alignstack', 'dereferenceable_or_null') and self.kind() == 'n':
                    self.i += 1
                elif self.peek() == '(' and v not in ():
                    self.skip_parens()
            elif k == 's' and not v.startswith('c"'):
                self.i += 1
                if self.accept('='):
                    self.i += 1
            elif k == 'h':
                self.i += 1
            else:
                return


CEXPR = ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'add', 'sub', 'xor', 'addrspacecast', 'zext', 'sext', 'select', 'icmp', 'shl', 'ptrtoaddr', 'mul', 'and', 'or')
VALWORDS = frozenset(('true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none', 'splat', 'blockaddress',
                      'dso_local_equivalent', 'asm') + CEXPR)


def align_of(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        if n <= 8:
            return 1
        if n <= 16:
            return 2
        if n <= 32:
            return 4
        if n <= 64:
            return 8
        return 16
    if k == 'p':
        return 8
    if k == 'f':
        return t[1] // 8 if t[1] != 80 else 16
    if k == 'a':
        return align_of(t[2])
    if k == 's':
        if t[1]:
            return 1
        return max([1] + [align_of(x) for x in t[2]])
    if k == 'x':
        n = size_of(t)
        a = 1
        while a < n:
            a *= 2
        return a
    raise IRError('align %r' % (t,))


_sz = {}


def size_of(t):
    """allocation size in bytes"""
    r = _sz.get(t)
    if r is None:
        r = _sz[t] = _size_of(t)
    return r


def _size_of(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        a = align_of(t)
        return (b + a - 1) // a * a
    if k == 'p':
        return 8
    if k == 'f':
        return t[1] // 8 if t[1] != 80 else 16
    if k == 'a':
        return t[1] * size_of(t[2])
    if k == 's':
        o = 0
        for x in t[2]:
            if not t[1]:
                a = align_of(x)
                o = (o + a - 1) // a * a
            o += size_of(x)
        a = align_of(t)
        return (o + a - 1) // a * a
    if k == 'x':
        if t[2][0] == 'i' and t[2][1] < 8:
            return (t[1] * t[2][1] + 7) // 8
        return t[1] * size_of(t[2])
    raise IRError('size %r' % (t,))


_so = {}


def struct_offsets(t):
    r = _so.get(t)
    if r is None:
        o = 0
        r = []
        for x in t[2]:
            if not t[1]:
                a = align_of(x)
                o = (o + a - 1) // a * a
            r.append(o)
            o += size_of(x)
        _so[t] = r
    return r


def unquote(n):
    """canonical symbol name without sigil/quotes"""
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def cstr(s):
    """bytes of a c"..." token"""
    b = bytearray()
    i = 2
    n = len(s) - 1
    while i < n:
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                b.append(92)
                i += 2
            else:
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            b.append(ord(c))
            i += 1
    return bytes(b)


DBG = re.compile(r', !dbg !(\d+)')


class Module(object):
    def __init__(self, path):
        self.types = {}
        self._rawtypes = {}
        self.globals = {}     # name -> raw line
        self.funcs = {}       # name -> (header, [lines])
        self.declares = {}
        self.md = {}
        self.aliases = {}
        cur = None
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            for line in f:
                if cur is not None:
                    if line[0] == '}':
                        cur = None
                    else:
                        cur.append(line.rstrip('\n'))
                    continue
                c = line[0]
                if c == '!':
                    i = line.find(' = ')
                    self.md[line[1:i]] = line[i + 3:].rstrip('\n')
                elif c == 'd':
                    if line.startswith('define '):
                        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', line)
                        name = m.group(1).strip('"')
                        cur = []
                        self.funcs[name] = (line.rstrip('\n'), cur)
                    elif line.startswith('declare '):
                        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', line)
                        self.declares[m.group(1).strip('"')] = line
                elif c == '@':
                    i = line.find(' = ')
                    self.globals[unquote(line[:i])] = line[i + 3:].rstrip('\n')
                elif c == '%':
                    i = line.find(' = type ')
                    self.types[line[:i]] = None
                    self._rawtypes[line[:i]] = line[i + 8:].rstrip('\n')

    def named_type(self, n):
        t = self.types.get(n)
        if t is None:
            raw = self._rawtypes[n]
            if raw.strip() == 'opaque':
                t = ('s', False, ())
            else:
                t = P(tokenize(raw), self).type()
            self.types[n] = t
        return t

    # -------- debug locations
    def _field(self, s, name):
        m = re.search(r'[( ]%s: ("(?:[^"\\]|\\.)*"|[^,)]+)' % name, s)
        return m.group(1) if m else None

    def scope_sub(self, sid):
        """(linkage or name, file) of the DISubprogram enclosing scope !sid"""
        seen = 0
        while sid and seen < 50:
            s = self.md.get(sid)
            if s is None:
                return None
            if 'DISubprogram(' in s:
                f = self._field(s, 'file')
                fn = ''
                if f and f.startswith('!'):
                    fs = self.md.get(f[1:], '')
                    fn = (self._field(fs, 'filename') or '').strip('"')
                    d = (self._field(fs, 'directory') or '').strip('"')
                    if fn and not fn.startswith('/'):
                        fn = d + '/' + fn
                name = (self._field(s, 'linkageName') or self._field(s, 'name') or '').strip('"')
                return (name, fn)
            p = self._field(s, 'scope')
            sid = p[1:] if p else None
            seen += 1
        return None

    def loc(self, did):
        """[(function, file, line)] innermost first for !DILocation did"""
        out = []
        while did is not None and len(out) < 40:
            s = self.md.get(did)
            if s is None or 'DILocation(' not in s:
                break
            line = self._field(s, 'line')
            sc = self._field(s, 'scope')
            sub = self.scope_sub(sc[1:]) if sc else None
            if sub:
                out.append((sub[0], sub[1], int(line or 0)))
            ia = self._field(s, 'inlinedAt')
            did = ia[1:] if ia else None
        return out
