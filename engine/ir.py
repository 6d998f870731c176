"""LLVM-IR text loader: indexes the modules rustc emitted and parses functions lazily."""
import re, struct

TOK = re.compile(r'''
  (?P<ws>\s+|/\*.*?\*/)
 |(?P<cmt>;.*$)
 |(?P<var>%"(?:[^"\\]|\\.)*"|%[\w.$-]+)
 |(?P<glob>@"(?:[^"\\]|\\.)*"|@[\w.$-]+)
 |(?P<cstr>c"(?:[^"\\]|\\.)*")
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<meta>!(?:"(?:[^"\\]|\\.)*"|[\w.]+)?)
 |(?P<hexf>f?0x[HKLMR]?[0-9A-Fa-f]+)
 |(?P<flt>[+-]?\d+\.\d*(?:[eE][+-]?\d+)?|[+-](?:inf|q?nan)\b(?:\(0x[0-9A-Fa-f]+\))?)
 |(?P<int>-?\d+)
 |(?P<attr>\#\d+)
 |(?P<dots>\.\.\.)
 |(?P<id>[A-Za-z_][\w.$-]*)
 |(?P<p>[(){}\[\]<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        r = m(s, pos)
        if r is None:
            raise SyntaxError("tok: %r" % s[pos:pos + 60])
        k = r.lastgroup
        if k not in ('ws', 'cmt'):
            out.append((k, r.group()))
        pos = r.end()
    return out


# ---- types: ('i',w) ('f',32|64) ('p',) ('v',) ('a',n,t) ('vec',n,t) ('s',(t...),packed)
_I = {}


def ity(w):
    t = _I.get(w)
    if t is None:
        t = _I[w] = ('i', w)
    return t


F32 = ('f', 32)
F64 = ('f', 64)
PTR = ('p',)
VOID = ('v',)


def sizeof(t):
    k = t[0]
    if k == 'i':
        w = (t[1] + 7) // 8
        s = 1
        while s < w:
            s *= 2
        return s
    if k == 'f':
        return t[1] // 8
    if k == 'p':
        return 8
    if k == 'a':
        return t[1] * sizeof(t[2])
    if k == 'vec':
        if t[2] == ('i', 1):
            return (t[1] + 7) // 8
        return t[1] * sizeof(t[2])
    if k == 's':
        return layout(t)[1]
    raise ValueError(t)


def storesize(t):
    if t[0] == 'i':
        return (t[1] + 7) // 8
    return sizeof(t)


def alignof(t):
    k = t[0]
    if k == 'i':
        return min(sizeof(t), 16)
    if k == 'f':
        return t[1] // 8
    if k == 'p':
        return 8
    if k == 'a':
        return alignof(t[2])
    if k == 'vec':
        return sizeof(t)
    if k == 's':
        if t[2]:
            return 1
        return max([alignof(x) for x in t[1]] or [1])
    raise ValueError(t)


_lay = {}


def layout(t):
    r = _lay.get(t)
    if r is None:
        off = 0
        offs = []
        al = 1
        for x in t[1]:
            if not t[2]:
                a = alignof(x)
                al = max(al, a)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += sizeof(x)
        off = (off + al - 1) // al * al
        r = _lay[t] = (offs, off)
    return r


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def peekv(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        r = self.next()
        if r[1] != v:
            raise SyntaxError("expected %r got %r in %r" % (v, r, ' '.join(x[1] for x in self.t)[:300]))

    def skip_group(self):
        # at '(' : skip to the matching ')'
        d = 0
        while True:
            k = self.next()[1]
            if k == '(':
                d += 1
            elif k == ')':
                d -= 1
                if d == 0:
                    return

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v[0] == 'i' and v[1:].isdigit():
                return ity(int(v[1:]))
            if v == 'ptr':
                if self.acc('addrspace'):
                    self.skip_group()
                return PTR
            if v == 'float':
                return F32
            if v == 'double':
                return F64
            if v == 'void':
                return VOID
            if v == 'half':
                return ('f', 16)
            if v == 'metadata':
                return ('m',)
            if v == 'label':
                return ('l',)
            raise SyntaxError('type ' + v)
        if v == '[':
            n = int(self.next()[1])
            self.exp('x')
            t = self.type()
            self.exp(']')
            return ('a', n, t)
        if v == '<':
            if self.peekv() == '{':
                self.next()
                ts = self.typelist('}')
                self.exp('>')
                return ('s', tuple(ts), True)
            n = int(self.next()[1])
            self.exp('x')
            t = self.type()
            self.exp('>')
            return ('vec', n, t)
        if v == '{':
            ts = self.typelist('}')
            return ('s', tuple(ts), False)
        if k == 'var':
            return self.mod.named_type(v)
        raise SyntaxError('type %r' % ((k, v),))

    def typelist(self, end):
        ts = []
        if self.acc(end):
            return ts
        while True:
            ts.append(self.type())
            if self.acc(end):
                return ts
            self.exp(',')

    ATTRK = {'align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'sret', 'byval',
             'initializes', 'nofpclass', 'elementtype', 'allocalign', 'memory', 'addrspace', 'preallocated',
             'inalloca', 'byref'}

    def skip_attrs(self):
        """parameter/return attributes in front of a value or type"""
        while True:
            k, v = self.peek()
            if k == 'id' and v in ATTRS:
                self.next()
                if self.peekv() == '(':
                    self.skip_group()
                elif v == 'align' and self.peek()[0] == 'int':
                    self.next()
            elif k == 'str':
                self.next()
                if self.acc('='):
                    self.next()
            else:
                return


ATTRS = set('''align dereferenceable dereferenceable_or_null captures range sret byval initializes nofpclass
elementtype allocalign noalias nofree noundef nonnull readonly writeonly readnone nocapture immarg zeroext signext
inreg writable dead_on_unwind dead_on_return allocptr returned swiftself swifterror nest noext preallocated inalloca
byref nocallback nosync willreturn dso_local'''.split())

# values: ('c', python value) constant ; ('v', name) local ; ('g', name) global ;
#         ('agg', [vals], type) ; ('undef',) ; ('zero',) ; ('ce', op, ...)


def f32bits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def fparse(k, v, ty):
    if k == 'flt' and ('inf' in v or 'nan' in v):
        return float(v[0] + ('inf' if 'inf' in v else 'nan'))
    if k == 'flt' or k == 'int':
        x = float(v)
        if ty[1] == 32:
            x = struct.unpack('<f', struct.pack('<f', x))[0]
        return x
    if v.startswith('f0x'):
        b = int(v[1:], 16)
        if ty[1] == 32:
            return struct.unpack('<f', struct.pack('<I', b))[0]
        return struct.unpack('<d', struct.pack('<Q', b))[0]
    return struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0]


def value(p, ty):
    k, v = p.next()
    if k == 'var':
        return ('v', v)
    if k == 'glob':
        return ('g', v)
    if k == 'int' and ty[0] == 'i':
        return ('c', int(v) & ((1 << ty[1]) - 1) if ty[1] != 1 else bool(int(v) & 1))
    if k in ('flt', 'hexf', 'int') and ty[0] == 'f':
        return ('c', fparse(k, v, ty))
    if k == 'id':
        if v == 'true':
            return ('c', True)
        if v == 'false':
            return ('c', False)
        if v == 'null':
            return ('c', 0)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('c', 0)
        if v == 'splat':
            p.exp('(')
            t = p.type()
            x = value(p, t)
            p.exp(')')
            return ('agg', [x] * ty[1], ty)
        if v in ('inf', 'nan', 'pinf', 'ninf'):
            return ('c', float('-inf') if v == 'ninf' else float('nan') if v == 'nan' else float('inf'))
        if v == 'getelementptr':
            while p.peek()[0] == 'id' and p.peekv() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                p.next()
                if p.peekv() == '(' and p.t[p.i + 1][0] == 'int':
                    p.skip_group()
            p.exp('(')
            t = p.type()
            ops = []
            while p.acc(','):
                if p.acc('inrange'):
                    pass
                ot = p.type()
                ops.append((ot, value(p, ot)))
            p.exp(')')
            return ('gep', t, ops)
        if v in ('inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'bitcast', 'addrspacecast', 'ptrtoaddr'):
            p.exp('(')
            t = p.type()
            x = value(p, t)
            p.exp('to')
            t2 = p.type()
            p.exp(')')
            return ('cast', v, t, x, t2)
        if v in ('sub', 'add', 'xor', 'mul', 'shl', 'and', 'or', 'lshr'):
            while p.peek()[0] == 'id' and p.peekv() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            p.exp('(')
            t = p.type()
            a = value(p, t)
            p.exp(',')
            t2 = p.type()
            b = value(p, t2)
            p.exp(')')
            return ('bin', v, t, a, b)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return value(p, ty)
        raise SyntaxError('value ' + v)
    if k == 'cstr':
        s = v[2:-1]
        bs = []
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    bs.append(92)
                    i += 2
                    continue
                bs.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                bs.append(ord(s[i]))
                i += 1
        return ('bytes', bytes(bs))
    if v == '<' or v == '[' or v == '{':
        end = {'<': '>', '[': ']', '{': '}'}[v]
        packed = False
        if v == '<' and p.peekv() == '{':
            p.next()
            end = '}'
            packed = True
        vals = []
        if not p.acc(end):
            while True:
                t = p.type()
                vals.append(value(p, t))
                if p.acc(end):
                    break
                p.exp(',')
        if packed:
            p.exp('>')
        return ('agg', vals, ty)
    raise SyntaxError('value %r' % ((k, v),))


class Module:
    def __init__(self, path, mid):
        self.path = path
        self.mid = mid
        self.types = {}
        self.globals = {}      # name -> (linkage_local, line)
        self.funcs = {}        # name -> (start,end) line range
        self.local = set()
        self.demangled = {}
        self.decls = set()
        self.aliases = {}
        self.lines = open(path, encoding='utf-8', errors='replace').read().split('\n')
        self._scan()

    GN = re.compile(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)')

    def _scan(self):
        L = self.lines
        i = 0
        n = len(L)
        while i < n:
            s = L[i]
            if s.startswith('define '):
                m = self.GN.search(s)
                name = m.group()
                j = i + 1
                while L[j] != '}':
                    j += 1
                self.funcs[name] = (i, j)
                head = s[:m.start()]
                if ' internal ' in head or ' private ' in head:
                    self.local.add(name)
                k = i - 1
                while k > 0 and L[k].startswith('; Function Attrs'):
                    k -= 1
                if L[k].startswith('; '):
                    self.demangled[name] = L[k][2:].strip()
                i = j
            elif s.startswith('@'):
                m = self.GN.match(s)
                name = m.group()
                rest = s[m.end():]
                if re.search(r'\balias\b', rest.split('@')[0]) and ' alias ' in rest:
                    self.aliases[name] = s
                else:
                    self.globals[name] = s
                if ' internal ' in rest[:60] or ' private ' in rest[:60]:
                    self.local.add(name)
            elif s.startswith('%'):
                eq = s.index(' = type ')
                self.types[s[:eq]] = s[eq + 8:]
            elif s.startswith('declare '):
                m = self.GN.search(s)
                self.decls.add(m.group())
            i += 1

    def named_type(self, v):
        t = self.types[v]
        if isinstance(t, str):
            if t == 'opaque':
                t = ('s', (), False)
            else:
                t = P(tokenize(t), self).type()
            self.types[v] = t
        return t


class Func:
    __slots__ = ('name', 'mod', 'params', 'ret', 'blocks', 'order', 'lines')


def parse_func(mod, name):
    a, b = mod.funcs[name]
    L = mod.lines
    f = Func()
    f.name = name
    f.mod = mod
    p = P(tokenize(L[a]), mod)
    # find name token
    idx = next(i for i, t in enumerate(p.t) if t[0] == 'glob')
    # return type: parse back: scan from after 'define', skipping keywords
    p.i = 1
    while True:
        k, v = p.peek()
        if k == 'id' and (v in ATTRS or v in FKW):
            p.next()
            if p.peekv() == '(':
                p.skip_group()
            elif v == 'align' and p.peek()[0] == 'int':
                p.next()
            continue
        break
    f.ret = p.type()
    assert p.i == idx, L[a][:200]
    p.next()
    p.exp('(')
    f.params = []
    if not p.acc(')'):
        while True:
            if p.acc('...'):
                p.exp(')')
                break
            t = p.type()
            p.skip_attrs()
            k, v = p.next()
            assert k == 'var', (k, v)
            f.params.append((t, v))
            if p.acc(')'):
                break
            p.exp(',')
    # body
    blocks = {}
    order = []
    cur = None
    i = a + 1
    while i < b:
        s = L[i]
        i += 1
        if not s or s.lstrip().startswith(';'):
            continue
        if s[0] not in ' \t':
            m = re.match(r'("(?:[^"\\]|\\.)*"|[\w.$-]+):', s)
            if m:
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if s[0] == '}':
                break
        if cur is None:
            cur = '%start'
            blocks[cur] = []
            order.append(cur)
        st = s.strip()
        if st.startswith('#dbg'):
            continue
        if (st.startswith('switch') or ' switch ' in st[:10]) and ']' not in st:
            while True:
                s2 = L[i]
                i += 1
                st += ' ' + s2.strip()
                if s2.strip().startswith(']'):
                    break
        if st.startswith('invoke') or ' = invoke' in st[:200]:
            if ' unwind label ' not in st:
                st += ' ' + L[i].strip()
                i += 1
        if 'landingpad' in st[:200].split('=')[-1][:20]:
            while L[i].strip().startswith(('cleanup', 'catch', 'filter')):
                i += 1
        blocks[cur].append(st)
    f.blocks = blocks
    f.order = order
    return f


FKW = set('''internal private external linkonce_odr weak_odr linkonce weak available_externally hidden protected default
dso_local dso_preemptable fastcc coldcc ccc tailcc cold cc unnamed_addr local_unnamed_addr preserve_mostcc'''.split())
