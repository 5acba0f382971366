"""Textual LLVM-18 IR reader (the subset clang -O0 + mem2reg emits for /repo/src).

Nothing is dropped except llvm.dbg.* metadata calls and attributes; an instruction
this reader does not know raises Unsupported when (and only when) it is executed.
"""
import re


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'name', 'packed')

    def __init__(self, k, n=0, el=None, fields=None, name=None, packed=False):
        self.k, self.n, self.el, self.fields, self.name, self.packed = k, n, el, fields, name, packed

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.n
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return self.name or '{%s}' % ','.join(map(repr, self.fields))
        return self.k


VOID, PTR, META, LABEL = Ty('void'), Ty('ptr'), Ty('metadata'), Ty('label')
_ints = {}


def I(n):
    if n not in _ints:
        _ints[n] = Ty('i', n)
    return _ints[n]


TOK = re.compile(r'''\s*(?:
   (?P<s>c?"(?:[^"\\]|\\.)*")
 | (?P<l>%"[^"]*"|%[-\w.$]+)
 | (?P<g>@"[^"]*"|@[-\w.$]+)
 | (?P<m>![-\w.]*(?:"[^"]*")?)
 | (?P<n>-?\d+(?:\.\d+e[+-]\d+)?|0x[0-9A-F]+)
 | (?P<w>[A-Za-z_][\w.]*)
 | (?P<d>\.\.\.)
 | (?P<h>\#\d+)
 | (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Unsupported('lex: %r' % s[i:i + 60])
        i = m.end()
        out.append(m.group(m.lastgroup))
    return out


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.next() != x:
            raise Unsupported('expected %s in %s' % (x, ' '.join(self.t)))

    def ty(self):
        t = self.next()
        if t == 'void':
            r = VOID
        elif t == 'ptr':
            r = PTR
        elif t == 'metadata':
            r = META
        elif t == 'label':
            r = LABEL
        elif re.fullmatch(r'i\d+', t):
            r = I(int(t[1:]))
        elif t in ('float', 'double', 'x86_fp80'):
            r = Ty(t)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            el = self.ty()
            self.expect(']')
            r = Ty('arr', n, el)
        elif t == '{':
            f = []
            if not self.eat('}'):
                while True:
                    f.append(self.ty())
                    if self.eat('}'):
                        break
                    self.expect(',')
            r = Ty('struct', fields=f)
        elif t == '<':
            if self.peek() == '{':
                r = self.ty()
                r.packed = True
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                el = self.ty()
                self.expect('>')
                r = Ty('vec', n, el)
        elif t.startswith('%'):
            r = self.mod.named(t)
        else:
            raise Unsupported('type %s in %s' % (t, ' '.join(self.t)[:200]))
        if self.peek() == '(':  # function type, e.g. void (i32, ptr, ...)
            self.next()
            depth = 1
            while depth:
                x = self.next()
                depth += (x == '(') - (x == ')')
            return Ty('fn', el=r)
        return r

    def is_type(self):
        t = self.peek()
        return t is not None and (t in ('void', 'ptr', 'metadata', 'label', '[', '{', '<') or re.fullmatch(r'i\d+', t) or t.startswith('%struct') or t.startswith('%union') or t.startswith('%class'))

    ATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly',
            'immarg', 'returned', 'readnone', 'nofree', 'noreturn', 'dead_on_unwind', 'writable', 'nest', 'swiftself'}

    def attrs(self):
        while True:
            t = self.peek()
            if t in self.ATTR:
                self.next()
            elif t in ('align',):
                self.next()
                self.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'allocalign', 'align'):
                self.next()
                if self.eat('('):
                    d = 1
                    while d:
                        x = self.next()
                        d += (x == '(') - (x == ')')
            else:
                return

    def val(self, ty):
        """operand -> tuple"""
        t = self.next()
        if t.startswith('%'):
            return ('l', t[1:].strip('"'), ty)
        if t.startswith('@'):
            return ('g', t[1:].strip('"'), ty)
        if t == 'null':
            return ('c', 0, ty)
        if t in ('true', 'false'):
            return ('c', int(t == 'true'), ty)
        if t in ('undef', 'poison'):
            return ('u', 0, ty)
        if t == 'zeroinitializer':
            return ('z', 0, ty)
        if re.fullmatch(r'-?\d+', t):
            return ('c', int(t), ty)
        if t.startswith('c"'):
            b = bytearray()
            s = t[2:-1]
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('s', bytes(b), ty)
        if t in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            vs = []
            if t == '<' and self.peek() == '{':
                self.next()
                close = '}'
                pk = True
            else:
                pk = False
            if not self.eat(close):
                while True:
                    et = self.ty()
                    vs.append(self.val(et))
                    if self.eat(close):
                        break
                    self.expect(',')
            if pk:
                self.expect('>')
            return ('a', vs, ty)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bt = self.ty()
            ops = []
            while self.eat(','):
                ot = self.ty()
                ops.append(self.val(ot))
            self.expect(')')
            return ('gep', (bt, ops), ty)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
            self.expect('(')
            it = self.ty()
            v = self.val(it)
            self.expect('to')
            tt = self.ty()
            self.expect(')')
            return ('cast', (t, v, tt), tt)
        raise Unsupported('operand %s in %s' % (t, ' '.join(self.t)[:200]))


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'raw', 'dbg', 'x')

    def __init__(self, op, dst, ty, a, raw, dbg, x=None):
        self.op, self.dst, self.ty, self.a, self.raw, self.dbg, self.x = op, dst, ty, a, raw, dbg, x


class Block:
    __slots__ = ('name', 'phis', 'insts', 'succ', 'preds')

    def __init__(self, name):
        self.name, self.phis, self.insts, self.succ, self.preds = name, [], [], [], []


class Func:
    def __init__(self, name, ret, params, vararg, dbg, attrs=''):
        self.name, self.ret, self.params, self.vararg, self.dbg, self.attrs = name, ret, params, vararg, dbg, attrs
        self.blocks = {}
        self.order = []
        self._body = None

    def __repr__(self):
        return 'Func(%s)' % self.name


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'tls', 'ext')


def size_of(t):
    if t.k == 'i':
        n = (t.n + 7) // 8
        p = 1
        while p < n:
            p *= 2
        return p
    if t.k == 'ptr' or t.k == 'double':
        return 8
    if t.k == 'float':
        return 4
    if t.k == 'x86_fp80':
        return 16
    if t.k == 'arr':
        return t.n * size_of(t.el)
    if t.k == 'struct':
        return struct_layout(t)[1]
    raise Unsupported('sizeof %r' % t)


def align_of(t):
    if t.k == 'i':
        return min(size_of(t), 16)
    if t.k in ('ptr', 'double'):
        return 8
    if t.k == 'float':
        return 4
    if t.k == 'arr':
        return align_of(t.el)
    if t.k == 'struct':
        if t.packed:
            return 1
        return max([align_of(f) for f in t.fields] or [1])
    return 16


def struct_layout(t):
    off = 0
    offs = []
    for f in t.fields:
        if not t.packed:
            a = align_of(f)
            off = (off + a - 1) // a * a
        offs.append(off)
        off += size_of(f)
    if not t.packed:
        a = align_of(t)
        off = (off + a - 1) // a * a
    return offs, off


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.meta = {}
        self._typetext = {}
        self._parse(text)

    def named(self, t):
        if t not in self.types:
            ty = Ty('struct', fields=None, name=t)
            self.types[t] = ty
            txt = self._typetext.get(t)
            if txt is None or txt == 'opaque':
                ty.fields = []
            else:
                p = P(lex(txt), self)
                b = p.ty()
                ty.fields = b.fields
                ty.packed = b.packed
        return self.types[t]

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        gl = []
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, b = l.split(' = type ', 1)
                self._typetext[nm] = b.strip()
            elif l.startswith('@'):
                gl.append(l)
            elif l.startswith('!'):
                m = re.match(r'(![-\w.]+) = (.*)', l)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._func(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@([\w.$]+)\(', l)
                if m:
                    self.decls[m.group(1)] = l
            i += 1
        for l in gl:
            self._global(l)

    def _global(self, l):
        m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
        g = Global()
        g.name = m.group(1).strip('"')
        body = m.group(2)
        # strip trailing attributes
        g.tls = 'thread_local' in body.split('global')[0]
        m2 = re.search(r'\b(global|constant)\b (.*)', body)
        if not m2:
            return
        g.const = m2.group(1) == 'constant'
        g.ext = 'external' in body[:m2.start()]
        rest = m2.group(2)
        try:
            p = P(lex(rest), self)
            g.ty = p.ty()
            g.init = None
            if not g.ext and p.peek() not in (None, ','):
                g.init = p.val(g.ty)
        except Unsupported:
            g.ty = getattr(g, 'ty', None)
            g.init = None
        self.globals[g.name] = g

    def _func(self, head, body):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
        name = m.group(1).strip('"')
        pre = head[len('define '):m.start()]
        toks = lex(pre)
        p = P(toks, self)
        while not p.is_type():
            t = p.next()
            if t in ('align',):
                p.next()
            elif t in ('dereferenceable',):
                p.next(); p.next(); p.next()
        ret = p.ty()
        # params
        d = 1
        j = m.end()
        while d:
            c = head[j]
            d += (c == '(') - (c == ')')
            j += 1
        ptxt = head[m.end():j - 1]
        tail = head[j:]
        params = []
        vararg = False
        p = P(lex(ptxt), self)
        while p.peek() is not None:
            if p.eat('...'):
                vararg = True
                break
            t = p.ty()
            p.attrs()
            nm = p.next()[1:].strip('"')
            params.append((nm, t))
            if not p.eat(','):
                break
        md = re.search(r'!dbg (!\d+)', tail)
        f = Func(name, ret, params, vararg, md.group(1) if md else None, tail)
        f._body = body
        self.funcs[name] = f

    def get(self, name):
        f = self.funcs.get(name)
        if f is None:
            return None
        if f._body is not None:
            self._body(f)
        return f

    def _body(self, f):
        body, f._body = f._body, None
        cur = None
        # join multi-line instructions (switch)
        lines = []
        acc = None
        for l in body:
            if acc is not None:
                acc += ' ' + l.strip()
                if l.strip().startswith(']'):
                    lines.append(acc)
                    acc = None
                continue
            if re.match(r'\s+switch ', l) and not l.rstrip().endswith(']') and ']' not in l:
                acc = l
                continue
            lines.append(l)
        for l in lines:
            if not l.strip():
                continue
            if not l.startswith(' '):
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                nm = m.group(1).strip('"')
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                continue
            if cur is None:
                # unnamed entry block
                cur = Block('0')
                f.blocks['0'] = cur
                f.order.append('0')
            ins = self._inst(l.strip())
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.insts.append(ins)
        for b in f.blocks.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = list(dict.fromkeys(t.x))
            elif t.op == 'switch':
                b.succ = list(dict.fromkeys([t.x[0]] + [q for _, q in t.x[1]]))
        for b in f.blocks.values():
            for s in b.succ:
                f.blocks[s].preds.append(b.name)

    def _inst(self, l):
        dbg = None
        m = re.search(r', !dbg (!\d+)', l)
        if m:
            dbg = m.group(1)
            l0 = l[:m.start()]
        else:
            l0 = l
        l0 = re.sub(r', ![a-z_.]+ !\d+.*$', '', l0)
        if 'call void @llvm.dbg.' in l0 or 'call void @llvm.lifetime' in l0:
            return None
        try:
            p = P(lex(l0), self)
            return self._inst2(p, l0, dbg)
        except (Unsupported, IndexError, ValueError) as e:
            return Inst('unsupported', None, None, [], l0, dbg, str(e))

    def _inst2(self, p, raw, dbg):
        dst = None
        if p.peek().startswith('%') and p.peek(1) == '=':
            dst = p.next()[1:].strip('"')
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        BIN = ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr')
        if op in BIN:
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            t = p.ty()
            a = p.val(t)
            p.expect(',')
            b = p.val(t)
            return Inst(op, dst, t, [a, b], raw, dbg)
        if op == 'icmp':
            pr = p.next()
            t = p.ty()
            a = p.val(t)
            p.expect(',')
            b = p.val(t)
            return Inst('icmp', dst, t, [a, b], raw, dbg, pr)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.ty()
            a = p.val(t)
            if op == 'freeze':
                return Inst('bitcast', dst, t, [a], raw, dbg, t)
            p.expect('to')
            tt = p.ty()
            return Inst(op, dst, tt, [a], raw, dbg, t)
        if op == 'load':
            at = p.eat('atomic')
            p.eat('volatile')
            t = p.ty()
            p.expect(',')
            pt = p.ty()
            a = p.val(pt)
            return Inst('load', dst, t, [a], raw, dbg, at)
        if op == 'store':
            at = p.eat('atomic')
            p.eat('volatile')
            t = p.ty()
            v = p.val(t)
            p.expect(',')
            pt = p.ty()
            a = p.val(pt)
            return Inst('store', None, t, [v, a], raw, dbg, at)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.ty()
            ops = []
            while p.eat(','):
                t = p.ty()
                ops.append(p.val(t))
            return Inst('gep', dst, PTR, ops, raw, dbg, bt)
        if op == 'phi':
            t = p.ty()
            inc = []
            while True:
                p.expect('[')
                v = p.val(t)
                p.expect(',')
                bl = p.next()[1:].strip('"')
                p.expect(']')
                inc.append((v, bl))
                if not p.eat(','):
                    break
            return Inst('phi', dst, t, inc, raw, dbg)
        if op == 'select':
            t = p.ty()
            c = p.val(t)
            p.expect(',')
            t = p.ty()
            a = p.val(t)
            p.expect(',')
            p.ty()
            b = p.val(t)
            return Inst('select', dst, t, [c, a, b], raw, dbg)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Inst('br', None, VOID, [], raw, dbg, [p.next()[1:].strip('"')])
            t = p.ty()
            c = p.val(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            b = p.next()[1:].strip('"')
            return Inst('br', None, VOID, [c], raw, dbg, [a, b])
        if op == 'switch':
            t = p.ty()
            c = p.val(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cs = []
            while not p.eat(']'):
                p.ty()
                v = p.val(t)
                p.expect(',')
                p.expect('label')
                cs.append((v[1], p.next()[1:].strip('"')))
            return Inst('switch', None, t, [c], raw, dbg, (d, cs))
        if op == 'ret':
            t = p.ty()
            if t.k == 'void':
                return Inst('ret', None, t, [], raw, dbg)
            return Inst('ret', None, t, [p.val(t)], raw, dbg)
        if op == 'unreachable':
            return Inst('unreachable', None, VOID, [], raw, dbg)
        if op == 'alloca':
            t = p.ty()
            n = None
            if p.eat(','):
                if p.is_type():
                    nt = p.ty()
                    n = p.val(nt)
            return Inst('alloca', dst, t, [n] if n else [], raw, dbg)
        if op in ('call', 'invoke'):
            while p.peek() in ('fastcc', 'ccc', 'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'align', 'dereferenceable', 'dereferenceable_or_null'):
                x = p.next()
                if x == 'align':
                    p.next()
                elif x.startswith('dereferenceable'):
                    p.next(); p.next(); p.next()
            t = p.ty()
            if t.k == 'fn':
                t = t.el
            cal = p.val(PTR)
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    at = p.ty()
                    p.attrs()
                    if at.k == 'metadata':
                        args.append(('m', p.next(), at))
                    else:
                        args.append(p.val(at))
                    if p.eat(')'):
                        break
                    p.expect(',')
            if op == 'invoke':
                raise Unsupported('invoke')
            return Inst('call', dst, t, args, raw, dbg, cal)
        if op == 'extractvalue':
            t = p.ty()
            a = p.val(t)
            p.expect(',')
            return Inst('extractvalue', dst, t, [a], raw, dbg, int(p.next()))
        if op == 'atomicrmw':
            p.eat('volatile')
            o = p.next()
            pt = p.ty()
            a = p.val(pt)
            p.expect(',')
            t = p.ty()
            v = p.val(t)
            return Inst('atomicrmw', dst, t, [a, v], raw, dbg, o)
        raise Unsupported('instruction %s' % op)

    # ------------------------------------------------------------ debug info
    def loc(self, dbg):
        """line number of a !DILocation"""
        s = self.meta.get(dbg, '')
        m = re.search(r'line: (\d+)', s)
        return int(m.group(1)) if m else 0

    def line_in(self, dbg):
        s = self.meta.get(dbg, '')
        m = re.search(r'line: (\d+).*scope: (!\d+)', s)
        if not m:
            return '?'
        line = m.group(1)
        sc = m.group(2)
        for _ in range(20):
            t = self.meta.get(sc, '')
            m = re.search(r'file: (!\d+)', t)
            if m:
                fn = re.search(r'filename: "([^"]*)"', self.meta.get(m.group(1), ''))
                return '%s:%s' % (fn.group(1) if fn else '?', line)
            m = re.search(r'scope: (!\d+)', t)
            if not m:
                break
            sc = m.group(1)
        return line

    def _field(self, s, k):
        m = re.search(r'\b%s: ("[^"]*"|[^,)]+)' % k, s)
        return m.group(1).strip('"') if m else None

    def _strip(self, m):
        """resolve typedef/const chains"""
        for _ in range(20):
            s = self.meta.get(m, '')
            if 'DW_TAG_typedef' in s or 'DW_TAG_const_type' in s or 'DW_TAG_volatile_type' in s or 'DW_TAG_restrict' in s or 'DW_TAG_atomic_type' in s:
                b = self._field(s, 'baseType')
                if b is None:
                    return m
                m = b
            else:
                return m
        return m

    def di_structs(self):
        """name -> [(field, byte offset, byte size, element count or None)]"""
        out = {}

        def members(mid):
            s = self.meta.get(mid, '')
            el = self._field(s, 'elements')
            fs = []
            for e in re.findall(r'!\d+', self.meta.get(el, '') if el else ''):
                es = self.meta.get(e, '')
                if 'DW_TAG_member' not in es:
                    continue
                nm = self._field(es, 'name')
                off = int(self._field(es, 'offset') or 0) // 8
                sz = int(self._field(es, 'size') or 0) // 8
                bt = self._strip(self._field(es, 'baseType'))
                bs = self.meta.get(bt, '')
                cnt = None
                if 'DW_TAG_array_type' in bs:
                    sub = self._field(bs, 'elements')
                    c = re.findall(r'!\d+', self.meta.get(sub, ''))
                    cnt = 1
                    for q in c:
                        mm = re.search(r'count: (\d+)', self.meta.get(q, ''))
                        cnt *= int(mm.group(1)) if mm else 0
                fs.append((nm, off, sz, cnt, bt))
            return fs

        for mid, s in self.meta.items():
            if 'DW_TAG_structure_type' in s and 'elements:' in s:
                nm = self._field(s, 'name')
                if nm:
                    sz = int(self._field(s, 'size') or 0) // 8
                    out[nm] = (sz, members(mid), mid)
            elif 'DW_TAG_typedef' in s:
                nm = self._field(s, 'name')
                b = self._strip(self._field(s, 'baseType') or '')
                bs = self.meta.get(b, '')
                if nm and 'DW_TAG_structure_type' in bs and 'elements:' in bs:
                    sz = int(self._field(bs, 'size') or 0) // 8
                    out[nm] = (sz, members(b), b)
        return out


if __name__ == '__main__':
    import sys, time
    t = time.time()
    m = Module(open(sys.argv[1]).read())
    bad = 0
    for f in list(m.funcs):
        g = m.get(f)
        for b in g.blocks.values():
            for i in b.insts + b.phis:
                if i.op == 'unsupported':
                    print(f, i.raw, i.x)
                    bad += 1
    print(len(m.funcs), 'functions', bad, 'unsupported', time.time() - t)
    for k, (sz, fs, _) in m.di_structs().items():
        print(k, sz, [(a, b, c, d) for a, b, c, d, _ in fs])
