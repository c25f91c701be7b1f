"""Parser for the textual LLVM IR that clang-18 / opt-18 emit.

Function bodies are parsed lazily: only what a harness really reaches is parsed.
"""
import re

TOK = re.compile(r'''
   (?P<cstr>c"[^"]*")
 | (?P<gl>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<lo>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<str>"[^"]*")
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?)
 | (?P<ell>\.\.\.)
 | (?P<id>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<p>[()\[\]{}<>,=*|:])
 | (?P<ws>\s+)
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        if s[i] == ';':
            j = s.find('\n', i)
            if j < 0:
                break
            i = j
            continue
        m = TOK.match(s, i)
        if not m:
            raise ParseError('lex: %r' % s[i:i + 60])
        k = m.lastgroup
        if k != 'ws':
            v = m.group()
            if k in ('gl', 'lo') and len(v) > 1 and v[1] == '"':
                v = v[0] + v[2:-1]
            out.append((k, v))
        i = m.end()
    return out


# ---- types: ('i',n) ('f',name) ('ptr',) ('void',) ('arr',n,T) ('st',(T..),packed) ('vec',n,T) ('opaque',)
class Types:
    def __init__(self):
        self.named = {}
        self.cache = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named.get(t[1], ('opaque',))
        return t

    def size_align(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self._size_align(t)
        return r

    def _size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            s = 1
            while s < n:
                s *= 2
            return s, min(s, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'f':
            return {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'fp128': (16, 16), 'half': (2, 2)}[t[1]]
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'st':
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise ParseError('size of %r' % (t,))

    def size(self, t):
        return self.size_align(t)[0]

    def field_offset(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise ParseError('field')


class P:
    """token stream"""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t[:60])))

    def parens(self):
        """skip a balanced (...) group"""
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def is_type(self):
        v, k = self.peek(), self.kind()
        if k == 'lo':
            return True
        if v in ('ptr', 'void', 'float', 'double', 'x86_fp80', 'fp128', 'half', 'label', 'metadata', 'opaque', '{', '[', '<', 'token'):
            return True
        return k == 'id' and re.fullmatch(r'i\d+', v) is not None

    def type(self):
        v, k = self.peek(), self.kind()
        self.i += 1
        if k == 'lo':
            t = ('named', v[1:])
        elif v == 'ptr':
            t = ('ptr',)
            if self.peek() == 'addrspace':
                self.next()
                self.parens()
        elif v == 'void':
            t = ('void',)
        elif v in ('float', 'double', 'x86_fp80', 'fp128', 'half'):
            t = ('f', v)
        elif v in ('label', 'metadata', 'opaque', 'token'):
            t = (v,)
        elif k == 'id' and re.fullmatch(r'i\d+', v):
            t = ('i', int(v[1:]))
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = ('st', tuple(fs), False)
        elif v == '<':
            if self.accept('{'):
                fs = []
                if not self.accept('}'):
                    while True:
                        fs.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('st', tuple(fs), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise ParseError('type? %r' % v)
        # function type suffix
        while self.peek() == '(':
            self.parens()
            t = ('fn', t)
        return t

    ATTRW = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
             'writeonly', 'returned', 'nofree', 'immarg', 'nest', 'swiftself', 'inalloca', 'writable', 'dead_on_unwind',
             'noext', 'allocalign', 'allocptr'}
    ATTRP = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'preallocated', 'range',
             'initializes', 'captures', 'nofpclass'}

    def param_attrs(self):
        attrs = {}
        while True:
            v = self.peek()
            if v in self.ATTRW:
                attrs[v] = True
                self.next()
            elif v == 'align':
                self.next()
                if self.peek() == '(':
                    self.parens()
                else:
                    self.next()
            elif v in self.ATTRP:
                self.next()
                if v == 'byval' and self.peek() == '(':
                    self.expect('(')
                    attrs['byval'] = self.type()
                    self.expect(')')
                else:
                    self.parens()
            else:
                return attrs

    def value(self, t):
        """operand of type t -> ('reg',name) | ('c',...)"""
        k, v = self.kind(), self.peek()
        if k == 'lo':
            self.i += 1
            return ('reg', v[1:])
        return self.const(t)

    def typed_value(self):
        t = self.type()
        self.param_attrs()
        return t, self.value(t)

    CEXPR_BIN = {'add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'}
    CEXPR_CAST = {'bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'}

    def const(self, t):
        k, v = self.kind(), self.peek()
        self.i += 1
        rt = self.mod.types.resolve(t)
        if k == 'gl':
            return ('gl', v[1:])
        if k == 'num':
            if rt[0] == 'f':
                return ('fp', rt[1], float(v))
            return ('int', int(v))
        if k == 'hex':
            return ('fphex', rt[1], v)
        if k == 'cstr':
            return ('bytes', unescape(v[2:-1]))
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v in ('[', '{'):
            close = ']' if v == '[' else '}'
            xs = []
            if not self.accept(close):
                while True:
                    xs.append(self.typed_value())
                    if self.accept(close):
                        break
                    self.expect(',')
            return ('agg', xs)
        if v == '<':
            pk = self.accept('{')
            xs = []
            end = '}' if pk else '>'
            if not self.accept(end):
                while True:
                    xs.append(self.typed_value())
                    if self.accept(end):
                        break
                    self.expect(',')
            if pk:
                self.expect('>')
            return ('agg', xs)
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.t[self.i - 1][1] == 'inrange':
                    self.parens()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = [self.typed_value()]
            while self.accept(','):
                if self.accept('inrange'):
                    pass
                ops.append(self.typed_value())
            self.expect(')')
            return ('gep', bt, ops)
        if v in self.CEXPR_CAST:
            self.expect('(')
            st, sv = self.typed_value()
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('cast', v, st, sv, dt)
        if v in self.CEXPR_BIN:
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            a = self.typed_value()
            self.expect(',')
            b = self.typed_value()
            self.expect(')')
            return ('bin', v, a, b)
        raise ParseError('const? %r %r' % (k, v))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'text')

    def __init__(self, op, res, ty, a, flags=()):
        self.op, self.res, self.ty, self.a, self.flags = op, res, ty, a, flags


class Function:
    def __init__(self, mod, name, header, body):
        self.mod, self.name = mod, name
        self._header, self._body = header, body
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        self._parse_header()
        self._parse_body()
        self._wto()
        return self

    def _parse_header(self):
        p = P(tokenize(self._header), self.mod)
        while p.kind() != 'gl':
            if p.is_type():
                t = p.type()
                self.ret = t
            else:
                v = p.next()
                if p.peek() == '(' and v != '(':
                    p.parens()
        p.next()
        p.expect('(')
        self.params = []
        self.vararg = False
        n = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.vararg = True
                else:
                    t = p.type()
                    at = p.param_attrs()
                    if p.kind() == 'lo':
                        nm = p.next()[1:]
                    else:
                        nm = str(n)
                    n += 1
                    self.params.append((t, nm, at))
                if p.accept(')'):
                    break
                p.expect(',')

    def _parse_body(self):
        self.blocks = {}
        self.order = []
        # unnamed entry label = number of params
        cur = None
        lines = self._body
        i = 0
        nlines = len(lines)
        entry = True
        while i < nlines:
            ln = lines[i]
            s = ln.strip()
            i += 1
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):(\s|$)', ln)
            if m:
                cur = m.group(1).strip('"')
                self.blocks[cur] = []
                self.order.append(cur)
                entry = False
                continue
            if entry:
                cur = str(len(self.params))
                self.blocks[cur] = []
                self.order.append(cur)
                entry = False
            # join continuation lines
            if s.startswith('switch ') and not s.endswith(']'):
                while True:
                    s += ' ' + lines[i].strip()
                    i += 1
                    if lines[i - 1].strip().startswith(']'):
                        break
            if ' invoke ' in ' ' + s:
                while ' unwind label ' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            if 'landingpad' in s.split('"')[0]:
                while i < nlines and re.match(r'\s+(catch|cleanup|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            ins = self._instr(s)
            if ins is not None:
                ins.text = s
                self.blocks[cur].append(ins)
        self.entry = self.order[0]
        self.succ = {}
        for b in self.order:
            t = self.blocks[b][-1]
            if t.op == 'br':
                self.succ[b] = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                self.succ[b] = [t.a[1]] + [l for _, l in t.a[2]]
            elif t.op == 'invoke':
                self.succ[b] = [t.a[2], t.a[3]]
            else:
                self.succ[b] = []

    def _wto(self):
        """Bourdoncle weak topological order -> self.pos[block], self.headers"""
        import sys
        sys.setrecursionlimit(100000)
        dfn = {b: 0 for b in self.order}
        num = [0]
        stack = []
        part = []
        headers = set()

        def component(v):
            out = []
            for s in self.succ[v]:
                if dfn[s] == 0:
                    visit(s, out)
            headers.add(v)
            return [v] + out

        def visit(v, partition):
            stack.append(v)
            num[0] += 1
            dfn[v] = num[0]
            head = num[0]
            loop = False
            for s in self.succ[v]:
                m = visit(s, partition) if dfn[s] == 0 else dfn[s]
                if m <= head:
                    head = m
                    loop = True
            if head == dfn[v]:
                dfn[v] = 1 << 60
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    partition[0:0] = component(v)
                else:
                    partition.insert(0, v)
            return head
        visit(self.entry, part)
        self.pos = {b: i for i, b in enumerate(part)}
        self.headers = headers

    BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
           'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
    CAST = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast',
            'ptrtoint', 'inttoptr', 'addrspacecast'}
    FLAGS = {'nsw', 'nuw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
             'reassoc', 'inbounds', 'volatile', 'atomic', 'samesign'}
    CC = {'fastcc', 'coldcc', 'ccc', 'tailcc'}

    def _flags(self, p):
        f = set()
        while p.peek() in self.FLAGS:
            f.add(p.next())
        return f

    def _instr(self, s):
        p = P(tokenize(s), self.mod)
        res = None
        if p.kind() == 'lo' and p.peek(1) == '=':
            res = p.next()[1:]
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in self.BIN:
            fl = self._flags(p)
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Instr(op, res, t, (a, b), fl)
        if op in self.CAST:
            fl = self._flags(p)
            t, v = p.typed_value()
            p.expect('to')
            dt = p.type()
            return Instr(op, res, dt, (t, v), fl)
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            n = ('int', 1)
            nt = ('i', 32)
            if p.accept(','):
                if p.is_type():
                    nt, n = p.typed_value()
            return Instr(op, res, t, (n, nt))
        if op == 'load':
            fl = self._flags(p)
            t = p.type()
            p.expect(',')
            pt, pv = p.typed_value()
            return Instr(op, res, t, (pv,), fl)
        if op == 'store':
            fl = self._flags(p)
            t, v = p.typed_value()
            p.expect(',')
            pt, pv = p.typed_value()
            return Instr(op, None, t, (v, pv), fl)
        if op == 'getelementptr':
            fl = self._flags(p)
            bt = p.type()
            p.expect(',')
            pt, pv = p.typed_value()
            idx = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                idx.append(p.typed_value())
            return Instr(op, res, bt, (pv, idx), fl)
        if op in ('icmp', 'fcmp'):
            fl = self._flags(p)
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Instr(op, res, t, (pred, a, b), fl)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Instr('br', None, None, (p.next()[1:],))
            t, c = p.typed_value()
            p.expect(',')
            p.expect('label')
            a = p.next()[1:]
            p.expect(',')
            p.expect('label')
            b = p.next()[1:]
            return Instr('br', None, None, (c, a, b))
        if op == 'switch':
            t, v = p.typed_value()
            p.expect(',')
            p.expect('label')
            d = p.next()[1:]
            p.expect('[')
            cs = []
            while not p.accept(']'):
                ct, cv = p.typed_value()
                p.expect(',')
                p.expect('label')
                cs.append((cv, p.next()[1:]))
            return Instr('switch', None, t, (v, d, cs))
        if op == 'ret':
            if p.peek() == 'void':
                return Instr('ret', None, ('void',), ())
            t, v = p.typed_value()
            return Instr('ret', None, t, (v,))
        if op == 'unreachable':
            return Instr(op, None, None, ())
        if op == 'phi':
            self._flags(p)
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((v, p.next()[1:]))
                p.expect(']')
                if not p.accept(','):
                    break
            return Instr('phi', res, t, inc)
        if op == 'select':
            self._flags(p)
            ct, c = p.typed_value()
            p.expect(',')
            t, a = p.typed_value()
            p.expect(',')
            t2, b = p.typed_value()
            return Instr('select', res, t, (c, a, b))
        if op in ('call', 'invoke'):
            fl = self._flags(p)
            while p.peek() in self.CC:
                p.next()
            p.param_attrs()
            rt = p.type()
            if rt[0] == 'fn':
                rt = rt[1]
            k = p.kind()
            if p.peek() == 'asm':
                return Instr('asm', res, rt, ())
            callee = p.value(('ptr',))
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    at = p.param_attrs()
                    if t[0] == 'metadata':
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            v = p.next()
                            d += v in '([{'
                            d -= v in ')]}'
                        args.append((t, None, at))
                    else:
                        args.append((t, p.value(t), at))
                    if p.accept(')'):
                        break
                    p.expect(',')
            if op == 'call':
                return Instr('call', res, rt, (callee, args))
            while p.peek() != 'to':
                p.next()
            p.expect('to')
            p.expect('label')
            n = p.next()[1:]
            p.expect('unwind')
            p.expect('label')
            u = p.next()[1:]
            return Instr('invoke', res, rt, (callee, args, n, u))
        if op == 'landingpad':
            t = p.type()
            cl = []
            while p.i < len(p.t):
                v = p.next()
                if v == 'cleanup':
                    cl.append(('cleanup',))
                elif v == 'catch':
                    tt, cv = p.typed_value()
                    cl.append(('catch', cv))
                elif v == 'filter':
                    tt, cv = p.typed_value()
                    cl.append(('filter', cv))
                else:
                    raise ParseError('landingpad ' + v)
            return Instr(op, res, t, cl)
        if op == 'resume':
            t, v = p.typed_value()
            return Instr(op, None, t, (v,))
        if op == 'extractvalue':
            t, v = p.typed_value()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr(op, res, t, (v, idx))
        if op == 'insertvalue':
            t, v = p.typed_value()
            p.expect(',')
            et, ev = p.typed_value()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr(op, res, t, (v, ev, idx, et))
        if op == 'freeze':
            t, v = p.typed_value()
            return Instr(op, res, t, (v,))
        if op == 'fneg':
            self._flags(p)
            t, v = p.typed_value()
            return Instr(op, res, t, (v,))
        # anything else: keep as unsupported; only an error when executed
        return Instr('unsupported', res, None, (s,))


class Module:
    def __init__(self, text):
        self.types = Types()
        self.globals = {}     # name -> (type, init or None, is_const, lazily parsed)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._raw_globals = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'%("([^"]*)"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                if m:
                    nm = m.group(2) if m.group(2) is not None else m.group(1)
                    body = m.group(3)
                    self.types.named[nm] = P(tokenize(body), self).type()
            elif c == '@':
                m = re.match(r'@("([^"]*)"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                nm = m.group(2) if m.group(2) is not None else m.group(1)
                body = m.group(3)
                if re.search(r'\balias\b', body.split('"')[0]):
                    tgt = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', body)[-1].strip('"')
                    self.aliases[nm] = tgt
                else:
                    self._raw_globals[nm] = body
            elif ln.startswith('define'):
                hdr = ln
                j = i
                while lines[j] != '}':
                    j += 1
                body = lines[i:j]
                i = j + 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', hdr)
                nm = m.group(1).strip('"')
                self.funcs[nm] = Function(self, nm, hdr[:hdr.rindex('{')], body)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', ln)
                self.decls[m.group(1).strip('"')] = ln

    def resolve_alias(self, n):
        while n in self.aliases:
            n = self.aliases[n]
        return n

    def get_global(self, nm):
        g = self.globals.get(nm)
        if g is None:
            body = self._raw_globals.get(nm)
            if body is None:
                return None
            p = P(tokenize(body), self)
            ext = False
            const = False
            while True:
                v = p.next()
                if v in ('external', 'extern_weak'):
                    ext = True
                elif v == 'thread_local':
                    if p.peek() == '(':
                        p.parens()
                elif v == 'constant':
                    const = True
                    break
                elif v == 'global':
                    break
                elif v == 'addrspace':
                    p.parens()
            t = p.type()
            init = None if ext else p.const(t)
            g = self.globals[nm] = (t, init, const)
        return g
