"""Reader for textual LLVM IR (LLVM 18, opaque pointers) as printed by clang -S.

Only what clang -O0 emits for the ASAGI sources is understood; anything else
raises IRError when the instruction is *reached* (never silently skipped)."""
import re
import subprocess

CXXFILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'


class IRError(Exception):
    pass


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'a', 'b', '_size')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._size = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k == 'array':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'named':
            return '%' + self.a
        return self.k if self.a is None else '%s%r' % (self.k, self.a)


PTR = Ty('ptr')
VOID = Ty('void')
DOUBLE = Ty('double')
FLOAT = Ty('float')
FP80 = Ty('x86_fp80')
LABEL = Ty('label')
META = Ty('metadata')
_INTS = {}


def INT(w):
    if w not in _INTS:
        _INTS[w] = Ty('int', w)
    return _INTS[w]


# -------------------------------------------------------------- tokenizer
TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<cstr>c"(?:[^"])*")
 |(?P<loc>%"(?:[^"])*"|%[-a-zA-Z$._0-9]+)
 |(?P<glob>@"(?:[^"])*"|@[-a-zA-Z$._0-9]+)
 |(?P<md>!"(?:[^"])*"|![-a-zA-Z$._0-9]*)
 |(?P<str>"(?:[^"])*")
 |(?P<attr>\#[0-9]+)
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<flt>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
 |(?P<num>-?[0-9]+)
 |(?P<dots>\.\.\.)
 |(?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('tokenize: %r' % s[i:i + 40])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group(k)))
        i = m.end()
    return out


def unq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s


def cstr_bytes(s):
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


PARAM_ATTRS = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture',
    'readonly', 'readnone', 'writeonly', 'returned', 'nest', 'swiftself',
    'immarg', 'nofree', 'noreturn', 'inbounds', 'dso_local', 'unnamed_addr',
    'local_unnamed_addr', 'constant', 'global', 'linkonce_odr', 'internal',
    'private', 'external', 'weak', 'weak_odr', 'hidden', 'protected',
    'available_externally', 'common', 'thread_local', 'fastcc', 'ccc',
    'tail', 'musttail', 'notail', 'nsw', 'nuw', 'exact', 'volatile', 'atomic',
    'linkonce', 'dead_on_unwind', 'writable', 'nnan', 'ninf', 'nsz', 'fast',
    'contract', 'arcp', 'afn', 'reassoc', 'disjoint', 'nneg', 'mustprogress',
    'appending', 'dllimport', 'preallocated', 'allocptr', 'allocalign',
}


class P:
    """Token stream."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] not in ('str',)

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise IRError('expected %r at %r' % (v, self.t[self.i:self.i + 6]))

    def ty(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
                if self.at('addrspace'):
                    self.next(); self.need('('); self.next(); self.need(')')
            elif re.match(r'i\d+$', v):
                t = INT(int(v[1:]))
            elif v in ('void', 'double', 'float', 'label', 'metadata', 'token',
                       'x86_fp80', 'half', 'opaque', 'fp128'):
                t = {'void': VOID, 'double': DOUBLE, 'float': FLOAT, 'x86_fp80': FP80,
                     'label': LABEL, 'metadata': META}.get(v) or Ty(v)
            else:
                raise IRError('type %r' % v)
        elif v == '[':
            n = int(self.next()[1])
            self.need('x')
            e = self.ty()
            self.need(']')
            t = Ty('array', n, e)
        elif v == '<':
            if self.at('{'):
                t = self.ty()
                t = Ty('struct', t.a, True)
                self.need('>')
            else:
                n = int(self.next()[1])
                self.need('x')
                e = self.ty()
                self.need('>')
                t = Ty('vector', n, e)
        elif v == '{':
            es = []
            while not self.eat('}'):
                es.append(self.ty())
                self.eat(',')
            t = Ty('struct', es, False)
        elif k == 'loc':
            t = Ty('named', unq(v))
        else:
            raise IRError('type %r %r' % (k, v))
        # function type
        if self.at('(') and t.k != 'label':
            # only in call: "ret (params) callee"
            self.next()
            ps = []
            va = False
            while not self.eat(')'):
                if self.peek()[0] == 'dots':
                    self.next()
                    va = True
                else:
                    ps.append(self.ty())
                self.eat(',')
            t = Ty('fn', (t, ps, va))
        return t

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null',
                                       'sret', 'byval', 'elementtype', 'nofpclass', 'range',
                                       'captures', 'memory', 'inalloca', 'byref', 'addrspace'):
                self.next()
                if self.at('('):
                    self.paren()
                else:
                    self.next()
            elif k == 'attr':
                self.next()
            elif k == 'str':
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return

    def paren(self):
        d = 0
        while True:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def val(self, ty=None):
        """A value (after its type)."""
        k, v = self.next()
        if k == 'loc':
            return ('l', unq(v))
        if k == 'glob':
            return ('g', unq(v))
        if k == 'num':
            return ('i', int(v))
        if k == 'flt':
            return ('f', float(v))
        if k == 'hex':
            if v[2] in 'KLMHR':
                return ('fx', v)
            import struct
            return ('f', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
        if k == 'cstr':
            return ('str', cstr_bytes(v))
        if k == 'word':
            if v == 'true':
                return ('i', 1)
            if v == 'false':
                return ('i', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('null',)
            if v == 'getelementptr':
                while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    self.next()
                self.need('(')
                bt = self.ty()
                self.need(',')
                ops = []
                while not self.eat(')'):
                    self.eat('inrange')
                    t = self.ty()
                    ops.append((t, self.val(t)))
                    self.eat(',')
                return ('gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.need('(')
                t = self.ty()
                x = self.val(t)
                self.need('to')
                t2 = self.ty()
                self.need(')')
                return ('cast', v, t, x, t2)
            if v in ('sub', 'add', 'mul', 'xor'):
                self.skip_attrs()
                self.need('(')
                t = self.ty(); x = self.val(t); self.need(','); t2 = self.ty(); y = self.val(t2)
                self.need(')')
                return ('bin', v, t, x, y)
            if v == 'blockaddress' or v == 'dso_local_equivalent':
                raise IRError('const %s' % v)
            raise IRError('value %r' % v)
        if v == '[' or v == '{' or v == '<':
            if v == '<' and self.at('{'):
                x = self.val()
                self.need('>')
                return x
            close = {'[': ']', '{': '}', '<': '>'}[v]
            es = []
            while not self.eat(close):
                t = self.ty()
                es.append((t, self.val(t)))
                self.eat(',')
            return ('agg', es)
        if k == 'md':
            # metadata operand
            if v == '!' or self.at('('):
                if self.at('{'):
                    d = 0
                    while True:
                        x = self.next()[1]
                        d += (x == '{') - (x == '}')
                        if d == 0:
                            break
                elif self.at('('):
                    self.paren()
            return ('md', v)
        raise IRError('value %r %r' % (k, v))

    def tval(self):
        t = self.ty()
        self.skip_attrs()
        if t.k == 'metadata':
            # metadata operand: either !x or type value
            if self.peek()[0] == 'md':
                return (t, self.val())
            t2 = self.ty()
            return (t, ('mdval', self.val(t2)))
        return (t, self.val(t))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'text')

    def __init__(self, op, res, ty, ops, x=None):
        self.op, self.res, self.ty, self.ops, self.x = op, res, ty, ops, x
        self.dbg = None
        self.text = ''


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []   # (ty, name)
        self.ret = VOID
        self.blocks = {}
        self.order = []
        self.lines = []
        self.parsed = False
        self.dbg = None
        self.attr_ids = []
        self.varargs = False


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr',
          'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui',
         'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'}
HEADRE = re.compile(r'^define\s')


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.functions = {}
        self.decls = {}
        self.globals = {}
        self.md = {}
        self.attrs = {}
        self.aliases = {}
        self._read(open(path).read())
        self._demangle()
        self._di = None

    # -------------------------------------------------------------- reading
    def _read(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'^(%"[^"]*"|%[-a-zA-Z$._0-9]+) = type (.*)$', l)
                if m:
                    nm = unq(m.group(1))
                    body = m.group(2).strip()
                    if body == 'opaque':
                        self.types[nm] = Ty('opaque')
                    else:
                        self.types[nm] = P(tokenize(body)).ty()
            elif l.startswith('@'):
                m = re.match(r'^(@"[^"]*"|@[-a-zA-Z$._0-9]+) = (.*)$', l)
                nm = unq(m.group(1))
                self.globals[nm] = m.group(2)
            elif l.startswith('define '):
                body = []
                head = l
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                f = self._head(head)
                f.lines = body
                self.functions[f.name] = f
            elif l.startswith('declare '):
                f = self._head(l)
                self.decls[f.name] = f
            elif l.startswith('!'):
                m = re.match(r'^!(\d+) = (.*)$', l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            elif l.startswith('attributes '):
                m = re.match(r'^attributes #(\d+) = \{(.*)\}', l)
                self.attrs[int(m.group(1))] = m.group(2)
            i += 1

    def _head(self, l):
        m = re.search(r'!dbg !(\d+)', l)
        dbg = int(m.group(1)) if m else None
        cut = l
        cut = re.sub(r'\s*comdat(\([^)]*\))?', '', cut)
        cut = re.sub(r'personality ptr @[\w$.]+', '', cut)
        cut = re.sub(r'!dbg !\d+', '', cut)
        cut = cut.rstrip(' {')
        p = P(tokenize(cut))
        p.next()
        p.skip_attrs()
        # remaining attrs of return
        ret = p.ty()
        p.skip_attrs()
        k, v = p.next()
        if k != 'glob':
            raise IRError('head %r' % l[:120])
        f = Function(unq(v))
        f.ret = ret
        f.dbg = dbg
        p.need('(')
        n = 0
        while not p.eat(')'):
            if p.peek()[0] == 'dots':
                p.next()
                f.varargs = True
                continue
            t = p.ty()
            sret = any(x[1] == 'sret' for x in p.t[p.i:p.i + 4])
            p.skip_attrs()
            nm = None
            if p.peek()[0] == 'loc':
                nm = unq(p.next()[1])
            else:
                nm = str(n)
            f.params.append((t, nm))
            n += 1
            p.eat(',')
        while p.peek()[0] != 'eof':
            k, v = p.next()
            if k == 'attr':
                f.attr_ids.append(int(v[1:]))
        return f

    def _demangle(self):
        names = list(self.functions) + list(self.decls)
        r = subprocess.run([CXXFILT], input='\n'.join(names), capture_output=True, text=True)
        out = r.stdout.split('\n')
        self.dem = dict(zip(names, out))
        self.by_dem = {}
        for a, b in self.dem.items():
            self.by_dem.setdefault(b, []).append(a)

    def body(self, f):
        if f.parsed:
            return f
        lines = f.lines
        cur = None
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l.strip() or l.lstrip().startswith(';'):
                i += 1
                continue
            m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', l)
            if m:
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                i += 1
                continue
            if cur is None:
                cur = Block('entry')
                f.blocks['entry'] = cur
                f.order.append('entry')
            s = l.strip()
            if re.match(r'(%\S+ = )?(tail |musttail |notail )?invoke ', s):
                while ' unwind label ' not in s:
                    i += 1
                    s += ' ' + lines[i].strip()
            elif s.startswith('switch '):
                while not re.search(r'\](,.*)?$', s):
                    i += 1
                    s += ' ' + lines[i].strip()
            elif 'landingpad ' in s:
                while i + 1 < n and re.match(r'^\s{10}', lines[i + 1]):
                    i += 1
                    s += ' ' + lines[i].strip()
            ins = self._instr(s)
            ins.text = s
            cur.ins.append(ins)
            i += 1
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = list(t.x)
            elif t.op == 'switch':
                b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke':
                b.succ = [t.x['to']]      # the unwind edge is dropped (stated)
            else:
                b.succ = []
        f.parsed = True
        return f

    def _instr(self, s):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
            s = s[:m.start()] + s[m.end():]
        # strip trailing metadata attachments
        s = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+$', '', s)
        try:
            ins = self._instr2(P(tokenize(s)))
        except IRError as e:
            ins = Instr('unsupported', None, None, [], 'parse: %s in %s' % (e, s[:100]))
            m = re.match(r'(%\S+) = ', s)
            if m:
                ins.res = unq(m.group(1))
        ins.dbg = dbg
        return ins

    def _instr2(self, p):
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = unq(p.next()[1])
            p.next()
        while p.peek()[1] in ('tail', 'musttail', 'notail'):
            p.next()
        k, op = p.next()
        flags = set()

        def fl():
            while p.peek()[0] == 'word' and p.peek()[1] in (
                    'nsw', 'nuw', 'exact', 'inbounds', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
                    'afn', 'reassoc', 'fast', 'volatile', 'atomic', 'disjoint', 'nneg', 'weak'):
                flags.add(p.next()[1])
        if op == 'alloca':
            t = p.ty()
            cnt = None
            if p.eat(','):
                if not p.at('align') and not p.at('addrspace'):
                    cnt = p.tval()
            return Instr(op, res, PTR, [], (t, cnt))
        if op == 'load':
            fl()
            t = p.ty()
            p.need(',')
            a = p.tval()
            return Instr(op, res, t, [a], flags)
        if op == 'store':
            fl()
            v = p.tval()
            p.need(',')
            a = p.tval()
            return Instr(op, None, VOID, [v, a], flags)
        if op == 'getelementptr':
            fl()
            bt = p.ty()
            ops = []
            while p.eat(','):
                ops.append(p.tval())
            return Instr(op, res, PTR, ops, (bt, flags))
        if op in BINOPS:
            fl()
            t = p.ty()
            a = p.val(t)
            p.need(',')
            b = p.val(t)
            return Instr(op, res, t, [(t, a), (t, b)], flags)
        if op == 'fneg':
            fl()
            a = p.tval()
            return Instr(op, res, a[0], [a])
        if op in CASTS:
            fl()
            a = p.tval()
            p.need('to')
            t = p.ty()
            return Instr(op, res, t, [a], flags)
        if op in ('icmp', 'fcmp'):
            fl()
            pred = p.next()[1]
            t = p.ty()
            a = p.val(t)
            p.need(',')
            b = p.val(t)
            return Instr(op, res, INT(1), [(t, a), (t, b)], pred)
        if op == 'br':
            if p.at('label'):
                p.next()
                return Instr(op, None, VOID, [], [unq(p.next()[1])])
            c = p.tval()
            p.need(','); p.need('label')
            a = unq(p.next()[1])
            p.need(','); p.need('label')
            b = unq(p.next()[1])
            return Instr(op, None, VOID, [c], [a, b])
        if op == 'switch':
            c = p.tval()
            p.need(','); p.need('label')
            d = unq(p.next()[1])
            p.need('[')
            cases = []
            while not p.eat(']'):
                t, v = p.tval()
                p.need(','); p.need('label')
                cases.append((v[1], unq(p.next()[1])))
            return Instr(op, None, VOID, [c], (d, cases))
        if op == 'ret':
            t = p.ty()
            if t.k == 'void':
                return Instr(op, None, VOID, [])
            p.skip_attrs()
            return Instr(op, None, t, [(t, p.val(t))])
        if op == 'unreachable':
            return Instr(op, None, VOID, [])
        if op == 'phi':
            fl()
            t = p.ty()
            inc = []
            while True:
                p.need('[')
                v = p.val(t)
                p.need(',')
                b = unq(p.next()[1])
                p.need(']')
                inc.append((b, v))
                if not p.eat(','):
                    break
            return Instr(op, res, t, [], inc)
        if op == 'select':
            fl()
            c = p.tval(); p.need(',')
            a = p.tval(); p.need(',')
            b = p.tval()
            return Instr(op, res, a[0], [c, a, b])
        if op in ('call', 'invoke'):
            fl()
            p.skip_attrs()
            t = p.ty()
            p.skip_attrs()
            if t.k == 'fn':
                rt = t.a[0]
            else:
                rt = t
            if p.at('asm'):
                return Instr('unsupported', res, rt, [], 'inline asm')
            callee = p.val()
            p.need('(')
            args = []
            while not p.eat(')'):
                args.append(p.tval())
                p.eat(',')
            x = {'callee': callee}
            if op == 'invoke':
                while not p.at('to'):
                    p.next()
                p.need('to'); p.need('label')
                x['to'] = unq(p.next()[1])
                p.need('unwind'); p.need('label')
                x['unwind'] = unq(p.next()[1])
            return Instr(op, res, rt, args, x)
        if op == 'extractvalue':
            a = p.tval()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()[1]))
            return Instr(op, res, None, [a], idx)
        if op == 'insertvalue':
            a = p.tval()
            p.need(',')
            b = p.tval()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()[1]))
            return Instr(op, res, a[0], [a, b], idx)
        if op == 'atomicrmw':
            fl()
            o = p.next()[1]
            a = p.tval()
            p.need(',')
            b = p.tval()
            return Instr(op, res, b[0], [a, b], o)
        if op == 'cmpxchg':
            fl()
            a = p.tval(); p.need(',')
            b = p.tval(); p.need(',')
            c = p.tval()
            return Instr(op, res, Ty('struct', [b[0], INT(1)], False), [a, b, c])
        if op == 'fence':
            return Instr(op, None, VOID, [])
        if op == 'freeze':
            a = p.tval()
            return Instr(op, res, a[0], [a])
        if op == 'landingpad' or op == 'resume':
            return Instr(op, res, VOID, [])
        raise IRError('instruction %s' % op)

    # -------------------------------------------------------------- layout
    def res_ty(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t

    def size_align(self, t):
        if t._size is not None:
            return t._size
        r = self._size_align(t)
        t._size = r
        return r

    def _size_align(self, t):
        t = self.res_ty(t)
        k = t.k
        if k == 'int':
            w = t.a
            s = 1
            while s * 8 < w:
                s *= 2
            return (s, min(s, 16) if s <= 8 else 16)
        if k == 'ptr' or k == 'double':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'x86_fp80' or k == 'fp128':
            return (16, 16)
        if k == 'array':
            s, a = self.size_align(t.b)
            return (s * t.a, a)
        if k == 'struct':
            off = 0
            al = 1
            for e in t.a:
                s, a = self.size_align(e)
                if t.b:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == 'vector':
            s, a = self.size_align(t.b)
            return (s * t.a, s * t.a)
        raise IRError('sizeof %r' % t)

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        t = self.res_ty(t)
        off = 0
        for j, e in enumerate(t.a):
            s, a = self.size_align(e)
            if t.b:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IRError('field')

    # ---------------------------------------------------------- debug info
    def di(self):
        if self._di is None:
            self._di = DebugInfo(self)
        return self._di

    def line_of(self, n):
        """DILocation number -> (file, line) as text"""
        s = self.md.get(n, '')
        m = re.search(r'line: (\d+)', s)
        return int(m.group(1)) if m else 0

    def fn_attr(self, f, a):
        return any(a in self.attrs.get(i, '') for i in f.attr_ids)


def _mdfields(s):
    """Fields of a specialised metadata node, as strings."""
    m = re.match(r'^(?:distinct )?!(\w+)\((.*)\)$', s)
    if not m:
        return None, {}
    out = {}
    body = m.group(2)
    for mm in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|!\d+|!DIExpression\([^)]*\)|[^,]+)(?:, |$)', body):
        out[mm.group(1)] = mm.group(2)
    return m.group(1), out


class DebugInfo:
    """Record layouts by demangled name, from the DWARF metadata clang emits."""

    def __init__(self, mod):
        self.m = mod
        ids = []
        for n, s in mod.md.items():
            if 'DICompositeType' in s:
                k, f = _mdfields(s)
                if 'identifier' in f and 'elements' in f and 'DIFlagFwdDecl' not in f.get('flags', ''):
                    ids.append((n, f['identifier'].strip('"')))
        r = subprocess.run([CXXFILT], input='\n'.join(x[1] for x in ids), capture_output=True, text=True)
        self.byname = {}
        for (n, _), d in zip(ids, r.stdout.split('\n')):
            self.byname[d.replace('typeinfo name for ', '')] = n
        # classes with a key function in another file have no identifier
        for n, t in self.m.md.items():
            if t and 'DICompositeType' in t and 'identifier' not in t:
                _, f = _mdfields(t)
                if 'elements' in f and 'name' in f and 'DIFlagFwdDecl' not in f.get('flags', '') and f.get('tag') in ('DW_TAG_class_type', 'DW_TAG_structure_type'):
                    nm, sc = f['name'].strip('"'), f.get('scope', 'null')
                    while sc != 'null':
                        k, g = self.node(sc)
                        if 'name' not in g or k == 'DIFile':
                            break
                        nm, sc = g['name'].strip('"') + '::' + nm, g.get('scope', 'null')
                    self.byname.setdefault(nm, n)
        self._cache = {}

    def node(self, ref):
        n = int(ref[1:]) if isinstance(ref, str) else ref
        return _mdfields(self.m.md[n])

    def strip(self, ref):
        """Through typedefs and qualifiers."""
        while True:
            if ref is None or ref == 'null':
                return None
            k, f = self.node(ref)
            if k == 'DIDerivedType' and f.get('tag') in (
                    'DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_atomic_type'):
                ref = f.get('baseType')
                continue
            return ref

    def elements(self, ref):
        n = int(ref[1:]) if isinstance(ref, str) else ref
        s = self.m.md[n]
        return re.findall(r'!(\d+)', s[s.index('{'):])

    def scalar(self, ref):
        """('i',bytes,signed) ('d',8) ('f',4) ('p',8) ('rec',node) ('arr',elem,counts)"""
        ref = self.strip(ref)
        if ref is None:
            return ('void',)
        k, f = self.node(ref)
        if k == 'DIBasicType':
            size = int(f.get('size', '0')) // 8
            enc = f.get('encoding', '')
            if 'float' in enc:
                return ('d', 8) if size == 8 else ('f', 4) if size == 4 else ('ld', size)
            if 'boolean' in enc:
                return ('i', size, False, 'bool')
            return ('i', size, 'unsigned' not in enc)
        if k == 'DIDerivedType':
            tag = f['tag']
            if tag in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
                return ('p', 8, f.get('baseType'))
            if tag == 'DW_TAG_ptr_to_member_type':
                return ('mp', int(f.get('size', '0')) // 8)
            raise IRError('DI ' + tag)
        if k == 'DICompositeType':
            tag = f['tag']
            if tag == 'DW_TAG_enumeration_type':
                b = f.get('baseType')
                return ('i', int(f['size']) // 8, self.scalar(b)[2] if b else False)
            if tag == 'DW_TAG_array_type':
                cnts = []
                for e in self.elements(f['elements']):
                    kk, ff = self.node(int(e))
                    c = ff.get('count', '-1')
                    cnts.append(int(c) if not c.startswith('!') else -1)
                return ('arr', self.scalar(f['baseType']), cnts, f['baseType'])
            return ('rec', ref)
        return ('unk',)

    def sizeof(self, ref):
        ref = self.strip(ref)
        k, f = self.node(ref)
        return int(f.get('size', '0')) // 8

    def fields(self, ref):
        """Flat {path: (offset, scalar)} of a record, bases included."""
        key = str(ref)
        if key in self._cache:
            return self._cache[key]
        k, f = self.node(ref)
        out = {}
        for e in self.elements(f['elements']) if f.get('elements', 'null') != 'null' else []:
            kk, ff = self.node(int(e))
            if kk != 'DIDerivedType':
                continue
            if ff['tag'] == 'DW_TAG_inheritance':
                base = self.strip(ff['baseType'])
                o = int(ff.get('offset', '0')) // 8
                for p, (oo, sc) in self.fields(base).items():
                    out.setdefault(p, (o + oo, sc))
            elif ff['tag'] == 'DW_TAG_member':
                if 'DIFlagStaticMember' in ff.get('flags', '') or 'extraData' in ff:
                    continue
                o = int(ff.get('offset', '0')) // 8
                nm = ff.get('name', '""').strip('"')
                try:
                    sc = self.scalar(ff['baseType'])
                except IRError:
                    sc = ('unk',)
                if nm:
                    out[nm] = (o, sc)
                if sc[0] == 'rec':
                    for p, (oo, s2) in self.fields(sc[1]).items():
                        out[(nm + '.' + p) if nm else p] = (o + oo, s2)
        self._cache[key] = out
        return out

    def record(self, name):
        if name not in self.byname:
            raise IRError('no such type: ' + name)
        n = self.byname[name]
        return n
