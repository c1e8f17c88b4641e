"""Loads clang's JSON AST of the instantiation unit and indexes it.

Nothing is rewritten: the verifier walks the AST of the code as the compiler
sees it after template instantiation.
"""
import json, os, re, subprocess, hashlib, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('GSBV_REPO', '/repo')
BUILD = os.environ.get('GSBV_BUILD', os.path.join(VERIF, 'build'))
CXX = 'clang++-18'
FLAGS = ['-std=c++17', '-fopenmp', '-fno-rtti', '-fno-exceptions', '-w', '-ferror-limit=0',
         '-I%s/include' % REPO, '-I%s/dep' % REPO, '-I%s/src' % REPO]


class ExtractError(Exception):
    pass


def _pch():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tu', 'pch.h')
    out = os.path.join(BUILD, 'pch.%d.pch' % os.getpid())
    final = os.path.join(BUILD, 'pch.pch')
    if os.path.exists(final) and os.path.getmtime(final) >= os.path.getmtime(src):
        return final
    r = subprocess.run([CXX] + FLAGS + ['-x', 'c++-header', src, '-o', out],
                       capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('precompiled header: ' + r.stderr[:2000])
    os.replace(out, final)
    return final


def dump(tu='all.cpp'):
    """AST of the instantiation unit, made from the working tree on every call."""
    src = os.path.join(VERIF, 'tu', tu)
    cmd = [CXX] + FLAGS + ['-include-pch', _pch(), '-fsyntax-only', '-Xclang', '-ast-dump=json', src]
    r = subprocess.run(cmd, capture_output=True)
    if not r.stdout:
        raise ExtractError('clang produced no AST: ' + r.stderr.decode()[:2000])
    try:
        return json.loads(r.stdout), r.stderr.decode()
    except ValueError as e:
        raise ExtractError('AST not readable: %s' % e)


# ---------------------------------------------------------------- types

class CT:
    __slots__ = ('k', 'bits', 'signed', 'to', 'name', 'n')

    def __init__(self, k, bits=0, signed=False, to=None, name=None, n=None):
        self.k, self.bits, self.signed, self.to, self.name, self.n = k, bits, signed, to, name, n

    def __repr__(self):
        if self.k == 'int': return '%s%d' % ('i' if self.signed else 'u', self.bits)
        if self.k == 'float': return 'f%d' % self.bits
        if self.k in ('ptr', 'ref'): return '%s%s' % (self.to, '*' if self.k == 'ptr' else '&')
        if self.k == 'arr': return '%s[%s]' % (self.to, self.n)
        return self.name or self.k

    def __eq__(self, o):
        return isinstance(o, CT) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


_B = {
    'bool': CT('bool', 1), 'void': CT('void'),
    'char': CT('int', 8, True), 'signed char': CT('int', 8, True), 'unsigned char': CT('int', 8, False),
    'short': CT('int', 16, True), 'unsigned short': CT('int', 16, False),
    'int': CT('int', 32, True), 'unsigned int': CT('int', 32, False), 'unsigned': CT('int', 32, False),
    'long': CT('int', 64, True), 'unsigned long': CT('int', 64, False),
    'long long': CT('int', 64, True), 'unsigned long long': CT('int', 64, False),
    'float': CT('float', 32), 'double': CT('float', 64), 'long double': CT('float', 80),
    'uint8_t': CT('int', 8, False), 'uint16_t': CT('int', 16, False), 'uint32_t': CT('int', 32, False),
    'uint64_t': CT('int', 64, False), 'int8_t': CT('int', 8, True), 'int16_t': CT('int', 16, True),
    'int32_t': CT('int', 32, True), 'int64_t': CT('int', 64, True), 'size_t': CT('int', 64, False),
    'ptrdiff_t': CT('int', 64, True), 'ssize_t': CT('int', 64, True), 'std::size_t': CT('int', 64, False),
    'std::ptrdiff_t': CT('int', 64, True), 'difference_type': CT('int', 64, True),
    'typename iterator_traits<unsigned int *>::difference_type': CT('int', 64, True),
}
U32 = _B['unsigned int']; I32 = _B['int']; U64 = _B['unsigned long']; F32 = _B['float']
BOOL = _B['bool']; VOID = _B['void']
_tc = {}


def parse_type(s, enums=()):
    key = s
    if key in _tc:
        return _tc[key]
    s = s.strip()
    t = _parse(s, enums)
    _tc[key] = t
    return t


def _parse(s, enums):
    s = s.strip()
    # trailing qualifiers
    while True:
        m = re.search(r'\s*\b(const|volatile|__restrict|restrict|__restrict__)$', s)
        if m:
            s = s[:m.start()].rstrip()
            continue
        break
    if s.endswith('&&'): return CT('ref', to=_parse(s[:-2], enums))
    if s.endswith('&'): return CT('ref', to=_parse(s[:-1], enums))
    if s.endswith('*'): return CT('ptr', to=_parse(s[:-1], enums))
    m = re.search(r'\[(\d*)\]$', s)
    if m:
        return CT('arr', to=_parse(s[:m.start()], enums), n=int(m.group(1)) if m.group(1) else None)
    if s.endswith(')'):
        if s.startswith(('(lambda', '(anonymous', 'const (lambda')): return CT('rec', name=s)
        return CT('func', name=s)
    while True:
        m = re.match(r'(const|volatile|struct|class|enum|union|typename)\b\s*', s)
        if m and not s.startswith('typename iterator_traits<unsigned int *>'):
            s = s[m.end():]
            continue
        break
    if s in _B: return _B[s]
    if 'difference_type' in s: return _B['long']
    if s in enums or s == 'MatrixType': return CT('int', 32, False, name=s)
    return CT('rec', name=s)


def node_type(n):
    t = n.get('type') or {}
    return parse_type(t.get('desugaredQualType') or t.get('qualType') or 'void')


# ---------------------------------------------------------------- database

class Func:
    def __init__(self, node, rec=None, ns=()):
        self.node = node
        self.rec = rec           # record name for methods
        self.name = node.get('name')
        self.id = node['id']
        self.kind = node['kind']
        self.params = [c for c in node.get('inner', []) if c and c.get('kind') == 'ParmVarDecl']
        self.body = next((c for c in node.get('inner', []) if c and c.get('kind') == 'CompoundStmt'), None)
        self.inits = [c for c in node.get('inner', []) if c and c.get('kind') == 'CXXCtorInitializer']
        self.targs = [targ_str(c) for c in node.get('inner', []) if c and c.get('kind') == 'TemplateArgument']
        self.type = node.get('type', {}).get('qualType', '')
        self.file, self.line = node.get('_f'), node.get('_l')
        self.virtual = bool(node.get('virtual')) or any(
            c and c.get('kind') == 'OverrideAttr' for c in node.get('inner', []))

    def ptypes(self):
        return [node_type(p) for p in self.params]

    def sig(self):
        return '%s%s(%s)' % ((self.rec + '::') if self.rec else '', self.name,
                             ', '.join(repr(t) for t in self.ptypes()))

    def where(self):
        return '%s:%s' % (os.path.relpath(self.file, REPO) if self.file and self.file.startswith(REPO) else self.file, self.line)


def targ_str(c):
    if 'type' in c: return c['type'].get('desugaredQualType') or c['type'].get('qualType')
    if 'value' in c: return str(c['value'])
    for i in c.get('inner', []):
        if i and i.get('kind') in ('ConstantExpr', 'IntegerLiteral'): return str(i.get('value'))
        if i and 'type' in i: return i['type'].get('qualType')
        if i and i.get('name'): return i['name']
    return '?'


class Record:
    def __init__(self, name, node):
        self.name, self.node = name, node
        self.fields = []      # (name, CT, id)
        self.bases = []
        self.methods = []     # Func
        self.union = node.get('tagUsed') == 'union'


class DB:
    def __init__(self, tu='all.cpp'):
        self.root, self.stderr = dump(tu)
        self.by_id = {}
        self.funcs = []
        self.func_by_id = {}
        self.records = {}
        self.field_rec = {}
        self.var_init = {}
        self._loc()
        self._walk(self.root, None, (), False)
        self._pragma_cache = {}
        # definitions for declarations made elsewhere
        self.defs = {}
        for f in self.funcs:
            if f.body is not None:
                self.defs.setdefault((f.rec, f.name, f.type), f)

    # propagate clang's elided file/line information
    def _loc(self):
        cur = {'file': None, 'line': None}
        def upd(o):
            # o is a location object in document order
            if not o: return
            for k in ('spellingLoc', 'expansionLoc'):
                if k in o:
                    upd(o[k])
            if 'file' in o: cur['file'] = o['file']
            if 'line' in o: cur['line'] = o['line']
        stack = [self.root]
        # must be document order: recursive descent
        sys.setrecursionlimit(20000)
        def rec(n):
            if 'loc' in n: upd(n['loc'])
            lf, ll = cur['file'], cur['line']
            r = n.get('range')
            if r:
                upd(r.get('begin')); bf, bl = cur['file'], cur['line']
                upd(r.get('end'))
                if 'loc' not in n: lf, ll = bf, bl
                n['_bf'], n['_bl'] = bf, bl
            n['_f'], n['_l'] = lf, ll
            for c in n.get('inner', []):
                if c: rec(c)
        rec(self.root)

    def _walk(self, n, rec, ns, dep):
        for c in n.get('inner', []):
            if not c or 'kind' not in c: continue
            k = c['kind']
            if 'id' in c and k.endswith('Decl'):
                self.by_id.setdefault(c['id'], c)
            if k == 'NamespaceDecl':
                self._walk(c, rec, ns + (c.get('name'),), dep)
            elif k == 'LinkageSpecDecl':
                self._walk(c, rec, ns, dep)
            elif k == 'FunctionTemplateDecl':
                first = True
                for f in c.get('inner', []):
                    if f and f.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                        if first:
                            first = False
                            continue
                        self._func(f, rec, ns)
            elif k == 'ClassTemplateDecl':
                for f in c.get('inner', []):
                    if f and f.get('kind') == 'ClassTemplateSpecializationDecl' and 'inner' in f:
                        self._record(f, ns)
            elif k == 'ClassTemplateSpecializationDecl':
                self._record(c, ns)
            elif k == 'CXXRecordDecl':
                if not dep and c.get('name') and 'inner' in c and c.get('completeDefinition'):
                    self._record(c, ns)
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                if not dep: self._func(c, rec, ns)
            elif k == 'VarDecl':
                self.by_id[c['id']] = c
            elif k == 'EnumDecl':
                v = -1
                for e in c.get('inner', []):
                    if e and e.get('kind') == 'EnumConstantDecl':
                        val = _find_value(e)
                        v = int(val) if val is not None else v + 1
                        e['_val'] = v
                        self.by_id[e['id']] = e

    def _func(self, f, rec, ns):
        fn = Func(f, rec, ns)
        fn.ns = ns
        self.funcs.append(fn)
        old = self.func_by_id.get(fn.id)
        if old is None or (old.body is None and fn.body is not None):
            self.func_by_id[fn.id] = fn
        for p in fn.params: self.by_id[p['id']] = p
        if rec and rec in self.records: self.records[rec].methods.append(fn)
        if f.get('previousDecl'):
            fn.prev = f['previousDecl']

    def _record(self, c, ns):
        args = [targ_str(a) for a in c.get('inner', []) if a and a.get('kind') == 'TemplateArgument']
        name = c['name'] + ('<%s>' % ', '.join(args) if args else '')
        if name in self.records: 
            r = self.records[name]
            if r.fields: return
        r = self.records[name] = Record(name, c)
        for b in c.get('bases', []):
            t = b['type']
            r.bases.append(t.get('desugaredQualType') or t['qualType'])
        for f in c.get('inner', []):
            if not f: continue
            if f.get('kind') == 'FieldDecl':
                r.fields.append((f.get('name'), node_type(f), f['id']))
                self.field_rec[f['id']] = (name, f.get('name'))
                self.by_id[f['id']] = f
        self._walk(c, name, ns, False)

    # ---------------------------------------------------------- queries
    def all_fields(self, recname):
        r = self.records.get(recname)
        if r is None:
            raise KeyError('record ' + recname)
        out = []
        for b in r.bases:
            if b in self.records: out += self.all_fields(b)
        out += r.fields
        return out

    def find(self, name, rec=None, pred=None):
        out = []
        seen = set()
        for f in self.funcs:
            if f.name == name and f.body is not None and f.id not in seen:
                if rec is not None and f.rec != rec: continue
                if rec is None and f.rec is not None: continue
                if pred and not pred(f): continue
                seen.add(f.id)
                out.append(f)
        return out

    def find_sig(self, name, *ptypes, rec=None):
        """function by name and parameter types (canonical strings)"""
        want = tuple(repr(parse_type(p)) for p in ptypes)
        for f in self.find(name, rec):
            if tuple(repr(t) for t in f.ptypes()) == want:
                return f
        return None

    def method(self, rec, name):
        for f in self.funcs:
            if f.rec == rec and f.name == name and f.body is not None:
                return f
        r = self.records.get(rec)
        if r:
            for b in r.bases:
                m = self.method(b, name)
                if m: return m
        return None

    def method_def(self, f):
        """body of a method declared as f (out-of-class definition)"""
        for g in self.funcs:
            if g.body is not None and g.name == f.name and (getattr(g, 'prev', None) == f.id or (g.rec == f.rec and g.type == f.type)):
                return g
        return None

    def resolve(self, ref):
        """Func for a referencedDecl"""
        f = self.func_by_id.get(ref['id'])
        if f is not None and f.body is not None: return f
        name = ref.get('name')
        ty = (ref.get('type') or {}).get('qualType')
        if f is not None:
            d = self.defs.get((f.rec, f.name, f.type))
            if d: return d
            # out-of-class definitions of template members
            for g in self.funcs:
                if g.body is not None and g.name == f.name and getattr(g, 'prev', None) == f.id: return g
            return f
        d = self.defs.get((None, name, ty))
        return d

    def pragma(self, node):
        """source text of the pragma a directive node comes from"""
        f, l = node.get('_bf') or node.get('_f'), node.get('_bl') or node.get('_l')
        if not f or not os.path.exists(f): return ''
        if f not in self._pragma_cache:
            self._pragma_cache[f] = open(f, errors='replace').read().split('\n')
        lines = self._pragma_cache[f]
        i = (l or 1) - 1
        s = ''
        while i < len(lines):
            s += lines[i]
            if lines[i].rstrip().endswith('\\'):
                s = s.rstrip()[:-1]
                i += 1
                continue
            break
        return s


def _find_value(e):
    for c in e.get('inner', []):
        if c and 'value' in c: return c['value']
        if c:
            v = _find_value(c)
            if v is not None: return v
    return None


def source_digest():
    h = hashlib.sha256()
    for d in ('include', 'dep', 'src'):
        for r, _, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()
