"""Loads the clang AST (JSON) of /repo's current sources.  Nothing is cached
between runs: every check re-extracts the code it verifies."""
import json, os, subprocess, re, sys, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.setrecursionlimit(100000)
REPO = os.environ.get('PSDD_REPO', '/repo')
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
CLANG = '/usr/bin/clang++'

class ExtractError(Exception):
    pass

def _run(src, filt):
    cmd = [CLANG, '-std=c++17', '-I', REPO + '/include', '-I', STUBS, '-fsyntax-only',
           '-Wno-everything', '-Xclang', '-ast-dump=json', '-Xclang',
           '-ast-dump-filter=' + filt, src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (src, p.stderr[-2000:]))
    s = p.stdout
    d = json.JSONDecoder()
    out = []
    i = 0
    n = len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        x, i = d.raw_decode(s, i)
        out.append(x)
    return out

class Func:
    def __init__(self, node, cls, qname, src):
        self.node = node
        self.cls = cls
        self.qname = qname
        self.name = node.get('name')
        self.src = src
        self.params = [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']
        self.body = None
        for c in node.get('inner', []):
            if c['kind'] in ('CompoundStmt', 'CXXTryStmt'):
                self.body = c
        self.inits = [c for c in node.get('inner', []) if c['kind'] == 'CXXCtorInitializer']
        self.type = node['type']['qualType']
        self.const = self.type.rstrip().endswith('const')
        self.virtual = node.get('virtual', False)
        self.explicitlyDefaulted = node.get('explicitlyDefaulted')
    def ptypes(self):
        return [p['type']['qualType'] for p in self.params]
    def rettype(self):
        return self.type[:_sigsplit(self.type)].strip()
    def sig(self):
        return '%s(%s)' % (self.qname, ', '.join(self.ptypes()))
    def __repr__(self):
        return '<Func %s>' % self.sig()

def _sigsplit(t):
    # index of the '(' that opens the parameter list of a function type
    depth = 0
    for i, ch in enumerate(t):
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == '(' and depth == 0:
            return i
    return len(t)

class Program:
    """functions by qualified name; classes by name with fields/bases."""
    def __init__(self, sources, filters):
        self.funcs = {}      # qname -> [Func] with body
        self.decls = {}      # qname -> [Func] without body
        self.classes = {}    # name -> dict(fields=[(name,type)], bases=[...])
        self.typedefs = {}
        self.globals = {}
        self.filters = filters
        self.files = {}
        jobs = [(os.path.join(REPO, s), f) for s in sources for f in filters]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: _run(*j), jobs))
        self.seen = seen = set()
        self.tried = set()
        self.sources = sources
        for (src, f), decls in zip(jobs, res):
            for d in decls:
                self._add(d, None, '', src, seen)
        for s in sources:
            p = os.path.join(REPO, s)
            self.files[s] = hashlib.sha256(open(p, 'rb').read()).hexdigest()

    def _demangle(self, names):
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return p.stdout.split('\n')

    def _add(self, d, cls, ns, src, seen):
        k = d['kind']
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            if d.get('name') in ('std', 'option', 'nlohmann', 'htd'):
                return
            sub = ns + (d['name'] + '::' if d.get('name') else '')
            for c in d.get('inner', []):
                self._add(c, None, sub, src, seen)
        elif k == 'CXXRecordDecl':
            name = d.get('name')
            if not name or not d.get('completeDefinition'):
                return
            info = self.classes.setdefault(name, dict(fields=[], bases=[], seen=False))
            if not info['seen']:
                info['seen'] = True
                info['bases'] = [b['type']['qualType'] for b in d.get('bases', [])]
                for c in d.get('inner', []):
                    if c['kind'] == 'FieldDecl':
                        info['fields'].append((c['name'], ty(c), c))
            for c in d.get('inner', []):
                self._add(c, name, ns, src, seen)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            if d.get('isImplicit'):
                return
            mang = d.get('mangledName', '')
            qn = None
            if k != 'FunctionDecl':
                if cls is None:
                    cls = self._cls_from_mangled(mang)
                qn = (cls or '?') + '::' + d['name']
            else:
                qn = self._qname_from_mangled(mang, d['name'], ns)
            f = Func(d, cls if k != 'FunctionDecl' else None, qn, src)
            key = (qn, f.type, tuple(f.ptypes()), f.body is not None)
            if key in seen:
                return
            seen.add(key)
            (self.funcs if f.body is not None else self.decls).setdefault(qn, []).append(f)
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs[d['name']] = d['type'].get('desugaredQualType', d['type']['qualType'])
        elif k == 'VarDecl':
            self.globals[d['name']] = d
        elif k == 'FunctionTemplateDecl':
            pass

    def _cls_from_mangled(self, m):
        r = re.match(r'_ZN(?:K)?(.*)', m)
        if not r:
            return None
        parts = _mangled_parts(r.group(1))
        return parts[-2] if len(parts) >= 2 else (parts[0] if parts else None)

    def _qname_from_mangled(self, m, name, ns):
        r = re.match(r'_ZL?N(?:K)?(.*)', m)
        if r:
            parts = [p for p in _mangled_parts(r.group(1)) if p != '_GLOBAL__N_1']
            if parts and parts[-1] == name:
                return '::'.join(parts)
        return ns + name

    def ensure(self, name):
        """look for a function outside the usual namespaces (an extracted helper)"""
        if name in self.tried:
            return False
        self.tried.add(name)
        found = False
        for s in self.sources:
            for d in _run(os.path.join(REPO, s), name):
                if d.get('name') == name and d['kind'] == 'FunctionDecl':
                    self._add(d, None, '', s, self.seen)
                    found = True
        return found

    def lookup(self, qname):
        return self.funcs.get(qname, [])

    def derives(self, c, base):
        if c == base:
            return True
        for b in self.classes.get(c, {}).get('bases', []):
            if self.derives(b, base):
                return True
        return False

    def field_owner(self, cls, fname):
        """class in the base chain of cls that declares the field"""
        info = self.classes.get(cls)
        if info is None:
            return None
        for (n, t, _) in info['fields']:
            if n == fname:
                return cls
        for b in info['bases']:
            o = self.field_owner(b, fname)
            if o:
                return o
        return None

    def methods(self, cls, name, nargs=None):
        """all definitions of method visible from cls (derived first)"""
        res = [f for f in self.funcs.get(cls + '::' + name, []) if f.cls == cls]
        if nargs is not None:
            res = [f for f in res if len(f.params) == nargs]
        if res:
            return res
        for b in self.classes.get(cls, {}).get('bases', []):
            r = self.methods(b, name, nargs)
            if r:
                return r
        return []

    def overrides(self, cls, name, nargs):
        """(class, Func) for every class deriving from cls with its own definition"""
        out = []
        for c in self.classes:
            if self.derives(c, cls):
                for f in self.funcs.get(c + '::' + name, []):
                    if f.cls == c and len(f.params) == nargs:
                        out.append((c, f))
        return out

    def is_virtual(self, cls, name):
        for c in list(self.classes):
            if self.derives(cls, c) or self.derives(c, cls):
                for f in self.funcs.get(c + '::' + name, []) + self.decls.get(c + '::' + name, []):
                    if f.cls == c and (f.virtual or 'override' in json.dumps([x.get('kind') for x in f.node.get('inner', [])]).lower()):
                        return True
        return False

def _mangled_parts(s):
    parts = []
    i = 0
    while i < len(s):
        m = re.match(r'(\d+)', s[i:])
        if not m:
            if s[i] == 'C' or s[i] == 'D':
                parts.append(s[i:i + 2])
                break
            if s[i] == 'L':
                i += 1
                continue
            break
        n = int(m.group(1))
        i += len(m.group(1))
        parts.append(s[i:i + n])
        i += n
    # operators
    if i < len(s) and s[i:i + 2] and not s[i] == 'E' and not (parts and re.match('[CD]\\d', parts[-1])):
        parts.append('op')
    return parts

def ty(n):
    t = n.get('type', {})
    return t.get('qualType', '')

def dty(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))
