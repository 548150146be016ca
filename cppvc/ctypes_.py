"""C++ types (as printed by clang) -> canonical type trees -> logical shapes."""
import re
import z3

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()

class Unsupported(Exception):
    """The construct is outside the verifier's subset (never a violation)."""

INTS = {'int', 'unsigned int', 'unsigned long', 'long', 'unsigned', 'size_t', 'std::size_t',
        'uintmax_t', 'uint32_t', 'int32_t', 'int64_t', 'uint64_t', 'SddLiteral', 'SddSize', 'size_type',
        'char', 'unsigned char', 'long long', 'unsigned long long', 'SddNodeSize', 'SddID', 'SddModelCount',
        'difference_type', 'std::ptrdiff_t', 'ptrdiff_t', 'short', 'unsigned short', 'uint', 'signed char',
        'std::nullptr_t', 'nullptr_t', 'uint8_t', 'intmax_t', 'SddRefCount'}
REALS = {'double', 'float', 'long double'}
ALIAS = {'Probability': 'PsddParameter', 'BatchedPsddValue': 'std::vector<bool>',
         'AdjacencyMatrix': 'std::unordered_map<SddLiteral, std::unordered_set<SddLiteral>>'}

STREAMS = ('ifstream', 'istringstream', 'stringstream', 'ofstream', 'istream')
def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

_cache = {}

# typedefs of libsdd
ALIAS.update({'vtree_t': 'Vtree', 'sdd_node_t': 'SddNode', 'sdd_manager_t': 'SddManager'})
PARAM = [('param',)]
def param_as_class(on):
    """PsddParameter is a class like any other (when it is the code under proof)"""
    PARAM[0] = ('cls', 'PsddParameter') if on else ('param',)
    _cache.clear()
def parse(t):
    if t in _cache:
        return _cache[t]
    r = _parse(t)
    _cache[t] = r
    return r

def is_ref(t):
    t = t.strip()
    return t.endswith('&')

def _parse(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    # trailing const on pointers: T *const
    m = re.match(r'^(.*\*)\s*const$', t)
    if m:
        t = m.group(1)
    if t.endswith('*'):
        return ('ptr', parse(t[:-1]))
    while t.startswith('const ') or t.startswith('struct ') or t.startswith('class ') or t.startswith('volatile '):
        t = t.split(' ', 1)[1].strip()
    if t.endswith(' const'):
        t = t[:-6].strip()
    if t in ALIAS:
        return parse(ALIAS[t])
    if t in ('bool', '_Bool'):
        return ('bool',)
    if t in ('std::_Bit_reference', '_Bit_reference', 'std::bitset<65536>::reference', 'reference') :
        return ('bool',)
    if t in INTS:
        return ('int',)
    if t in REALS:
        return ('real',)
    if t == 'void':
        return ('void',)
    if t == 'PsddParameter':
        return PARAM[0]
    if t in ('mpz_class', '__gmp_expr<mpz_t, mpz_t>', '__gmp_expr<__mpz_struct[1], __mpz_struct[1]>'):
        return ('mpz',)
    m = re.match(r'^(?:std::)?(?:__cxx11::)?(\w+)<(.*)>$', t, re.S)
    if m:
        n, a = m.group(1), split_args(m.group(2))
        if n == 'vector':
            return ('vec', parse(a[0]))
        if n in ('unordered_map', 'map'):
            return ('map', parse(a[0]), parse(a[1]))
        if n == 'set' and len(a) > 1 and not re.match(r'^(std::)?less<', a[1]):
            # ordered by a comparator: equivalent elements are not both kept
            return ('set', parse(a[0]), a[1].split('::')[-1])
        if n in ('unordered_set', 'set'):
            return ('set', parse(a[0]))
        if n == 'pair':
            return ('pair', parse(a[0]), parse(a[1]))
        if n == 'bitset':
            return ('bitset',)
        if n in ('queue', 'deque', 'list'):
            return ('queue', parse(a[0]))
        if n == 'stack':
            return ('stack', parse(a[0]))
        if n == 'initializer_list':
            return ('vec', parse(a[0]))
        if n == 'basic_string':
            return ('string',)
        if n in ('basic_ifstream', 'basic_istringstream', 'basic_stringstream', 'basic_ofstream', 'basic_istream', 'basic_iostream', 'basic_ios'):
            return ('stream',)
        if n in ('allocator', 'hash', 'less', 'equal_to'):
            return ('opaque', n)
    if t in ('std::string', 'string'):
        return ('string',)
    if t in STREAMS or t[5:] in STREAMS and t.startswith('std::'):
        return ('stream',)
    if 'iterator' in t:
        return ('iter',)
    if t.startswith('(lambda'):
        return ('lambda',)
    if re.match(r'^[A-Za-z_]\w*$', t):
        return ('cls', ALIAS.get(t, t))
    m = re.match(r'^(?:[\w\(\) ]+::)+([A-Za-z_]\w*)$', t)
    if m:
        return ('cls', ALIAS.get(m.group(1), m.group(1))) if m.group(1) not in INTS else ('int',)
    m = re.match(r'^(.*)\[(\d+)\]$', t)
    if m:
        return ('carr', parse(m.group(1)), int(m.group(2)))
    return ('unknown', t)

def tstr(t):
    k = t[0]
    if k in ('vec', 'set', 'queue', 'stack', 'ptr'):
        return '%s<%s>' % (k, tstr(t[1]))
    if k in ('map', 'pair'):
        return '%s<%s,%s>' % (k, tstr(t[1]), tstr(t[2]))
    if k == 'cls':
        return t[1]
    return k

class SV:
    """structured logical value"""
    __slots__ = ('tag', 'f')
    def __init__(self, tag, f):
        self.tag = tag
        self.f = f
    def __repr__(self):
        return 'SV(%s,%s)' % (self.tag, list(self.f))

# ---------------------------------------------------------------- shapes
class Shapes:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = opts or {}
        self.cache = {}
    def shape(self, t):
        if t in self.cache:
            return self.cache[t]
        r = self._shape(t)
        self.cache[t] = r
        return r
    def _shape(self, t):
        k = t[0]
        if k == 'string' and self.opts.get('text'):
            return self.opts['text']
        if k in ('int', 'mpz', 'ptr', 'string', 'opaque', 'unknown'):
            return I
        if k == 'bool':
            return B
        if k == 'stream':
            # what it reads, how far it has read, whether it is good
            return ('stream', (('src', I), ('cur', I), ('ok', B)))
        if k == 'real':
            return self.opts.get('double_sort', R)
        if k == 'param':
            if self.opts.get('param_struct'):
                return self.shape(('cls', 'PsddParameter'))
            return R
        if k == 'bitset':
            return z3.ArraySort(I, B)
        if k == 'vec' and t[1][0] == 'ptr':
            # ghost leaf ix: where an element was last pushed
            return (tstr(t), (('len', I), ('arr', lift(self.shape(t[1]), [I])), ('ix', z3.ArraySort(I, I))))
        if k in ('vec', 'stack'):
            return (tstr(t), (('len', I), ('arr', lift(self.shape(t[1]), [I]))))
        if k == 'queue' and t[1][0] == 'ptr':
            return (tstr(t), (('head', I), ('len', I), ('arr', lift(self.shape(t[1]), [I])), ('ix', z3.ArraySort(I, I))))
        if k == 'queue':
            return (tstr(t), (('head', I), ('len', I), ('arr', lift(self.shape(t[1]), [I]))))
        if k == 'map':
            ks = leaves(self.shape(t[1]))
            return (tstr(t), (('dom', lift(B, ks)), ('val', lift(self.shape(t[2]), ks)), ('size', I)))
        if k == 'set':
            ks = leaves(self.shape(t[1]))
            return (tstr(t), (('dom', lift(B, ks)), ('size', I)))
        if k == 'pair':
            return (tstr(t), (('first', self.shape(t[1])), ('second', self.shape(t[2]))))
        if k == 'cls':
            if t[1] in self.prog.classes:
                return (t[1], tuple((n, self.shape(parse(ty))) for (n, ty) in self.allfields(t[1])))
            return I
        raise Unsupported('type %s' % (t,))
    def allfields(self, c):
        info = self.prog.classes[c]
        out = []
        for b in info['bases']:
            if b in self.prog.classes:
                out += self.allfields(b)
        for (n, ty, _) in info['fields']:
            out.append((n, ty))
        return out

def leaves(sh):
    if isinstance(sh, tuple):
        out = []
        for _, s in sh[1]:
            out += leaves(s)
        return out
    return [sh]

def lift(sh, keys):
    if isinstance(sh, tuple):
        return (sh[0], tuple((n, lift(s, keys)) for n, s in sh[1]))
    r = sh
    for k in reversed(keys):
        r = z3.ArraySort(k, r)
    return r

def fresh(sh, name):
    if isinstance(sh, tuple):
        return SV(sh[0], {n: fresh(s, name + '.' + n) for n, s in sh[1]})
    return z3.Const(name, sh)

def default(sh, sort_default):
    if isinstance(sh, tuple):
        return SV(sh[0], {n: default(s, sort_default) for n, s in sh[1]})
    return sort_default(sh)

def map1(f, v):
    if isinstance(v, SV):
        return SV(v.tag, {n: map1(f, x) for n, x in v.f.items()})
    return f(v)

def map2(f, a, b):
    if isinstance(a, SV):
        if not isinstance(b, SV):
            raise Unsupported('shape mismatch %s / %s' % (a, b))
        return SV(a.tag, {n: map2(f, x, b.f[n]) for n, x in a.f.items()})
    return f(a, b)

def key_terms(v):
    if isinstance(v, SV):
        out = []
        for x in v.f.values():
            out += key_terms(x)
        return out
    return [v]

def sel(v, key):
    ks = key_terms(key)
    def f(a):
        for k in ks:
            a = z3.Select(a, k)
        return a
    return map1(f, v)

def sto(v, key, x):
    ks = key_terms(key)
    def rec(a, i, val):
        if i == len(ks):
            return val
        return z3.Store(a, ks[i], rec(z3.Select(a, ks[i]), i + 1, val))
    return map2(lambda a, y: rec(a, 0, y), v, x)

def ite(c, a, b):
    return map2(lambda x, y: z3.If(c, x, y), a, b)

def eqv(a, b):
    """conjunction of leafwise equality"""
    out = []
    def rec(x, y):
        if isinstance(x, SV):
            for n in x.f:
                rec(x.f[n], y.f[n])
        else:
            out.append(x == y)
    rec(a, b)
    return z3.And(*out) if len(out) != 1 else out[0]
