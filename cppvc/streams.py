"""Input streams and strings (trusted model of the standard library): a stream
is what it reads, a cursor and a good bit; reading is a function of both."""
from .theory import *
from .ctypes_ import SV, I, B, R
from .sym import LV
from .sym import PyPtr

class StreamTheory:
    opens = fn('file_opens', I, B)
    file = fn('file_content', I, I)
    lineok, lineof, linenext = fn('line_ok', I, I, B), fn('line_of', I, I, I), fn('line_next', I, I, I)
    intok, intof, intnext = fn('integer_ok', I, I, B), fn('integer_of', I, I, I), fn('integer_next', I, I, I)
    realok, realof, realnext = fn('real_ok', I, I, B), fn('real_of', I, I, R), fn('real_next', I, I, I)
    wordok, wordof, wordnext = fn('word_ok', I, I, B), fn('word_of', I, I, I), fn('word_next', I, I, I)
    char = fn('character', I, I, I)
    rest = fn('substring_from', I, I, I)
    def mk(self, src, cur, ok):
        return SV('stream', {'src': src, 'cur': cur, 'ok': ok})
    def stream_construct(self, ex, args, type_):
        if not args:
            return self.mk(z3.IntVal(0), z3.IntVal(0), z3.BoolVal(True))
        if 'fstream' in type_:
            return self.mk(self.file(args[0]), z3.IntVal(0), self.opens(args[0]))
        return self.mk(args[0], z3.IntVal(0), z3.BoolVal(True))
    def string_at(self, ex, x, key):
        return self.char(ex.rv(x), key)
    def stream_of(self, ex, x):
        v = ex.rv(x)
        if isinstance(v, PyPtr):
            x = v.lv
            v = ex.read(x)
        return x, v
    def c_getline(self, ex, a, n):
        x, v = self.stream_of(ex, ex.ev(a[0]))
        tgt = ex.ev(a[1])
        s, c = v.f['src'], v.f['cur']
        ok = And(v.f['ok'], self.lineok(s, c))
        ex.write(tgt, If(ok, self.lineof(s, c), z3.Int(ex.fresh_name('line'))))
        ex.write(x, self.mk(s, If(ok, self.linenext(s, c), c), ok))
        return x
    def lib_op(self, ex, op, x, t, args, n):
        if t[0] == 'stream' and op == '>>':
            x, v = self.stream_of(ex, x)
            tgt = ex.ev(args[1])
            k = tgt.t[0]
            fs = {'int': (self.intok, self.intof, self.intnext), 'real': (self.realok, self.realof, self.realnext), 'string': (self.wordok, self.wordof, self.wordnext)}
            if k not in fs:
                return None
            okf, of, nx = fs[k]
            s, c = v.f['src'], v.f['cur']
            ok = And(v.f['ok'], okf(s, c))
            ex.write(tgt, If(ok, of(s, c), ex.fresh(ex.shapes.shape(tgt.t), 'unread')))
            ex.write(x, self.mk(s, If(ok, nx(s, c), c), ok))
            return x
        if t[0] == 'stream' and op == '!':
            return Not(self.stream_of(ex, x)[1].f['ok'])
        if t[0] == 'string' and op in ('==', '!='):
            e = ex.rv(x) == ex.val(args[1])
            return e if op == '==' else Not(e)
        return None
    def lib_method(self, ex, x, bt, name, args, n):
        if bt[0] == 'stream':
            x, v = self.stream_of(ex, x)
            if name == 'operator bool' or name == 'good':
                return v.f['ok']
            if name == 'operator!' or name == 'fail':
                return Not(v.f['ok'])
            if name == 'close':
                return Opaque()
            if name == 'clear':
                ex.write(x, self.mk(v.f['src'], v.f['cur'], z3.BoolVal(True)))
                return Opaque()
            if name == 'str' and args:
                ex.write(x, self.mk(ex.val(args[0]), z3.IntVal(0), v.f['ok']))
                return Opaque()
            if name == 'open':
                f = ex.val(args[0])
                ex.write(x, self.mk(self.file(f), z3.IntVal(0), self.opens(f)))
                return Opaque()
        if bt[0] == 'string' and name == 'substr':
            return self.rest(ex.rv(x), ex.val(args[0]))
        if bt[0] == 'string' and name == 'c_str':
            return ex.rv(x)
        return None
    strtod = fn('strtod', I, R)
    def c_strtod(self, ex, a, n):
        return self.strtod(ex.val(a[0]))
    c_stod = c_strtod

class Pieces(list):
    """a string built in an expression: words and separators"""

TEXT = ('text', (('nl', I), ('cnt', z3.ArraySort(I, I)), ('tok', z3.ArraySort(I, z3.ArraySort(I, I))), ('open', B)))
CONTENT = ('TextFile', 'content')
def num_text(x):
    return (z3.Function('text_of_real', R, I) if x.sort() == R else z3.Function('text_of_integer', I, I))(x)
def word_text(w):
    return z3.Int('word!' + ''.join(c if c.isalnum() or c in '-_' else '!%x!' % ord(c) for c in w))
GLUE = z3.Function('glued', I, I, I)
class TextTheory(StreamTheory):
    """Strings and files that are written: lines of words (text_sep ' ', any
    white space between two words) or lines of fields (text_sep ',').  Use
    with the unit option text=TEXT.  A file is written through: what has been
    put out is in the ghost field content of the file name."""
    text_sep = ' '
    @property
    def csv(self):
        return self.text_sep == ','
    def string(self, v, ex):
        if not ex.opts.get('text'):
            return super().string(v, ex)
        s = v[1:-1].encode().decode('unicode_escape')
        out, w = Pieces(), ''
        for ch in s:
            if ch == '\n' or ch == self.text_sep or (not self.csv and ch in ' \t'):
                if w:
                    out.append(('word', word_text(w)))
                    w = ''
                out.append(('sep', '\n' if ch == '\n' else self.text_sep))
            else:
                w += ch
        if w:
            out.append(('word', word_text(w)))
        return out
    def empty_text(self):
        z = z3.IntVal(0)
        return SV('text', {'nl': z, 'cnt': z3.K(I, z), 'tok': z3.K(I, z3.K(I, z)), 'open': z3.BoolVal(False)})
    def append(self, ex, t, pieces):
        f = dict(t.f)
        for k, p in pieces:
            nl, line = f['nl'], z3.simplify(z3.Select(f['tok'], f['nl']))
            c = z3.simplify(z3.Select(f['cnt'], nl))
            if k == 'sep' and p == '\n':
                f['nl'] = nl + 1
                f['cnt'] = z3.Store(f['cnt'], nl + 1, 0)
                f['open'] = z3.BoolVal(False)
                if self.csv:
                    f['tok'] = z3.Store(f['tok'], nl + 1, z3.Store(z3.Select(f['tok'], nl + 1), 0, 0))
            elif k == 'sep':
                f['open'] = z3.BoolVal(False)
                if self.csv:
                    f['cnt'] = z3.Store(f['cnt'], nl, c + 1)
                    f['tok'] = z3.Store(f['tok'], nl, z3.Store(line, c + 1, 0))
            elif self.csv:
                old = z3.Select(line, c)
                f['tok'] = z3.Store(f['tok'], nl, z3.Store(line, c, self.ite(ex, old == 0, p, GLUE(old, p))))
            else:
                o = f['open']
                at = self.ite(ex, o, c - 1, c)
                f['tok'] = z3.Store(f['tok'], nl, z3.Store(line, at, self.ite(ex, o, GLUE(z3.Select(line, c - 1), p), p)))
                f['cnt'] = z3.Store(f['cnt'], nl, at + 1)
                f['open'] = z3.BoolVal(True)
            f = {k: z3.simplify(v) for k, v in f.items()}
        return SV('text', f)
    def ite(self, ex, c, a, b):
        c = z3.simplify(c)
        if z3.is_true(c) or not z3.is_false(c) and ex.implied(c):
            return a
        if z3.is_false(c) or ex.implied(Not(c)):
            return b
        return If(c, a, b)
    def is_empty(self, ex, t):
        z = z3.IntVal(0)
        e = [t.f['nl'] == 0, z3.Select(t.f['cnt'], z) == 0, Not(t.f['open'])]
        if self.csv:
            e.append(z3.Select(z3.Select(t.f['tok'], z), z) == 0)
        return ex.implied(And(*e))
    def line_start(self, ex, t):
        e = [z3.Select(t.f['cnt'], t.f['nl']) == 0, Not(t.f['open'])]
        if self.csv:
            e.append(z3.Select(z3.Select(t.f['tok'], t.f['nl']), z3.IntVal(0)) == 0)
        return ex.implied(And(*e))
    def concat(self, ex, t, v):
        if isinstance(v, Pieces):
            return self.append(ex, t, v)
        if z3.is_expr(v):
            return self.append(ex, t, [('word', v)])
        if isinstance(v, SV) and v.tag == 'text':
            if self.is_empty(ex, t):
                return v
            one = z3.simplify(v.f['nl'])
            if z3.is_int_value(one) and one.as_long() == 0:
                if self.line_start(ex, t):
                    f = dict(t.f)
                    z = z3.IntVal(0)
                    f['cnt'] = z3.Store(f['cnt'], f['nl'], z3.Select(v.f['cnt'], z))
                    f['tok'] = z3.Store(f['tok'], f['nl'], z3.Select(v.f['tok'], z))
                    f['open'] = v.f['open']
                    return SV('text', f)
                c = z3.simplify(z3.Select(v.f['cnt'], z3.IntVal(0)))
                if z3.is_int_value(c) and z3.is_true(z3.simplify(v.f['open'])) or self.csv and z3.is_int_value(c):
                    n = c.as_long() + (1 if self.csv else 0)
                    p = []
                    for i in range(n):
                        p += ([('sep', self.text_sep)] if i else []) + [('word', z3.Select(z3.Select(v.f['tok'], z3.IntVal(0)), z3.IntVal(i)))]
                    return self.append(ex, t, p)
        raise Unsupported('concatenation of these strings %s %s' % (type(v), v))
    def as_text(self, ex, v):
        if isinstance(v, SV) and v.tag == 'text':
            return v
        return self.concat(ex, self.empty_text(), v)
    def string_construct(self, ex, args):
        if not ex.opts.get('text'):
            return super().string_construct(ex, args)
        return self.as_text(ex, args[0])
    def c_to_string(self, ex, a, n):
        v = ex.val(a[0])
        if v.sort() == B:
            v = If(v, z3.IntVal(1), z3.IntVal(0))
        return Pieces([('word', num_text(v))])
    def out_name(self, ex, x):
        return self.stream_of(ex, x)[1].f['src']
    def put(self, ex, x, v):
        from .sym import LV as LVal
        lv = LVal(('heap', 'TextFile', self.out_name(ex, x)), (('f', 'content'),), ('string',))
        ex.write(lv, self.concat(ex, ex.read(lv), v))
    def lib_op(self, ex, op, x, t, args, n):
        if not ex.opts.get('text'):
            return super().lib_op(ex, op, x, t, args, n)
        v = ex.rv(x)
        if t[0] == 'stream' and op == '<<':
            ref = ex.callee_ref(args[1])
            if ref.get('referencedDecl', {}).get('name') == 'endl':
                w = Pieces([('sep', '\n')])
            else:
                w = ex.val(args[1])
                if z3.is_expr(w) and w.sort() in (I, R, B):
                    w = self.text_of(ex, w)
            self.put(ex, x, w)
            return x
        if op == '+':
            w = ex.val(args[1])
            if isinstance(v, Pieces) and isinstance(w, Pieces):
                return Pieces(list(v) + list(w))
            return self.concat(ex, self.as_text(ex, v), w)
        if op == '+=':
            ex.write(x, self.concat(ex, self.as_text(ex, v), ex.val(args[1])))
            return x
        if op == '=':
            ex.write(x, self.as_text(ex, ex.val(args[1])))
            return x
        return super().lib_op(ex, op, x, t, args, n)
    def text_of(self, ex, w):
        if w.sort() == B:
            w = If(w, z3.IntVal(1), z3.IntVal(0))
        return Pieces([('word', num_text(w))])
    def lib_method(self, ex, x, bt, name, args, n):
        if ex.opts.get('text'):
            if bt[0] == 'stream' and name == 'open':
                return self.open_out(ex, x, ex.val(args[0]))
            if bt[0] == 'string' and name == 'c_str':
                return ex.rv(x)
            if bt[0] == 'string' and name in ('push_back', 'append'):
                ex.write(x, self.concat(ex, ex.rv(x), ex.val(args[0])))
                return x
            if bt[0] == 'string' and name == 'pop_back' and self.csv:
                v = ex.rv(x)
                f = dict(v.f)
                nl = f['nl']
                c = z3.Select(f['cnt'], nl)
                last = z3.Select(z3.Select(f['tok'], nl), c) == 0
                ex.check(And(last, c > 0), 'pre', 'pop_back: the last character is a separator')
                f['cnt'] = z3.Store(f['cnt'], nl, c - 1)
                ex.write(x, SV('text', f))
                return Opaque()
        return super().lib_method(ex, x, bt, name, args, n)
    def open_out(self, ex, x, f):
        from .sym import LV as LVal
        x, v = self.stream_of(ex, x)
        ex.write(x, self.mk(f, z3.IntVal(0), z3.BoolVal(True)))
        ex.write(LVal(('heap', 'TextFile', f), (('f', 'content'),), ('string',)), self.empty_text())
        return Opaque()
    def stream_construct(self, ex, args, type_):
        if ex.opts.get('text') and args and 'ofstream' in type_:
            from .sym import LV as LVal
            ex.write(LVal(('heap', 'TextFile', args[0]), (('f', 'content'),), ('string',)), self.empty_text())
            return self.mk(args[0], z3.IntVal(0), z3.BoolVal(True))
        return super().stream_construct(ex, args, type_)
