"""Datasets (C19): records with their multiplicities, reading and writing."""
from .core import *
from cppvc.theory import Opaque
from cppvc.streams import TextTheory, TEXT, num_text
from cppvc.theory import PsddTheory
BD = ('src/binary_data.cpp',)
A_MI = z3.ArraySort(A_IB, I)
# rows of a CSV file, their fields; the record of a row
Rows = fn('Rows', I, I)
NF = fn('Fields', I, I, I)
Fld = fn('Field', I, I, I, I)
Atoi = fn('atoi', I, I)
Rec = fn('RecordOfRow', I, I, A_IB)
Cnt = fn('RowCount', I, I, A_IB, I)
Off = fn('LinesBefore', z3.ArraySort(I, A_IB), A_MI, I, I)
RowFile, RowNo = fn('file_of_row', I, I), fn('number_of_row', I, I)
RowPtr = fn('row_pointer', I, I, I)
AT, LIVE = ('CsvParser', 'rows_read'), ('CsvRow', 'live')
CONT = ('TextFile', 'content')
COMMA = "str!'\",\"'"
A_EN = z3.ArraySort(I, A_IB)
f_, d_ = z3.Int('f'), z3.Const('d', A_IB)
class DataTheory(TextTheory, PsddTheory):
    text_sep = ','
    fields = dict(PsddTheory.fields)
    fields.update({AT: I, LIVE: B, ('CsvParser', 'file'): I, CONT: TEXT})
    MAXV = 65536
    def bit_bound(self, ex, i):
        ex.check(And(0 <= i, i < self.MAXV), 'pre', 'bitset::set within the bitset')
    def c_CsvParser_new(self, ex, a, n):
        f = ex.val(a[0])
        ex.check(And(ex.val(a[1]) == z3.Int(COMMA), ex.val(a[2]) == 0), 'pre', 'CsvParser_new: fields are separated by commas, no header')
        p = ex.alloc()
        ok = self.opens(f)
        ex.st.heap[AT] = z3.Store(ex.heap_get(*AT), p, 0)
        ex.st.heap[('CsvParser', 'file')] = z3.Store(ex.heap_get('CsvParser', 'file'), p, f)
        return If(ok, p, iv(0))
    def c_CsvParser_getRow(self, ex, a, n):
        p = ex.val(a[0])
        ex.check(p != 0, 'pre', 'CsvParser_getRow: a parser')
        f = S(ex.heap_get('CsvParser', 'file'), p)
        k = S(ex.heap_get(*AT), p)
        more = And(0 <= k, k < Rows(f))
        r = RowPtr(f, k)
        ex.assume(And(r > 0, RowFile(r) == f, RowNo(r) == k, NF(f, k) >= 0))
        ex.st.heap[AT] = z3.Store(ex.heap_get(*AT), p, If(more, k + 1, k))
        ex.st.heap[LIVE] = z3.Store(ex.heap_get(*LIVE), r, If(more, True, S(ex.heap_get(*LIVE), r)))
        return If(more, r, iv(0))
    def live(self, ex, r):
        ex.check(S(ex.heap_get(*LIVE), r), 'pre', 'the row has not been destroyed')
    def c_CsvParser_getFields(self, ex, a, n):
        r = ex.val(a[0])
        self.live(ex, r)
        return r
    def c_CsvParser_getNumFields(self, ex, a, n):
        r = ex.val(a[0])
        self.live(ex, r)
        return NF(RowFile(r), RowNo(r))
    def raw_deref(self, ex, p, i, t):
        self.live(ex, p)
        ex.check(And(0 <= i, i < NF(RowFile(p), RowNo(p))), 'bounds', 'field index within the row')
        return Fld(RowFile(p), RowNo(p), i)
    def c_CsvParser_destroy_row(self, ex, a, n):
        r = ex.val(a[0])
        self.live(ex, r)
        ex.st.heap[LIVE] = z3.Store(ex.heap_get(*LIVE), r, False)
        return Opaque()
    def c_CsvParser_destroy(self, ex, a, n):
        return Opaque()
    def c_atoi(self, ex, a, n):
        return Atoi(ex.val(a[0]))
    c_atol = c_atoi
def mult(m, d):
    return If(S(m.f['dom'], d), S(m.f['val'], d), iv(0))
def ax_rows(T):
    f, k, v, d, x = f_, z3.Int('k'), z3.Int('v'), d_, z3.Int('x')
    en, va = z3.Const('en', z3.ArraySort(I, A_IB)), z3.Const('va', A_MI)
    r = Rec(f, k)
    c = lambda k: Cnt(f, k, d)
    o = lambda k: Off(en, va, k)
    return [FA([f], Rows(f) >= 0, [Rows(f)]),
            FA([f, k, v], S(r, v) == And(1 <= v, v <= NF(f, k), Atoi(Fld(f, k, v - 1)) != 0), [S(r, v)]),
            FA([f, d], c(iv(0)) == 0, [c(iv(0))]),
            FA([f, k, d], Implies(k >= 0, c(k + 1) == c(k) + If(r == d, 1, 0)), [(c(k), r)]),
            FA([en, va], o(iv(0)) == 0, [o(iv(0))]),
            FA([en, va, k], Implies(k >= 0, o(k + 1) == o(k) + If(S(va, S(en, k)) > 0, S(va, S(en, k)), 0)), [(o(k), S(en, k))]),
            FA([x], Atoi(num_text(x)) == x, [num_text(x)])]
def lem_off(T):
    en, va, r, k = z3.Const('en', A_EN), z3.Const('va', A_MI), z3.Int('r'), z3.Int('k')
    o = lambda k: Off(en, va, k)
    T.lemmas.append(Lemma('blocks of lines do not overlap', FA([en, va, r, k], Implies(And(0 <= r, r < k), o(r) + If(S(va, S(en, r)) > 0, S(va, S(en, r)), 0) <= o(k)), [(o(r), o(k))]),
        [('the next block', [0 <= r, k == r + 1, *touch(o(r), o(k))], o(r) + If(S(va, S(en, r)) > 0, S(va, S(en, r)), 0) <= o(k)),
         ('one more block', [0 <= r, r < k, o(r) + If(S(va, S(en, r)) > 0, S(va, S(en, r)), 0) <= o(k), *touch(o(k + 1), o(k), If(S(S(en, k), iv(0)), iv(1), iv(0)))], o(r) + If(S(va, S(en, r)) > 0, S(va, S(en, r)), 0) <= o(k + 1))]))
    return []
def ok_map(m):
    return FA([d_], Implies(S(m.f['dom'], d_), S(m.f['val'], d_) > 0), [S(m.f['dom'], d_)])
def c_add():
    def ens(X):
        m, m0, x = X.fld('data_'), X.ofld('data_'), X.a(0)
        return [('one more of the record, the others as before', FA([d_], mult(m, d_) == mult(m0, d_) + If(d_ == x, 1, 0), [S(m.f['dom'], d_)])),
                ('one more record', X.fld('data_size_') == X.ofld('data_size_') + 1), ('the table has the records that were added', ok_map(m))]
    return Contract('BinaryData::AddRecord', nparams=1, requires=lambda X: [('multiplicities are positive', ok_map(X.fld('data_')))], ensures=ens, modifies=[('this', 'data_'), ('this', 'data_size_')])
def c_read():
    def req(X):
        f = X.a(0)
        k = z3.Int('k')
        return [('rows of one length, within a record', FA([k], Implies(And(0 <= k, k < Rows(f)), And(NF(f, k) == NF(f, iv(0)), 1 <= NF(f, k), NF(f, k) < DataTheory.MAXV)), [NF(f, k)]))]
    def st(X, f, k):
        m = X.fld('data_')
        return [('multiplicity of each record', FA([d_], mult(m, d_) == Cnt(f, k, d_), [S(m.f['dom'], d_)])), ('number of records', X.fld('data_size_') == k),
                ('number of variables', X.fld('variable_size_') == If(k == 0, iv(0), NF(f, iv(0))))]
    def within(X, f):
        m, v = X.fld('data_'), z3.Int('v')
        return ('records are over the variables', FA([d_, v], Implies(And(S(m.f['dom'], d_), S(d_, v)), And(1 <= v, v <= NF(f, iv(0)))), [(S(m.f['dom'], d_), S(d_, v))]))
    def rows(L, X):
        f = X.a(0)
        p = L.var('csvparser', t=('ptr', ('cls', 'CsvParser')))
        return [('rows so far', And(p != 0, S(X.h('CsvParser', 'file'), p) == f, S(X.h(*AT), p) == L.k, L.k <= Rows(f), Cnt(f, iv(0), Rec(f, L.k)) == 0, *touch(NF(f, L.k), NF(f, iv(0)))))] + st(X, f, L.k) + [('the table has the records that were read', ok_map(X.fld('data_'))), within(X, f)]
    def flds(L, X):
        f = X.a(0)
        o = L.outer[-1]
        v = z3.Int('v')
        b = L.var('cur_data', t=('bitset',))
        return rows(o, X)[1:] + [('fields so far', And(L.k <= NF(f, o.k), FA([v], S(b, v) == And(1 <= v, v <= L.k, S(Rec(f, o.k), v)), [S(b, v)])))] + ([('the record', Implies(L.k == NF(f, o.k), b == Rec(f, o.k)))] if L.phase != 'assume' else [])
    def ens(X):
        f = X.a(0)
        return st(X, f, Rows(f)) + [('multiplicities are positive', ok_map(X.fld('data_'))), within(X, f)]
    return Contract('BinaryData::ReadFile', nparams=1, requires=req, ensures=ens, modifies=[('this', 'data_'), ('this', 'data_size_'), ('this', 'variable_size_'), AT, LIVE, ('CsvParser', 'file'), ('new', 'CsvParser', 'CsvRow')], loops={'0': rows, '0.0': flds})
def line_of(c, i):
    """the line is a record: variable_size_ fields, each the text of a bit"""
    return S(S(c.f['tok'], i))
def is_record(c, i, b, vs):
    v = z3.Int('v')
    return And(S(c.f['cnt'], i) == vs - 1, FA([v], Implies(And(1 <= v, v <= vs), S(S(c.f['tok'], i), v - 1) == num_text(If(S(b, v), iv(1), iv(0)))), [S(b, v)]))
def described(c, upto, j, en, va, vs):
    """the lines of the first records (and j of the next) are there"""
    r, i, v = z3.Ints('r i v')
    o = lambda r: Off(en, va, r)
    b = S(en, r)
    here = And(0 <= r, Or(r < upto, r == upto), 0 <= i, i < If(r < upto, S(va, b), j))
    l = o(r) + i
    return [('as many lines as records', c.f['nl'] == o(upto) + j),
            ('lengths of the lines', FA([r, i], Implies(here, S(c.f['cnt'], l) == vs - 1), [(S(en, r), S(c.f['cnt'], l))])),
            ('bits of the lines', FA([r, i, v], Implies(And(here, 1 <= v, v <= vs), S(S(c.f['tok'], l), v - 1) == num_text(If(S(b, v), iv(1), iv(0)))), [(S(en, r), S(S(c.f['tok'], l), v - 1))]))]
def line_clean(c):
    return ('at the start of a line', And(S(c.f['cnt'], c.f['nl']) == 0, Not(c.f['open']), S(S(c.f['tok'], c.f['nl']), iv(0)) == 0))
def c_write():
    def req(X):
        m, vs = X.fld('data_'), X.fld('variable_size_')
        v = z3.Int('v')
        return [('multiplicities are positive', ok_map(m)), ('records are over the variables', FA([d_, v], Implies(And(S(m.f['dom'], d_), S(d_, v)), And(1 <= v, v <= vs)), [(S(m.f['dom'], d_), S(d_, v))])),
                ('some variable', And(1 <= vs, vs < DataTheory.MAXV))]
    def content(X):
        return sel(X.h(*CONT), X.a(0))
    def env(L, X):
        return L.snap.en, X.fld('data_').f['val'], X.fld('variable_size_')
    def hyp(L, X):
        sn = L.snap
        c = content(X)
        return [('offsets do not decrease', And(Off(sn.en, X.fld('data_').f['val'], L.k) >= 0)), ('the stream writes the file', L.var('data_fd', t=('stream',)).f['src'] == X.a(0))]
    def recs(L, X):
        en, va, vs = env(L, X)
        c = content(X)
        return hyp(L, X) + [line_clean(c)] + described(c, L.k, iv(0), en, va, vs)
    def reps(L, X):
        o = L.outer[-1]
        en, va, vs = env(o, X)
        c = content(X)
        return hyp(o, X) + [line_clean(c), ('copies so far', L.k <= S(va, S(en, o.k)))] + described(c, o.k, L.k, en, va, vs)
    def bits(L, X):
        o = L.outer[-2]
        en, va, vs = env(o, X)
        t = L.var('cur_line', t=('string',))
        b = S(en, o.k)
        v = z3.Int('v')
        tok = S(t.f['tok'], iv(0))
        return [('one line', And(t.f['nl'] == 0, Not(t.f['open']), S(t.f['cnt'], iv(0)) == L.k, L.k <= vs, S(tok, L.k) == 0)),
                ('bits so far', FA([v], Implies(And(1 <= v, v <= L.k), S(tok, v - 1) == num_text(If(S(b, v), iv(1), iv(0)))), [S(tok, v - 1)]))]
    def ens(X):
        m, vs = X.fld('data_'), X.fld('variable_size_')
        en, N = X.outs['en'], X.outs['N']
        return [('every record once', enumerates(m.f['dom'], en, X.outs['pl'], N))] + described(content(X), N, iv(0), en, m.f['val'], vs)
    def wit(X):
        sn = X.ex.last_snap
        pl = z3.Const(X.ex.fresh_name('places'), A_PL)
        X.ex.assume(FA([d_], S(pl, d_) == sn.inv(d_), [S(pl, d_)]))
        X.ex.assume(FA([d_], S(pl, d_) == sn.inv(d_), [sn.inv(d_)]))
        return {'en': sn.en, 'N': sn.n, 'pl': pl}
    return Contract('BinaryData::WriteFile', nparams=1, requires=req, ensures=ens, modifies=[CONT], loops={'0': recs, '0.0': reps, '0.0.0': bits}, outs={'en': A_EN, 'N': I, 'pl': A_PL}, wit=wit)
A_PL = z3.ArraySort(A_IB, I)
def enumerates(dom, en, pl, N):
    """en lists the records of the table, each once; pl is its inverse"""
    r = z3.Int('r')
    return And(N >= 0, FA([r], Implies(And(0 <= r, r < N), And(S(dom, S(en, r)), S(pl, S(en, r)) == r)), [S(en, r)]),
               FA([d_], Implies(S(dom, d_), And(0 <= S(pl, d_), S(pl, d_) < N, S(en, S(pl, d_)) == d_)), [S(dom, d_), S(pl, d_)]))
# a file that describes a table: what WriteFile leaves behind
A_MB = z3.ArraySort(A_IB, B)
A_IAI = z3.ArraySort(I, A_II)
Wr = fn('Describes', I, A_MB, A_MI, A_EN, A_PL, I, I, I, A_II, A_IAI, B)
class Text:
    def __init__(self, nl, cnt, tok):
        self.f = {'nl': nl, 'cnt': cnt, 'tok': tok}
def wr_vars():
    return dict(f=f_, dom=z3.Const('dom', A_MB), va=z3.Const('va', A_MI), en=z3.Const('en', A_EN), pl=z3.Const('pl', A_PL), N=z3.Int('N'), vs=z3.Int('vs'), nl=z3.Int('nl'), cnt=z3.Const('cnt', A_II), tok=z3.Const('tok', A_IAI))
def ax_written(T):
    V = wr_vars()
    f, dom, va, en, pl, N, vs, nl, cnt, tok = V.values()
    i, j, d, v = z3.Int('i'), z3.Int('j'), d_, z3.Int('v')
    w = Wr(*V.values())
    vs_ = list(V.values())
    # what a CSV parser reads in a text is its lines and fields (C20)
    lex = [Rows(f) == nl, FA([i], Implies(And(0 <= i, i < nl), NF(f, i) == S(cnt, i) + 1), [NF(f, i)]),
           FA([i, j], Implies(And(0 <= i, i < nl), Fld(f, i, j) == S(S(tok, i), j)), [Fld(f, i, j)])]
    tab = [enumerates(dom, en, pl, N), FA([d], Implies(S(dom, d), S(va, d) > 0), [S(dom, d)]),
           FA([d, v], Implies(And(S(dom, d), S(d, v)), And(1 <= v, v <= vs)), [(S(dom, d), S(d, v))])]
    des = [x for _, x in described(Text(nl, cnt, tok), N, iv(0), en, va, vs)]
    return [FA(vs_, Implies(w, And(*(lex + tab + des))), [w])]
def lem_round(T):
    V = wr_vars()
    f, dom, va, en, pl, N, vs, nl, cnt, tok = V.values()
    i, r, k, d, x, l = z3.Int('i'), z3.Int('r'), z3.Int('k'), d_, z3.Const('x', A_IB), z3.Int('l')
    w = Wr(*V.values())
    vs_ = list(V.values())
    o = lambda r: Off(en, va, r)
    inr = And(0 <= r, r < N, 0 <= i, i < S(va, S(en, r)))
    L = T.lemmas
    v = z3.Int('v')
    tr = lambda t: touch(If(t, iv(1), iv(0)))
    L.append(Lemma('offsets are not negative', FA([en, va, r], Implies(r >= 0, o(r) >= 0), [o(r)]), [('first', touch(o(iv(0))), o(iv(0)) >= 0), ('next', [r >= 0, o(r) >= 0, *touch(o(r), o(r + 1)), *tr(S(S(en, r), iv(0)))], o(r + 1) >= 0)]))
    L.append(Lemma('the bits of a line', FA(vs_ + [r, i, v], Implies(And(w, inr), S(Rec(f, o(r) + i), v) == S(S(en, r), v)), [(w, S(Rec(f, o(r) + i), v))]),
        [('bits', [w, inr, *touch(o(r), o(N), NF(f, o(r) + i), S(cnt, o(r) + i), S(S(tok, o(r) + i), v - 1), Fld(f, o(r) + i, v - 1), S(pl, S(en, r))), *tr(S(S(en, r), v)), *tr(S(dom, S(en, r))), *tr(S(Rec(f, o(r) + i), v))],
          S(Rec(f, o(r) + i), v) == S(S(en, r), v))]))
    L.append(Lemma('a line is its record', FA(vs_ + [r, i], Implies(And(w, inr), Rec(f, o(r) + i) == S(en, r)), [(w, Rec(f, o(r) + i))]),
        [('same record', [w, inr], Rec(f, o(r) + i) == S(en, r))]))
    base = Cnt(f, o(r), x)
    co = lambda i: Cnt(f, o(r) + i, x) == base + If(S(en, r) == x, i, 0)
    inb = And(0 <= r, r < N, 0 <= i, i <= S(va, S(en, r)))
    upto = Implies(And(w, 0 <= r, r < N, o(r) <= l, l <= o(r) + S(va, S(en, r))), Cnt(f, l, x) == base + If(S(en, r) == x, l - o(r), 0))
    L.append(Lemma('copies of one record', FA(vs_ + [r, l, x], upto, [(w, o(r), Cnt(f, l, x))]),
        [('none', [w, 0 <= r, r < N], co(iv(0))), ('one more', [w, inr, co(i), *touch(Cnt(f, o(r) + i, x), Cnt(f, o(r) + i + 1, x)), *tr(S(Rec(f, o(r) + i), iv(0))),], co(i + 1))]))
    vr = S(va, S(en, r))
    L.append(Lemma('a block', FA(vs_ + [r], Implies(And(w, 0 <= r, r < N), And(vr > 0, S(dom, S(en, r)), S(pl, S(en, r)) == r, o(r + 1) == o(r) + vr)), [(w, o(r), S(en, r))]),
        [('size', [w, 0 <= r, r < N, *touch(o(r), o(r + 1)), *tr(S(dom, S(en, r))), *tr(S(S(en, r), iv(0)))], And(vr > 0, S(dom, S(en, r)), S(pl, S(en, r)) == r, o(r + 1) == o(r) + vr))]))
    whole = Cnt(f, o(r + 1), x) == base + If(S(en, r) == x, vr, 0)
    L.append(Lemma('copies of a whole block', FA(vs_ + [r, x], Implies(And(w, 0 <= r, r < N), whole), [(w, Cnt(f, o(r), x), S(en, r))]),
        [('all', [w, 0 <= r, r < N, *touch(o(r), o(r + 1), Cnt(f, o(r + 1), x))], whole)]))
    tot = lambda r: Cnt(f, o(r), x) == If(And(S(dom, x), S(pl, x) < r), S(va, x), 0)
    L.append(Lemma('the records before a block', FA(vs_ + [r, x], Implies(And(w, 0 <= r, r <= N), tot(r)), [(w, Cnt(f, o(r), x))]),
        [('none', [w, *touch(S(pl, x), o(iv(0)), Cnt(f, iv(0), x)), *tr(S(dom, x))], tot(iv(0))),
         ('one more', [w, 0 <= r, r < N, tot(r), *touch(o(r), o(r + 1), S(pl, x), S(pl, S(en, r)), S(va, S(en, r)), Cnt(f, o(r) + S(va, S(en, r)), x)), *tr(S(dom, x)), *tr(S(dom, S(en, r))), *tr(S(S(en, r), iv(0))), *tr(S(S(en, S(pl, x)), iv(0))), *tr(S(en, r) == x), *tr(And(0 <= S(pl, x), S(pl, x) < N))], tot(r + 1))]))
    L.append(Lemma('a data set that is written and read is the same', FA(vs_ + [x], Implies(w, Cnt(f, Rows(f), x) == If(S(dom, x), S(va, x), 0)), [(w, S(dom, x))]),
        [('same multiplicity', [w, *touch(Cnt(f, o(N), x), S(pl, x), Rows(f), o(iv(0)), o(N)), *tr(S(dom, x))], Cnt(f, Rows(f), x) == If(S(dom, x), S(va, x), 0))]))
    return []
def data_theory(*more):
    T = DataTheory()
    for p in (ax_touch, ax_rows) + more:
        T.extra_axioms += p(T)
    return T
UNITS = [
    (['C19'], lambda: Unit('records', list(BD), ['BinaryData'], data_theory, [Target(c_add())])),
    (['C19'], lambda: Unit('read data', list(BD), ['BinaryData'], data_theory, [Target(c_read())])),
    (['C19'], lambda: Unit('write data', list(BD), ['BinaryData'], lambda: data_theory(lem_off), [Target(c_write())], opts={'text': TEXT})),
    (['C19'], lambda: Unit('data round trip', list(BD), ['BinaryData'], lambda: data_theory(lem_off, ax_written, lem_round), [])),
]
