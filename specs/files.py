"""PSDD files (C14): the written file lists the nodes, children before parents;
reading such a file gives a PSDD of the same structure."""
from .manager import *
from . import learn as LE
from cppvc.streams import StreamTheory, TextTheory, TEXT, num_text, word_text
from cppvc.theory import Opaque
CONT = ('TextFile', 'content')
A3 = z3.ArraySort(I, A_II)
WORD = word_text
# the line with these tokens describes node r, whose identifier is k; x: place of
# every node in the list of n nodes (the last one is written first)
NLine = fn('DescribesNode', I, A_II, I, I, A_II, I, B)
NLw = fn('DescribesNodeWitness', I, A_II, I, I, A_II, I, I)
Head = fn('HeaderWord', I, B)
def ident(x, n, r):
    return n - 1 - S(x, r)
def ax_line(T):
    c, t, k, r, x, n, e = z3.Int('c'), z3.Const('t', A_II), z3.Int('k'), z3.Int('r'), z3.Const('x', A_II), z3.Int('n'), z3.Int('e')
    p = NLine(c, t, k, r, x, n)
    w = NLw(c, t, k, r, x, n)
    num, tk = num_text, lambda j: S(t, iv(j) if isinstance(j, int) else j)
    first = lambda l: And(tk(0) == WORD(l), tk(1) == num(k), tk(2) == num(T.vpos(T.vt(r))))
    lit = And(first('L'), c == 4, tk(3) == num(T.lit(r)))
    top = And(first('T'), c == 6, tk(3) == num(T.tv(r)), tk(4) == num(T.lnf(T.fpar(r))), tk(5) == num(T.lnf(T.tpar(r))))
    el = lambda e: And(tk(4 + 3 * e) == num(ident(x, n, T.prime(r, e))), tk(5 + 3 * e) == num(ident(x, n, T.sub(r, e))), tk(6 + 3 * e) == num(T.lnf(T.par(r, e))))
    dec = And(first('D'), c == 4 + 3 * T.np(r), tk(3) == num(T.np(r)))
    V = [c, t, k, r, x, n]
    return [FA(V, Implies(p, And(Implies(T.dt(r) == 1, lit), Implies(T.dt(r) == 3, top), Implies(T.dt(r) == 2, dec))), [p]),
            FA(V + [e], Implies(And(p, T.dt(r) == 2, 0 <= e, e < T.np(r)), el(e)), [(p, T.prime(r, e)), (p, T.sub(r, e)), (p, T.par(r, e))]),
            FA(V, Implies(Or(And(T.dt(r) == 1, lit), And(T.dt(r) == 3, top), And(T.dt(r) == 2, dec, Implies(And(0 <= w, w < T.np(r)), el(w)))), p), [p]),
            Head(WORD('c')), Head(WORD('psdd'))]
class WriteTheory(TextTheory, PsddTheory):
    fields = dict(PsddTheory.fields)
    fields[CONT] = TEXT
def c_write():
    def s(L, X):
        return L.var('serialized_psdds', t=VEC)
    def text(L, entry=False):
        return L.var('psdd_content', t=('string',), entry=entry)
    def header(t, H):
        l = z3.Int('l')
        return ('header lines', FA([l], Implies(And(0 <= l, l < H), And(Head(S(S(t.f['tok'], l), iv(0))), S(t.f['cnt'], l) >= 1)), [S(t.f['tok'], l), S(t.f['cnt'], l)]))
    def lines(X, t, H, a, x, n, dn):
        r = z3.Int('r')
        k = ident(x, n, r)
        return ('lines of the nodes', FA([r], Implies(dn(r), NLine(S(t.f['cnt'], H + k), S(t.f['tok'], H + k), k, r, x, n)), [S(x, r)]))
    def marks(L, X, ss, k):
        r, u, u0 = z3.Int('r'), X.h(*UD), X.oh(*UD)
        return [('nodes so far have their identifiers', FA([r], Implies(done_suffix(ss, k, r), S(u, r) == ident(ss.f['ix'], ln(ss), r)), [S(u, r)])),
                ('other nodes are untouched', FA([r], Implies(And(r < X.entry.next, Not(done_suffix(ss, k, r))), S(u, r) == S(u0, r)), [S(u, r)]))]
    def body(L, X, o):
        ss, t = s(L, X), text(L)
        H = text(o, True).f['nl']
        X.ex.header = H
        a, x, n = ss.f['arr'], ss.f['ix'], ln(ss)
        return ss, t, H, [('lines so far', t.f['nl'] == H + o.k), header(t, H), lines(X, t, H, a, x, n, lambda r: done_suffix(ss, o.k, r)), ('the list', src_list(ss)[1])] + marks(o, X, ss, o.k)
    def outer(L, X):
        T = X.theory
        ss, t, H, out = body(L, X, L)
        h = []
        if L.phase == 'step':
            n = at(ss, ln(ss) - L.k)
            l = H + L.k - 1
            h = [('the line', NLine(S(t.f['cnt'], l), S(t.f['tok'], l), L.k - 1, n, ss.f['ix'], ln(ss)))]
        return h + [('identifiers count the nodes', L.var('node_index') == L.k), ('at the start of a line', And(S(t.f['cnt'], t.f['nl']) == 0, Not(t.f['open'])))] + out
    def inner(L, X):
        T, e = X.theory, z3.Int('e')
        o = L.outer[-1]
        ss, t, H, out = body(L, X, o)
        n = at(ss, ln(ss) - 1 - o.k)
        tok = S(t.f['tok'], t.f['nl'])
        tk = lambda j: S(tok, iv(j) if isinstance(j, int) else j)
        x, N = ss.f['ix'], ln(ss)
        return out + [('a decision node', And(T.wf(n), T.dt(n) == 2, L.k <= T.np(n))), ('tokens so far', And(S(t.f['cnt'], t.f['nl']) == 4 + 3 * L.k, t.f['open'])),
            ('the node', And(tk(0) == WORD('D'), tk(1) == num_text(o.k), tk(2) == num_text(T.vpos(T.vt(n))), tk(3) == num_text(T.np(n)))),
            ('elements so far', FA([e], Implies(And(0 <= e, e < L.k), And(tk(4 + 3 * e) == num_text(ident(x, N, T.prime(n, e))), tk(5 + 3 * e) == num_text(ident(x, N, T.sub(n, e))), tk(6 + 3 * e) == num_text(T.lnf(T.par(n, e))))), [T.prime(n, e), T.sub(n, e), T.par(n, e)]))]
    def req(X):
        T, r, e = X.theory, z3.Int('r'), z3.Int('e')
        return SER.root_ok(X, X.a(0)) + [('the source', SER.closed1(X, X.a(0))), ('source nodes exist and are clean', FA([r], Implies(S(QS, r), And(T.wf(r), r < X.entry.next, S(X.oh(*UD), r) == 0)), [S(QS, r)]))]
    def ens(X):
        o = X.outs
        c = sel(X.h(*CONT), X.a(1))
        return [('one line per node after the header', And(c.f['nl'] == o['H'] + o['n'], o['H'] >= 0)), header(c, o['H']), ('the nodes below the root, each once', LE.SerL(o['a'], o['x'], o['n'], X.a(0))),
                ('distinct nodes', FA([z3.Int('i')], Implies(And(0 <= z3.Int('i'), z3.Int('i') < o['n']), And(S(o['x'], S(o['a'], z3.Int('i'))) == z3.Int('i'), X.theory.wf(S(o['a'], z3.Int('i'))))), [S(o['a'], z3.Int('i'))])),
                lines(X, c, o['H'], o['a'], o['x'], o['n'], lambda r: And(0 <= S(o['x'], r), S(o['x'], r) < o['n'], S(o['a'], S(o['x'], r)) == r)), frame_ud(X)]
    def wit(X):
        ss = X.ex.all_calls['SerializePsddNodes'].res
        return {'a': ss.f['arr'], 'x': ss.f['ix'], 'n': ln(ss), 'H': X.ex.header}
    return Contract('psdd_node_util::WritePsddToFile', requires=req, ensures=ens, modifies=[CONT, UD], loops={'0': outer, '0.0': inner, '1': clear_loop(s)}, outs={'a': A_II, 'x': A_II, 'n': I, 'H': I}, wit=wit)
def write_theory():
    T = WriteTheory()
    for p in (ax_touch, ax_line, LE.ax_serl):
        T.extra_axioms += p(T)
    return T
# ------------------------------------------------------------------- reading
# the words of the lines of a file, and where reading finds them
FCnt = fn('WordsOfLine', I, I, I)
FTok = fn('LineWords', I, I, A_II)
WA = fn('WordAt', I, I, I)
First = fn('FirstCharacter', I, I)
IntTok, IntVal = fn('IsIntegerText', I, B), fn('IntegerText', I, I)
FRoot, FList, FPos, FNum, FHead = z3.Int('written_root'), z3.Const('written_list', A_II), z3.Const('written_places', A_II), z3.Int('written_nodes'), z3.Int('header_lines')
Rd = fn('ReadBack', I, I, B)                            # least relation with the introductions below
RdBy = fn('ReadBackBy', I, I, A_II, A_II, B)
LineAt, Lines = fn('LineAt', I, I, I), fn('Lines', I, I)
class ReadTheory(StreamTheory, MTheory):
    fields = dict(MTheory.fields)
    def line(self, f, i):
        return self.lineof(f, LineAt(f, i))
    def printed(self, p):
        """the parameter that is read from the text of the logarithm of p"""
        return self.expf(self.strtod(num_text(self.lnf(p))))
def ax_lex(T):
    f, i, j, x, w = z3.Int('f'), z3.Int('i'), z3.Int('j'), z3.Int('x'), z3.Real('w')
    ln_, s = T.line(f, i), T.rest(T.line(f, i), iv(1))
    tok = S(FTok(f, i), j + 1)
    inr = And(0 <= i, i < Lines(f))
    here = And(inr, 0 <= j, j + 1 < FCnt(f, i), *[Or(*[S(FTok(f, i), iv(0)) == WORD(c) for c in 'LTD'])])
    c = WA(s, j)
    return [FA([f], And(LineAt(f, iv(0)) == 0, Lines(f) >= 0), [Lines(f)]),
            FA([f, i], LineAt(f, i + 1) == T.linenext(f, LineAt(f, i)), [T.linenext(f, LineAt(f, i))]),
            FA([f, i], Implies(And(0 <= i, i <= Lines(f)), T.lineok(f, LineAt(f, i)) == (i < Lines(f))), [LineAt(f, i)]),
            FA([f, i], Implies(And(inr, FCnt(f, i) >= 1), T.char(ln_, iv(0)) == First(S(FTok(f, i), iv(0)))), [ln_]),
            And(First(WORD('c')) == ord('c'), First(WORD('psdd')) == ord('p'), First(WORD('L')) == ord('L'), First(WORD('T')) == ord('T'), First(WORD('D')) == ord('D')),
            FA([x], Implies(Head(x), Or(x == WORD('c'), x == WORD('psdd'))), [Head(x)]),
            FA([x], And(IntTok(num_text(x)), IntVal(num_text(x)) == x), [num_text(x)]),
            FA([f, i], WA(s, iv(0)) == 0, [s]),
            FA([w], T.expf(w) >= 0, [T.expf(w)]),           # of minus infinity it is zero
            FA([f, i, j], Implies(here, And(T.wordok(s, c), T.wordof(s, c) == tok, T.wordnext(s, c) == WA(s, j + 1))), [c]),
            FA([f, i, j], Implies(And(here, IntTok(tok)), And(T.intok(s, c), T.intof(s, c) == IntVal(tok), T.intnext(s, c) == WA(s, j + 1))), [c])]
def ax_read(T):
    y, n, i, p, q = z3.Int('y'), n_, i_, p_, q_
    inr = And(T.dt(n) == 2, 0 <= i, i < T.np(y))
    body = And(T.dt(y) == 2, T.dt(n) == 2, T.np(y) == T.np(n), *CT.perm_facts(p, q, T.np(n)))
    kids = FA([i], Implies(inr, And(Rd(T.prime(y, i), T.prime(n, S(p, i))), Rd(T.sub(y, i), T.sub(n, S(p, i))), T.par(y, i) == T.printed(T.par(n, S(p, i))))), [T.prime(y, i), T.sub(y, i), T.par(y, i)])
    by = RdBy(y, n, p, q)
    return [FA([y, n], Implies(And(T.dt(y) == 1, T.dt(n) == 1, T.lit(y) == T.lit(n)), Rd(y, n)), [Rd(y, n)]),
            FA([y, n], Implies(And(T.dt(y) == 3, T.dt(n) == 3, T.tv(y) == T.tv(n), T.tpar(y) == T.printed(T.tpar(n)), T.fpar(y) == T.printed(T.fpar(n))), Rd(y, n)), [Rd(y, n)]),
            FA([y, n, p, q], by, [by]), FA([y, n, p, q], Implies(And(body, kids), Rd(y, n)), [by])]
def c_read():
    MAP = ('map', ('int',), NODE)
    def listed(r):
        return And(0 <= S(FPos, r), S(FPos, r) < FNum, S(FList, S(FPos, r)) == r)
    def copy_of(X, y, r):
        T, m = X.theory, M(X, False)
        return And(S(m.mem, y), y > 0, T.vt(y) == Emb(T.vt(r)), T.flg(y) == X.a(1), Rd(y, r))
    def req(X):
        T, f, r, i = X.theory, X.theory.file(X.a(0)), z3.Int('r'), z3.Int('i')
        k = ident(FPos, FNum, r)
        return minv(X, True) + [('a root', T.wf(FRoot))] + source(X, ('the root', S(QS, FRoot)), True) + [
            ('the file opens', X.theory.opens(X.a(0))), ('its lines', And(FHead >= 0, Lines(f) == FHead + FNum)), ('the list of nodes', LE.SerL(FList, FPos, FNum, FRoot)),
            ('nodes of the list', FA([i], Implies(And(0 <= i, i < FNum), And(S(FPos, S(FList, i)) == i, S(QS, S(FList, i)))), [S(FList, i)])),
            ('header lines', FA([i], Implies(And(0 <= i, i < FHead), And(Head(S(FTok(f, i), iv(0))), FCnt(f, i) >= 1)), [FTok(f, i)])),
            ('lines of the nodes', FA([r], Implies(listed(r), NLine(FCnt(f, FHead + k), FTok(f, FHead + k), k, r, FPos, FNum)), [S(FPos, r)]))]
    def state(L, X, k):
        T, f, r = X.theory, X.theory.file(X.a(0)), z3.Int('r')
        st, cc, root = L.var('psdd_file', t=('stream',)), L.var('construct_cache', t=MAP), L.var('root_node', t=NODE)
        idn = ident(FPos, FNum, r)
        return grow(X) + [('reads the file', And(st.f['src'] == f, st.f['ok'])),
            ('nodes so far', FA([r], Implies(And(listed(r), FHead + idn < k), And(S(cc.f['dom'], idn), copy_of(X, S(cc.f['val'], idn), r))), [S(FPos, r)]))] + ([
            ('the last node', Implies(k > FHead, root == S(cc.f['val'], k - 1 - FHead)))] if root is not None else [])
    def cursor(L, X, k):
        f = X.theory.file(X.a(0))
        return ('at the next line', And(L.var('psdd_file', t=('stream',)).f['cur'] == LineAt(f, k), k <= Lines(f), *touch(Lines(f), LineAt(f, k))))
    def line_of(X, k):
        """the node of line k"""
        return S(FList, FNum - 1 - (k - FHead))
    def outer(L, X):
        T, f = X.theory, X.theory.file(X.a(0))
        h = []
        if L.phase == 'step':
            cc = L.var('construct_cache', t=MAP)
            k = L.k - 1
            n = line_of(X, k)
            y = S(cc.f['val'], k - FHead)
            h = [('the line', Implies(k >= FHead, And(listed(n), *touch(S(FPos, n)))))]
            c, g = X.ex.last_ctor, X.ex.calls.get('GetUniqueNode')
            if c is not None and c.callee == 'PsddDecisionNode' and g is not None:
                nn, res, o, i = X.ex.last_new, g.res, c.outs, z3.Int('i')
                pa, qa, wa = c.a(3), c.a(4), c.a(5)
                p, q = o['p'], o['q']
                inr = And(0 <= i, i < T.np(res))
                h += [('built', IsReq(nn, pa.f['arr'], qa.f['arr'], wa.f['arr'], ln(pa), p, q)), ('as built', And(Same(res, nn), T.np(res) == T.np(n), T.dt(n) == 2, T.dt(res) == 2)),
                      ('primes', FA([i], Implies(inr, Rd(T.prime(res, i), T.prime(n, S(p, i)))), [T.prime(res, i)])),
                      ('subs', FA([i], Implies(inr, Rd(T.sub(res, i), T.sub(n, S(p, i)))), [T.sub(res, i)])),
                      ('parameters', FA([i], Implies(inr, T.par(res, i) == T.printed(T.par(n, S(p, i)))), [T.par(res, i)])),
                      ('order of the elements', RdBy(res, n, p, q)), ('read back', Rd(res, n))]
            h.append(('this node', Implies(k >= FHead, And(S(cc.f['dom'], k - FHead), copy_of(X, y, n)))))
        n = line_of(X, L.k)
        soon = lambda x: Implies(And(FHead <= L.k, L.k < Lines(f)), x)
        here = [('the node to come', soon(And(S(FPos, n) == FNum - 1 - (L.k - FHead), S(QS, n)))), ('it is listed', soon(And(listed(n), T.wf(n), ident(FPos, FNum, n) == L.k - FHead))),
                ('the same line', soon(And(FCnt(f, L.k) == FCnt(f, FHead + ident(FPos, FNum, n)), FTok(f, L.k) == FTok(f, FHead + ident(FPos, FNum, n))))), ('its line, by place', soon(NLine(FCnt(f, FHead + ident(FPos, FNum, n)), FTok(f, FHead + ident(FPos, FNum, n)), ident(FPos, FNum, n), n, FPos, FNum))),
                ('its line', soon(NLine(FCnt(f, L.k), FTok(f, L.k), L.k - FHead, n, FPos, FNum)))]
        head = ('header or node', Implies(And(0 <= L.k, L.k < FHead), And(Head(S(FTok(f, L.k), iv(0))), FCnt(f, L.k) >= 1)))
        return h + [cursor(L, X, L.k)] + here + [head] + state(L, X, L.k)
    def inner(L, X):
        T, f, j = X.theory, X.theory.file(X.a(0)), z3.Int('j')
        o = L.outer[-1]
        n = line_of(X, o.k)
        s = T.rest(T.line(f, o.k), iv(1))
        iss = L.var('iss', t=('stream',))
        pr, su, pa = L.var('primes', t=VEC), L.var('subs', t=VEC), L.var('params', t=('vec', ('param',)))
        u = L.var('construct_cache', t=MAP).f['val']
        inr = And(0 <= j, j < L.k)
        pick = lambda r: S(u, ident(FPos, FNum, r))
        return [('a decision line', And(o.k >= FHead, listed(n), T.dt(n) == 2, T.wf(n), S(FTok(f, o.k), iv(0)) == WORD('D'), o.k < Lines(f), FCnt(f, o.k) == 4 + 3 * T.np(n))),
                ('so many elements', And(L.k <= T.np(n), L.var('element_size') == T.np(n), L.var('node_index') == o.k - FHead)),
                ('at the next element', And(iss.f['src'] == s, iss.f['ok'], iss.f['cur'] == WA(s, 3 + 3 * L.k), NLine(FCnt(f, o.k), FTok(f, o.k), o.k - FHead, n, FPos, FNum), *touch(WA(s, 4 + 3 * L.k), WA(s, 5 + 3 * L.k), WA(s, 6 + 3 * L.k), T.prime(n, L.k), T.sub(n, L.k), T.par(n, L.k)))),
                ('elements so far', And(ln(pr) == L.k, ln(su) == L.k, ln(pa) == L.k)),
                ('primes so far', FA([j], Implies(inr, And(at(pr, j) == pick(T.prime(n, j)), listed(T.prime(n, j)))), [at(pr, j), T.prime(n, j)])),
                ('subs so far', FA([j], Implies(inr, And(at(su, j) == pick(T.sub(n, j)), listed(T.sub(n, j)))), [at(su, j), T.sub(n, j)])),
                ('parameters so far', FA([j], Implies(inr, at(pa, j) == T.printed(T.par(n, j))), [at(pa, j), T.par(n, j)])),
                ('the file is at the next line', And(L.var('psdd_file', t=('stream',)).f['cur'] == LineAt(f, o.k + 1)))] + state(L, X, o.k)
    def ens(X):
        return grow(X) + [('the written PSDD with printed parameters', copy_of(X, X.res, FRoot))]
    return Contract('PsddManager::ReadPsddFile', requires=req, ensures=ens, modifies=MODS, loops={'0': outer, '0.0': inner})
def read_theory():
    T = ReadTheory()
    for p in (ax_touch, UQ.ax_shape, UQ.ax_same, UQ.ax_table, UQ.ax_wf_intro, UQ.ax_anc, ax_vtree, ax_sum, LE.ax_serl, ax_line, ax_lex, ax_read):
        T.extra_axioms += p(T)
    return T
UNITS = [
    (['C14', 'C22'], lambda: Unit('write psdd', list(NU.PN), NU.FILT, write_theory, [Target(c_write())], [SER.c_ser_root()], opts={'text': TEXT})),
    (['C14'], lambda: Unit('read psdd', list(MG), MFILT, read_theory, [Target(c_read())], [c_unique(), CT.c_ctor_decision(), c_literal(), c_top()])),
]
