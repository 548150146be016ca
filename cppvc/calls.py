"""Calls: contracts, inlining, dynamic dispatch and models of the C++ standard
library containers the code uses."""
import z3
from .sym import *

class Executor(Exec):

    # ------------------------------------------------------------ resolution
    def callee_ref(self, n):
        f = n
        while f.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            f = f['inner'][0]
        return f

    def find_free(self, d):
        name = d.get('name')
        t = d.get('type', {}).get('qualType')
        c = [f for fs in self.prog.funcs.values() for f in fs if f.name == name and f.type == t]
        if not c:
            if self.prog.ensure(name):
                c = [f for fs in self.prog.funcs.values() for f in fs if f.name == name and f.type == t]
        if len(c) > 1:
            c2 = [f for f in c if f.cls is None]
            c = c2 if len(c2) == 1 else c
        if len(c) > 1 and len(set(f.qname for f in c)) == 1:
            c = c[:1]
        return c

    def contract_for(self, f):
        for c in self.contracts:
            if c.matches(f) and not getattr(c, 'inline', False):
                return c
        return None

    # ------------------------------------------------------------ calls
    def e_CallExpr(self, n):
        inner = n['inner']
        ref = self.callee_ref(inner[0])
        if ref['kind'] == 'DeclRefExpr':
            d = ref['referencedDecl']
            if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                name = d['name']
                r = self.theory.call(self, name, n, inner[1:], d)
                if r is not None:
                    return r
                c = self.find_free(d)
                if not c:
                    raise Unsupported('no body for function %s' % name)
                if len(c) > 1:
                    raise Unsupported('ambiguous function %s' % name)
                args = [self.ev(a) for a in inner[1:]]
                return self.call(c[0], None, args, n)
        raise Unsupported('call through %s' % ref['kind'])

    def arg_values(self, f, args):
        """bind evaluated args to the parameter kinds of f"""
        out = []
        for p, a in zip(f.params, args):
            t = parse(dty(p))
            if parse(ty(p))[0] == 'param':
                t = parse(ty(p))
            if is_ref(ty(p)) or is_ref(dty(p)):
                if isinstance(a, LV):
                    out.append(a)
                elif isinstance(a, (It, PairRef, Opaque, Lambda)):
                    out.append(self.read(a) if isinstance(a, PairRef) else a)
                else:
                    a = self.coerce(a, t)
                    out.append(self.new_local(t, p.get('name', 'ref'), a))
            else:
                a = self.rv(a)
                if isinstance(a, PairRef):
                    a = self.read(a)
                out.append(self.coerce(a, t))
        return out

    def call(self, f, this, args, n, allow_contract=True):
        args = self.arg_values(f, args)
        c = self.contract_for(f) if allow_contract else None
        if c is not None and not (f is self.func and c is self.contract and not self.recursive_ok(f)):
            return self.call_contract(f, c, this, args, n)
        return self.inline(f, this, args, n)

    def recursive_ok(self, f):
        return True

    def call_contract(self, f, c, this, args, n):
        if self.under_keys and c.modifies:
            raise NeedBranch()
        self.used_contracts.add(f.sig())
        if c.trusted:
            self.trusted_used.add(f.sig())
        old = self.st.copy()
        X = CallCtx(self, args, this, old, self.st, None)
        X.caller = self.X
        if f.node['kind'] == 'CXXConstructorDecl':
            self.last_ctor = X
            X.callee = f.name
        self.call_stack.append('call ' + f.name)
        for label, fm in c.requires(X):
            self.check(fm, 'pre', 'precondition of %s: %s' % (f.name, label))
        if c.decreases and self.contract is not None and self.contract.decreases and self.func.name == f.name:
            m1 = c.decreases(X)
            m0 = self.contract.decreases(CallCtx(self, self.X.args, self.X.this, self.entry_state, self.entry_state, None))
            self.check(z3.And(m1 < m0, m0 >= 0), 'decreases', 'recursion of %s decreases' % f.name)
        for m in c.modifies:
            if m[0] == 'new':
                # allocation of objects of the listed classes: what the heap
                # holds at references not in use before is unknown
                nx = z3.Int(self.fresh_name('next'))
                self.assume(nx >= self.st.next)
                r = z3.Int('nw!r')
                self.allocated |= set(m[1:])
                for key in list(self.st.heap):
                    if key[0] in m[1:] and key not in c.modifies:
                        cur = self.st.heap[key]
                        v = fresh_like(cur, self.fresh_name('N.%s.%s' % key))
                        self.st.heap[key] = v
                        for (pp, a), b in zip(flat(cur).items(), flat(v).values()):
                            self.assume(z3.ForAll([r], z3.Implies(r < old.next, z3.Select(b, r) == z3.Select(a, r)), patterns=[z3.Select(b, r)]))
                self.st.next = nx
            elif m[0] == 'arg':
                a = args[m[1]]
                lv = a.lv if isinstance(a, PyPtr) else a
                if not isinstance(lv, LV):
                    raise Unsupported('modified argument is not a location')
                cur = self.read(lv)
                v = fresh_like(cur, self.fresh_name(f.name + '.arg%d' % m[1]))
                if lv.t:
                    self.type_facts(v, lv.t)
                self.write(lv, v)
            elif m[0] == 'this':
                # a field of the object, or ('this', '*'): all of it
                lv = this
                if not isinstance(lv, LV):
                    lv = LV(('heap', self.root_class(f.cls), this), (), None)
                    if m[1] == '*':
                        raise Unsupported('contract may change every field')
                if m[1] != '*':
                    lv = lv.f(m[1], None)
                cur = self.read(lv)
                v = fresh_like(cur, self.fresh_name('%s.%s' % (f.name, m[1])))
                if lv.t:
                    self.type_facts(v, lv.t)
                self.write(lv, v)
            elif m[0] == 'ghost':
                g = self.st.ghost[m[1]]
                self.st.ghost[m[1]] = z3.Const(self.fresh_name(m[1]), g.sort())
            else:
                cur = self.heap_get(m[0], m[1])
                self.st.heap[m] = fresh_like(cur, self.fresh_name('H.%s.%s' % m))
        if c.ret is not None:
            # a function of its arguments: the contract names its value
            self.call_stack.pop()
            return c.ret(X)
        if self.in_binder:
            raise Unsupported('call of %s below a quantifier' % f.name)
        rt = f.rettype()
        res = None
        rtt = parse(rt)
        if rtt[0] == 'unknown' or (rtt[0] == 'cls' and rtt[1] not in self.prog.classes):
            rtt = parse(dty(n)) if n is not None else rtt
        if f.node['kind'] not in ('CXXConstructorDecl', 'CXXDestructorDecl') and rtt[0] != 'void':
            v = self.fresh(self.shapes.shape(rtt), 'r.' + f.name)
            self.type_facts(v, rtt)
            res = v
        X.res = res
        X.entry = old
        self.calls[f.name] = self.all_calls[f.name] = X
        X.outs = {o: z3.Const(self.fresh_name('out.' + o), so) for o, so in c.outs.items()}
        if c.outs:
            self.last_outs = X.outs
        for label, fm in c.ensures(X):
            self.assume(fm)
        self.call_stack.pop()
        if res is not None and is_ref(rt):
            return self.new_local(rtt, 'ret', res)
        return res

    def inline(self, f, this, args, n):
        if f.body is None:
            if f.node.get('explicitlyDefaulted'):
                return None
            raise Unsupported('no body for %s' % f.qname)
        if f in self.inline_stack or f is self.func:
            raise Unsupported('recursive function %s without contract' % f.qname)
        if len(self.inline_stack) > 25:
            raise Unsupported('inlining too deep')
        self.inlined.add(f.sig())
        save = (self.frame, self.this)
        nf = ('f', n['id'] if n else f.name, f.name, self.frame)
        saved_frames = self.lex_frames
        self.lex_frames = [nf]
        self.frame = nf
        self.this = this
        self.inline_stack.append(f)
        self.call_stack.append(f.name)
        self.ret_types.append(f.rettype() if f.node['kind'] not in ('CXXConstructorDecl', 'CXXDestructorDecl') else 'void')
        try:
            for p, a in zip(f.params, args):
                self.bind(p, a)
            try:
                if f.inits:
                    self.ctor_inits(f, this)
                self.stmt(f.body)
                res = None
            except ReturnEx as r:
                res = r.v
            return res
        finally:
            self.inline_stack.pop()
            self.call_stack.pop()
            self.ret_types.pop()
            self.frame, self.this = save
            self.lex_frames = saved_frames

    def bind(self, p, a):
        key = (self.frame, p['id'])
        t = parse(dty(p))
        if parse(ty(p))[0] == 'param':
            t = parse(ty(p))
        self.st.names[key] = p.get('name', '')
        self.st.types[key] = t
        self.st.vars[key] = Ref(a) if isinstance(a, LV) else a
        if isinstance(a, LV) and a.t:
            self.st.types[key] = a.t

    # ------------------------------------------------------------ constructors
    def ctor_inits(self, f, this):
        seen = set()
        for ini in f.inits:
            inner = ini.get('inner', [])
            if 'anyInit' in ini:
                fd = ini['anyInit']
                t = parse(fd['type'].get('desugaredQualType', fd['type']['qualType']))
                if parse(fd['type']['qualType'])[0] == 'param':
                    t = parse(fd['type']['qualType'])
                if inner:
                    v = self.rv(self.ev(inner[0]))
                    v = self.coerce(v, t)
                else:
                    v = self.default(t)
                if not isinstance(v, Opaque):
                    self.write(this.f(fd['name'], t), v)
            else:
                # base or delegating initialiser: run on the same object
                e = inner[0] if inner else None
                while e is not None and e.get('kind') in ('ExprWithCleanups',):
                    e = e['inner'][0]
                if e is None:
                    continue
                if e['kind'] == 'CXXConstructExpr':
                    self.construct_on(this, e)
                elif e['kind'] == 'CXXInheritedCtorInitExpr':
                    raise Unsupported('inherited constructor')

    def construct_on(self, lv, e):
        t = parse(dty(e))
        args = [self.ev(a) for a in e.get('inner', [])]
        f = self.find_ctor(t[1], e)
        if f is None:
            if not args:
                return
            raise Unsupported('constructor of %s' % t[1])
        a = self.arg_values(f, args)
        self.run_ctor(f, lv, a, e)

    def run_ctor(self, f, lv, a, e):
        c = self.contract_for(f)
        if c is not None and f is not self.func:
            self.call_contract(f, c, lv, a, e)
        else:
            self.inline(f, lv, a, e)

    def find_ctor(self, cls, e):
        ct = e.get('ctorType', {}).get('qualType')
        fs = [f for f in self.prog.funcs.get('%s::%s' % (cls, cls), []) if f.cls == cls]
        x = [f for f in fs if f.type == ct]
        if len(x) == 1:
            return x[0]
        n = len(e.get('inner', []))
        x = [f for f in fs if len(f.params) == n]
        if len(x) == 1:
            return x[0]
        return None

    def e_CXXConstructExpr(self, n):
        t = parse(dty(n))
        if parse(ty(n))[0] == 'param':
            t = parse(ty(n))
        args = [c for c in n.get('inner', [])]
        return self.construct(t, args, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, t, args, n):
        k = t[0]
        if k == 'param' and not self.opts.get('param_struct'):
            if not args:
                return self.theory.param_default(self)
            return self.val(args[0])
        if k == 'param':
            t = ('cls', 'PsddParameter')
            k = 'cls'
        if k == 'lambda':
            return self.ev(args[0])
        if k == 'iter':
            return self.val(args[0])
        if k == 'cls' and t[1] in self.prog.classes:
            if len(args) == 1:
                at = parse(dty(args[0]))
                if parse(ty(args[0]))[0] == 'param':
                    at = ('cls', 'PsddParameter')
                if at[0] == 'param':
                    at = ('cls', 'PsddParameter')
                if at == t:
                    return self.val(args[0])
            f = self.find_ctor(t[1], n)
            lv = self.new_local(t, 'obj', self.default(t))
            if f is None:
                if args:
                    raise Unsupported('constructor of %s' % t[1])
                return self.read(lv)
            a = self.arg_values(f, [self.ev(x) for x in args])
            self.run_ctor(f, lv, a, n)
            return self.read(lv)
        real = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if k == 'stream':
            return self.theory.stream_construct(self, [self.val(a) for a in real], dty(n))
        if not real:
            return self.default(t)
        if k in ('vec', 'map', 'set', 'queue', 'stack', 'bitset', 'mpz', 'string', 'real', 'int'):
            x = self.ev(real[0])
            a0t = x.t if isinstance(x, LV) else None
            v = self.rv(x)
            if k == 'vec':
                if isinstance(v, SV) and 'arr' in v.f and len(real) == 1:
                    return v
                if isinstance(v, It) and len(real) == 2:
                    return self.vec_from_range(v, self.val(real[1]), t)
                # (count[, value])
                val = self.val(real[1]) if len(real) > 1 else self.default(t[1])
                val = self.coerce(val, t[1])
                e = self.default(t)
                f = dict(e.f)
                f['len'] = v
                f['arr'] = map2(lambda a, b: z3.K(I, b), f['arr'], val)
                return SV(e.tag, f)
            if k in ('map', 'set'):
                if isinstance(v, SV) and 'dom' in v.f:
                    return v
                if isinstance(v, SV) and 'arr' in v.f and k == 'set':
                    return self.set_from_vec(v, t)
                if isinstance(v, It) and len(real) == 2:
                    r = self.val(real[1])
                    w = self.vec_from_range(v, r, ('vec', t[1]))
                    return self.set_from_vec(w, t)
            if k in ('bitset',):
                if z3.is_expr(v) and v.sort() != I:
                    return v
            if k in ('mpz', 'int', 'real'):
                return self.coerce(v, t)
            if k in ('queue', 'stack') and isinstance(v, SV):
                return v
            if k == 'string':
                return self.theory.string_construct(self, [v] + [self.val(a) for a in real[1:]])
            raise Unsupported('constructor of %s' % (t,))
        if k == 'pair':
            if len(real) == 1:
                v = self.val(real[0])
                return self.read(v) if isinstance(v, PairRef) else v
            a, b = self.val(real[0]), self.val(real[1])
            return SV(tstr(t), {'first': self.coerce(a, t[1]), 'second': self.coerce(b, t[2])})
        for a in real:
            self.ev(a)
        self.unmodelled.add('construction of %s' % (tstr(t) if k != 'unknown' else t[1]))
        return Opaque(t)

    def vec_from_range(self, a, b, t):
        if a.kind in ('fwd', 'rev') and b.kind == a.kind:
            v = self.read(a.lv)
            e = self.default(t)
            i = z3.Int('i')
            n = v.f['len']
            f = dict(e.f)
            f['len'] = b.pos - a.pos
            arr = self.fresh(self.shapes.shape(t), 'rng').f['arr']
            src = (lambda i: a.pos + i) if a.kind == 'fwd' else (lambda i: n - 1 - a.pos - i)
            def ax(x, y):
                self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.pos - a.pos), z3.Select(x, i) == z3.Select(y, src(i))), patterns=[z3.Select(x, i)]))
                return x
            f['arr'] = map2(ax, arr, v.f['arr'])
            return SV(e.tag, f)
        raise Unsupported('range constructor')

    def set_from_vec(self, v, t):
        ln = z3.simplify(v.f['len'])
        e = self.default(t)
        if z3.is_int_value(ln):
            if len(t) == 3 and ln.as_long() > 1:
                raise Unsupported('several elements for a set with a comparator')
            for i in range(ln.as_long()):
                e = self.set_insert(e, sel(v.f['arr'], z3.IntVal(i)))
            return e
        raise Unsupported('set built from a range')

    def e_InitListExpr(self, n):
        t = parse(dty(n))
        if parse(ty(n))[0] == 'param':
            t = parse(ty(n))
        items = n.get('inner', [])
        if t[0] in ('vec', 'carr') or (t[0] == 'unknown'):
            et = t[1] if t[0] in ('vec', 'carr') else parse(dty(items[0])) if items else ('int',)
            vt = ('vec', et)
            v = self.default(vt)
            for it in items:
                v = self.vec_push(v, self.coerce(self.rvp(self.ev(it)), et))
            return v
        if t[0] == 'pair' and len(items) == 2:
            return SV(tstr(t), {'first': self.coerce(self.val(items[0]), t[1]), 'second': self.coerce(self.val(items[1]), t[2])})
        if len(items) == 1:
            return self.ev(items[0])
        if not items:
            return self.default(t)
        raise Unsupported('initialiser list for %s' % (t,))

    def rvp(self, x):
        x = self.rv(x)
        return self.read(x) if isinstance(x, PairRef) else x

    # ------------------------------------------------------------ new/delete
    def e_CXXNewExpr(self, n):
        t = parse(dty(n))
        assert t[0] == 'ptr'
        t = t[1]
        inner = [c for c in n.get('inner', [])]
        if n.get('isArray'):
            raise Unsupported('new[]')
        if not inner:
            v = self.default(t)
        else:
            c = inner[-1]
            v = self.rvp(self.ev(c))
        if isinstance(v, Opaque):
            return self.alloc()
        if not self.theory.is_heap(self, t):
            return PyPtr(self.new_local(t, 'new', v))
        r = self.alloc()
        self.allocated.add(self.theory.heap_class(self, t))
        self.theory.on_new(self, t, r, v)
        self.last_new = r
        return r

    def e_CXXDeleteExpr(self, n):
        p = self.val(n['inner'][0])
        self.theory.on_delete(self, p, parse(dty(n['inner'][0])))
        return None

    def e_LambdaExpr(self, n):
        return Lambda(n, self.frame, self.this)

    def lambda_body(self, lam):
        for c in lam.node.get('inner', []):
            if c['kind'] == 'CXXRecordDecl':
                for m in c.get('inner', []):
                    if m['kind'] == 'CXXMethodDecl' and m.get('name') == 'operator()':
                        b = [x for x in m.get('inner', []) if x['kind'] == 'CompoundStmt']
                        ps = [x for x in m.get('inner', []) if x['kind'] == 'ParmVarDecl']
                        if b:
                            return ps, b[0]
                    if m['kind'] == 'FunctionTemplateDecl':
                        best = None
                        for s in m.get('inner', []):
                            if s['kind'] == 'CXXMethodDecl':
                                b = [x for x in s.get('inner', []) if x['kind'] == 'CompoundStmt']
                                ps = [x for x in s.get('inner', []) if x['kind'] == 'ParmVarDecl']
                                if b and not any('auto' in ty(p) for p in ps):
                                    best = (ps, b[0])
                        if best:
                            return best
        raise Unsupported('lambda body')

    def call_lambda(self, lam, args, n=None):
        ps, body = self.lambda_body(lam)
        save = (self.frame, self.this, self.lex_frames)
        nf = ('lam', lam.node['id'], self.frame)
        self.lex_frames = self.lex_frames + [lam.frame, nf]
        self.frame = nf
        self.this = lam.this
        self.call_stack.append('lambda')
        self.ret_types.append('auto')
        try:
            for p, a in zip(ps, args):
                if not is_ref(ty(p)):
                    a = self.rvp(a)
                self.bind(p, a)
            try:
                self.stmt(body)
                return None
            except ReturnEx as r:
                return r.v
        finally:
            self.call_stack.pop()
            self.ret_types.pop()
            self.frame, self.this, self.lex_frames = save

    def cur_rettype(self):
        t = self.ret_types[-1] if self.ret_types else (self.func.rettype() if self.func.node['kind'] not in ('CXXConstructorDecl', 'CXXDestructorDecl') else 'void')
        return t

    # ------------------------------------------------------------ member calls
    def e_CXXMemberCallExpr(self, n):
        callee = self.callee_ref(n['inner'][0])
        args = n['inner'][1:]
        if callee['kind'] != 'MemberExpr':
            raise Unsupported('member call through %s' % callee['kind'])
        base = callee['inner'][0]
        name = callee['name']
        bt = parse(dty(base))
        if parse(ty(base))[0] == 'param':
            bt = parse(ty(base))
        x = self.ev(base)
        arrow = callee.get('isArrow')
        if arrow:
            x = self.rv(x)
            if bt[0] == 'ptr':
                bt = bt[1]
            if isinstance(x, PyPtr):
                if x.lv.t is not None and bt[0] == 'unknown':
                    bt = x.lv.t
                x = x.lv
            elif isinstance(x, It):
                x = self.it_deref(x)
                bt = x.t if isinstance(x, LV) else bt
        if isinstance(x, LV) and x.t is not None and x.t[0] in ('vec', 'map', 'set', 'queue', 'stack', 'pair', 'bitset', 'param', 'mpz'):
            bt = x.t
        if isinstance(x, Opaque):
            for a in args:
                self.ev(a)
            self.unmodelled.add('method %s of %s' % (name, tstr(x.t) if x.t and x.t[0] != 'unknown' else x.t))
            r = self.theory.opaque_method(self, x, name, n)
            return r if r is not None else Opaque()
        return self.method(x, bt, name, args, n)

    def method(self, x, bt, name, args, n):
        k = bt[0]
        if k == 'param' and not self.opts.get('param_struct'):
            return self.theory.param_method(self, self.rv(x), name, [self.val(a) for a in args])
        if k == 'param':
            bt = ('cls', 'PsddParameter')
            k = 'cls'
        if k == 'bool' and name == 'operator bool':
            return x
        if k == 'bool' and name == 'flip':
            self.write(x, z3.Not(self.rv(x)))
            return x
        m = getattr(self, 'm_%s_%s' % (k, name.replace('operator[]', 'index')), None)
        if m:
            return m(x, args, n)
        if k == 'cls' and bt[1] in self.prog.classes:
            return self.user_method(x, bt[1], name, [self.ev(a) for a in args], n)
        r = self.theory.lib_method(self, x, bt, name, args, n)
        if r is None and k == 'cls':
            r = self.theory.user_method(self, x, bt[1], name, [self.ev(a) for a in args], n)
        if r is not None:
            return r
        raise Unsupported('method %s of %s' % (name, bt))

    def user_method(self, x, cls, name, args, n):
        root = self.root_class(cls)
        r = self.theory.user_method(self, x, cls, name, args, n)
        if r is not None:
            return r
        # the object: heap reference or local struct
        if isinstance(x, LV) and x.root[0] == 'heap' and not x.path:
            x = x.root[2]
        if isinstance(x, SV):
            x = self.new_local(('cls', cls), 'obj', x)
        nargs = len(args)
        if z3.is_expr(x):
            self.nonnull(x)
        # contract on a virtual interface
        decls = self.virtual_decls(cls, name, nargs)
        cands = self.prog.overrides(cls, name, nargs) if z3.is_expr(x) else []
        cands = [(c, f) for c, f in cands if self.args_match(f, args)]
        own = [f for f in self.prog.methods(cls, name, nargs) if self.args_match(f, args)]
        isvirt = any(f.virtual for f in decls) or any(self.prog.is_virtual(cls, name) for _ in [0])
        if not isvirt or not z3.is_expr(x) or not self.theory.is_dispatch(root):
            for f in own + decls:
                c = self.contract_for(f)
                if c is not None:
                    return self.call(f, x, args, n)
            if not own:
                raise Unsupported('no body for method %s::%s' % (cls, name))
            if len(own) > 1:
                own = self.disambiguate(own, n)
            return self.call(own[0], x, args, n)
        for f in decls:
            c = self.contract_for(f)
            if c is not None:
                return self.call(f, x, args, n)
        # dynamic dispatch over the concrete classes
        table = []
        for c in self.theory.concrete(self, cls):
            fs = [f for f in self.prog.methods(c, name, nargs) if self.args_match(f, args)]
            if not fs:
                raise Unsupported('no %s in %s' % (name, c))
            table.append((self.theory.dtype(x) == self.theory.class_id(c), fs[0]))
        table = [(g, f) for g, f in table if self.sat(g)]
        if not table:
            raise PathEnd()
        groups = []
        for g, f in table:
            for gr in groups:
                if gr[1] is f:
                    gr[0] = z3.Or(gr[0], g)
                    break
            else:
                groups.append([g, f])
        if len(groups) == 1:
            return self.call(groups[0][1], x, args, n)
        def all_():
            vals = []
            for g, f in groups:
                v = self.under(g, lambda: self.rv(self.call(f, x, args, n)))
                if not z3.is_expr(v) and not isinstance(v, SV):
                    raise NeedBranch()
                vals.append((g, v))
            r = vals[-1][1]
            for g, v in reversed(vals[:-1]):
                r = ite(g, v, r)
            return r
        ok, v = self.speculate(all_)
        if ok:
            return v
        for g, f in groups[:-1]:
            if self.branch(g):
                return self.call(f, x, args, n)
        return self.call(groups[-1][1], x, args, n)

    def virtual_decls(self, cls, name, nargs):
        out = []
        c = cls
        while c in self.prog.classes:
            out += [f for f in self.prog.decls.get(c + '::' + name, []) + self.prog.funcs.get(c + '::' + name, [])
                    if f.cls == c and len(f.params) == nargs]
            b = self.prog.classes[c]['bases']
            c = b[0] if b else None
        return out

    def args_match(self, f, args):
        for p, a in zip(f.params, args):
            t = parse(dty(p))
            if isinstance(a, LV) and a.t is not None:
                if (t[0] in ('vec', 'map', 'set', 'bitset', 'pair') or a.t[0] in ('vec', 'map', 'set', 'bitset', 'pair')) and t[0] != a.t[0]:
                    return False
            elif z3.is_expr(a) and t[0] in ('vec', 'map', 'set', 'pair'):
                return False
            elif isinstance(a, SV) and t[0] in ('int', 'bool', 'ptr', 'real'):
                return False
            elif isinstance(a, PyPtr) and t[0] not in ('ptr', 'unknown'):
                return False
        return True

    def disambiguate(self, fs, n):
        # overloads on constness only
        fs2 = [f for f in fs if f.const]
        t = dty(n)
        x = [f for f in fs if parse(f.rettype()) == parse(t) or parse(f.rettype()) == parse(ty(n))]
        if len(x) == 1:
            return x
        args = n['inner'][1:]
        def key(f):
            return [parse(dty(p)) for p in f.params] == [parse(dty(a)) for a in args]
        y = [f for f in (x or fs) if key(f)]
        if len(y) >= 1:
            return y
        return fs2 or fs

    # ------------------------------------------------------------ operators
    def e_CXXOperatorCallExpr(self, n):
        ref = self.callee_ref(n['inner'][0])
        op = ref.get('referencedDecl', {}).get('name', '').replace('operator', '')
        args = n['inner'][1:]
        a0t = parse(dty(args[0]))
        if parse(ty(args[0]))[0] == 'param':
            a0t = ('param',)
        if a0t[0] == 'param' and not self.opts.get('param_struct'):
            return self.param_op(op, args, n)
        if op == '()':
            f = self.ev(args[0])
            f = self.rv(f)
            if isinstance(f, Lambda):
                return self.call_lambda(f, [self.ev(a) for a in args[1:]], n)
            r = self.theory.functor(self, f, a0t, [self.ev(a) for a in args[1:]], n)
            if r is not None:
                return r
            if a0t[0] == 'cls' and a0t[1] in self.prog.classes:
                return self.user_method(self.ev(args[0]), a0t[1], 'operator()', [self.ev(a) for a in args[1:]], n)
            raise Unsupported('call operator')
        x = self.ev(args[0])
        xv = x.t if isinstance(x, LV) and x.t else a0t
        if op == '[]':
            return self.index_op(x, xv, self.val(args[1]), n)
        if op == '->':
            return self.rv(x)
        cur = self.rv(x)
        if isinstance(cur, Opaque) or xv[0] == 'opaque':
            for a in args[1:]:
                self.ev(a)
            r = self.theory.opaque_op(self, cur, op, n, args)
            return r if r is not None else cur
        if isinstance(cur, It):
            if op == '*':
                return self.it_deref(cur)
            if op in ('++', '--'):
                d = 1 if op == '++' else -1
                if cur.pos is None:
                    raise Unsupported('advancing a find() iterator')
                new = It(cur.lv, cur.kind, cur.pos + d, cur.key, cur.snap)
                self.write(x, new)
                return cur if len(args) > 1 else x
            if op in ('==', '!='):
                e = self.it_eq(cur, self.val(args[1]))
                return e if op == '==' else z3.Not(e)
            if op in ('+', '-', '<', '>', '<=', '>='):
                return self.arith(op, cur, self.val(args[1]))
            if op == '=':
                self.write(x, self.val(args[1]))
                return x
            if op in ('+=', '-='):
                self.write(x, self.arith(op[0], cur, self.val(args[1])))
                return x
            raise Unsupported('iterator operator ' + op)
        if op == '=':
            y = self.rvp(self.ev(args[1]))
            if isinstance(y, PyPtr):
                raise Unsupported('assigning a pointer')
            if isinstance(y, Opaque):
                if isinstance(x, LV) and x.t is not None and x.t[0] in ('vec', 'map', 'set', 'queue', 'stack', 'pair', 'bitset', 'param', 'mpz', 'int', 'real', 'bool', 'ptr', 'string'):
                    raise Unsupported('assignment of an unknown value')
                return x
            if isinstance(y, SV) and 'arr' in y.f and isinstance(x, LV) and x.t is not None and x.t[0] == 'set':
                y = self.set_from_vec(y, x.t)
            self.assign(x, y)
            return x
        if a0t[0] == 'cls' and a0t[1] in self.prog.classes or (a0t[0] == 'param'):
            cls = 'PsddParameter' if a0t[0] == 'param' else a0t[1]
            return self.user_method(x, cls, 'operator' + op, [self.ev(a) for a in args[1:]], n)
        if op in ('==', '!=') and xv[0] in ('pair', 'bitset'):
            y = self.rvp(self.ev(args[1]))
            e = eqv(self.rvp(x), y)
            return e if op == '==' else z3.Not(e)
        if xv[0] in ('mpz', 'int', 'bool', 'real', 'ptr') and not isinstance(cur, list):
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                v = self.arith(op[:-1], cur, self.val(args[1]))
                self.write(x, v)
                return x
            return self.arith(op, cur, self.val(args[1]), n)
        r = self.theory.lib_op(self, op, x, xv, args, n)
        if r is not None:
            return r
        raise Unsupported('operator%s on %s' % (op, xv))

    def param_op(self, op, args, n):
        x = self.ev(args[0])
        if op == '=':
            y = self.val(args[1])
            self.assign(x, y)
            return x
        a = self.rv(x)
        b = self.val(args[1])
        if op in ('+=', '*=', '/='):
            self.write(x, self.theory.param_arith(self, op[0], a, b))
            return x
        return self.theory.param_arith(self, op, a, b)

    def index_op(self, x, t, key, n):
        if isinstance(x, SV):
            x = self.new_local(t, 'tmp', x)
        k = t[0]
        if k == 'vec' or k == 'queue':
            v = self.read(x)
            self.check(z3.And(key >= 0, key < v.f['len']), 'bounds', 'vector index within bounds')
            return x.i(key, t[1])
        if k == 'bitset':
            return x.i(key, ('bool',))
        if k == 'map':
            return self.map_lookup(x, t, key)
        if k == 'string':
            return self.theory.string_at(self, x, key)
        if k == 'carr':
            return x.i(key, t[1])
        if isinstance(self.rv(x), Opaque):
            return Opaque()
        raise Unsupported('operator[] on %s' % (t,))

    def map_lookup(self, x, t, key):
        """m[key]: inserts a value-initialised element when absent"""
        v = self.read(x)
        dom = v.f['dom']
        ks = key_terms(key)
        has = self.seln(dom, ks)
        f = dict(v.f)
        hs = z3.simplify(has)
        if not z3.is_true(hs) and not self.implied(has):
            cur = sel(f['val'], key)
            d = self.default(t[2])
            f['val'] = sto(f['val'], key, ite(has, cur, d))
            f['size'] = z3.If(has, f['size'], f['size'] + 1)
            f['dom'] = sto(dom, key, z3.BoolVal(True))
            self.write(x, SV(v.tag, f))
        return x.i(key, t[2])

    def set_insert(self, v, key):
        f = dict(v.f)
        has = self.seln(f['dom'], key_terms(key))
        f['size'] = z3.If(has, f['size'], f['size'] + 1)
        f['dom'] = sto(f['dom'], key, z3.BoolVal(True))
        return SV(v.tag, f)

    # ------------------------------------------------------------ vector
    def vec_push(self, v, x):
        f = dict(v.f)
        idx = f['len'] if 'head' not in f else f['head'] + f['len']
        f['arr'] = sto(f['arr'], idx, x)
        if 'ix' in f:
            f['ix'] = z3.Store(f['ix'], x, idx)
        f['len'] = f['len'] + 1
        return SV(v.tag, f)

    def m_vec_size(self, x, a, n):
        return self.rv(x).f['len']
    def m_vec_empty(self, x, a, n):
        return self.rv(x).f['len'] == 0
    def m_vec_push_back(self, x, a, n):
        v = self.coerce(self.rvp(self.ev(a[0])), x.t[1])
        self.write(x, self.vec_push(self.read(x), v))
    def m_vec_emplace_back(self, x, a, n):
        if len(a) == 1:
            v = self.coerce(self.rvp(self.ev(a[0])), x.t[1])
        elif not a:
            v = self.default(x.t[1])
        elif x.t[1][0] == 'pair':
            v = SV(tstr(x.t[1]), {'first': self.val(a[0]), 'second': self.val(a[1])})
        else:
            raise Unsupported('emplace_back')
        self.write(x, self.vec_push(self.read(x), v))
        r = self.read(x)
        return x.i(r.f['len'] - 1, x.t[1])
    def m_vec_pop_back(self, x, a, n):
        v = self.read(x)
        self.check(v.f['len'] > 0, 'bounds', 'pop_back of a nonempty vector')
        self.write(x.f('len', ('int',)), v.f['len'] - 1)
    def m_vec_back(self, x, a, n):
        v = self.read(x)
        self.check(v.f['len'] > 0, 'bounds', 'back of a nonempty vector')
        return x.i(v.f['len'] - 1, x.t[1])
    def m_vec_front(self, x, a, n):
        v = self.read(x)
        self.check(v.f['len'] > 0, 'bounds', 'front of a nonempty vector')
        return x.i(z3.IntVal(0), x.t[1])
    def m_vec_at(self, x, a, n):
        return self.index_op(x, x.t, self.val(a[0]), n)
    def m_vec_clear(self, x, a, n):
        self.write(x.f('len', ('int',)), z3.IntVal(0))
    def m_vec_reserve(self, x, a, n):
        self.val(a[0])
    m_vec_shrink_to_fit = lambda self, x, a, n: None
    def m_vec_resize(self, x, a, n):
        nl = self.val(a[0])
        real = [b for b in a if b['kind'] != 'CXXDefaultArgExpr']
        d = self.coerce(self.val(real[1]), x.t[1]) if len(real) > 1 else self.default(x.t[1])
        v = self.read(x)
        l0 = z3.simplify(v.f['len'])
        f = dict(v.f)
        i = z3.Int('i')
        if z3.is_int_value(l0) and l0.as_long() == 0:
            f['arr'] = map2(lambda A, y: z3.K(I, y), f['arr'], d)
        else:
            f['arr'] = map2(lambda A, y: z3.Lambda([i], z3.If(i < l0, z3.Select(A, i), y)), f['arr'], d)
        f['len'] = nl
        self.write(x, SV(v.tag, f))
    def m_vec_assign(self, x, a, n):
        nl, d = self.val(a[0]), self.coerce(self.val(a[1]), x.t[1])
        v = self.read(x)
        f = dict(v.f)
        f['arr'] = map2(lambda A, y: z3.K(I, y), f['arr'], d)
        f['len'] = nl
        self.write(x, SV(v.tag, f))
    def m_vec_flip(self, x, a, n):
        v = self.read(x)
        nv = self.fresh(self.shapes.shape(x.t), 'flip')
        i = z3.Int('i')
        self.assume(z3.ForAll([i], z3.Select(nv.f['arr'], i) == z3.Not(z3.Select(v.f['arr'], i)), patterns=[z3.Select(nv.f['arr'], i)]))
        f = dict(v.f)
        f['arr'] = nv.f['arr']
        self.write(x, SV(v.tag, f))
    def tolv(self, x, t=None):
        if isinstance(x, LV):
            return x
        return self.new_local(t, 'tmp', x)
    def m_vec_begin(self, x, a, n):
        return It(x, 'fwd', z3.IntVal(0))
    m_vec_cbegin = m_vec_begin
    def m_vec_end(self, x, a, n):
        return It(x, 'fwd', self.read(x).f['len'])
    m_vec_cend = m_vec_end
    def m_vec_rbegin(self, x, a, n):
        return It(x, 'rev', z3.IntVal(0))
    m_vec_crbegin = m_vec_rbegin
    def m_vec_rend(self, x, a, n):
        return It(x, 'rev', self.read(x).f['len'])
    m_vec_crend = m_vec_rend
    def m_vec_insert(self, x, a, n):
        raise Unsupported('vector::insert')

    def m_mpz_get_mpz_t(self, x, a, n):
        return x

    # ------------------------------------------------------------ queue/stack
    def m_queue_push(self, x, a, n):
        v = self.coerce(self.rvp(self.ev(a[0])), x.t[1])
        self.write(x, self.vec_push(self.read(x), v))
    m_queue_emplace = m_queue_push
    m_queue_push_back = m_queue_push
    def m_queue_front(self, x, a, n):
        v = self.read(x)
        self.check(v.f['len'] > 0, 'bounds', 'front of a nonempty queue')
        return x.i(z3.IntVal(0), x.t[1])
    def m_queue_pop(self, x, a, n):
        v = self.read(x)
        self.check(v.f['len'] > 0, 'bounds', 'pop of a nonempty queue')
        f = dict(v.f)
        f['head'] = f['head'] + 1
        f['len'] = f['len'] - 1
        self.write(x, SV(v.tag, f))
    m_queue_pop_front = m_queue_pop
    def m_queue_push_front(self, x, a, n):
        v = self.coerce(self.rvp(self.ev(a[0])), x.t[1])
        q = self.read(x)
        h = q.f['head'] - 1
        f = dict(q.f, head=h, len=q.f['len'] + 1)
        f['arr'] = map2(lambda a, b: z3.Store(a, h, b), f['arr'], v)
        if 'ix' in f:
            f['ix'] = z3.Store(f['ix'], v, h)
        self.write(x, SV(q.tag, f))
    def m_queue_empty(self, x, a, n):
        return self.rv(x).f['len'] == 0
    m_queue_size = m_vec_size
    m_stack_size = m_vec_size
    def m_stack_push(self, x, a, n):
        v = self.coerce(self.rvp(self.ev(a[0])), x.t[1])
        self.write(x, self.vec_push(self.read(x), v))
    m_stack_emplace = m_stack_push
    m_stack_top = m_vec_back
    m_stack_pop = m_vec_pop_back
    m_stack_empty = m_vec_empty

    # ------------------------------------------------------------ map/set
    def m_map_find(self, x, a, n):
        return It(x, 'key', key=self.rvp(self.ev(a[0])))
    def set_less(self, t, x, y):
        q = t[2] + '::operator()'
        for c in self.contracts:
            if c.qname == q and c.ret is not None:
                self.used_contracts.add(q)
                return lambda a, b: c.ret(CallCtx(self, [a, b], None, self.st, self.st)), lambda a, b: c.requires(CallCtx(self, [a, b], None, self.st, self.st))
        raise Unsupported('set ordered by %s, which has no contract' % t[2])
    def set_locate(self, x, k):
        """an element equivalent to k under the set's comparator (k's place in
        the order), or a value outside the set when there is none"""
        if len(x.t) < 3:
            return k
        v = self.read(x)
        less, req = self.set_less(x.t, k, k)
        e = self.fresh(self.shapes.shape(x.t[1]), 'located')
        r = z3.Int('loc!r')
        dom = v.f['dom']
        for label, fm in [a for q in (req(r, k), req(k, r)) for a in q]:
            self.check(z3.ForAll([r], z3.Implies(z3.Select(dom, r), fm), patterns=[z3.Select(dom, r)]), 'pre', 'comparison with every element: %s' % label)
        eq = lambda a: z3.And(z3.Not(less(a, k)), z3.Not(less(k, a)))
        self.assume(z3.Implies(z3.Select(dom, e), eq(e)))
        self.assume(z3.Implies(z3.Not(z3.Select(dom, e)), z3.ForAll([r], z3.Implies(z3.Select(dom, r), z3.Not(eq(r))), patterns=[z3.Select(dom, r)])))
        return e
    def m_set_find(self, x, a, n):
        return It(x, 'key', key=self.set_locate(x, self.rvp(self.ev(a[0]))))
    def m_map_end(self, x, a, n):
        return It(x, 'end')
    m_set_end = m_map_end
    m_map_cend = m_map_end
    m_set_cend = m_map_end
    def m_map_begin(self, x, a, n):
        # begin() twice on one unmodified container gives one order
        v = self.read(x)
        one = lambda e: e.get_id() if z3.is_expr(e) else tuple(one(z) for z in e) if isinstance(e, tuple) else str(e)
        k = (one(x.root), one(x.path), tuple(e.get_id() for e in flat(v).values()))
        s = self.st.begins.get(k)
        if s is None:
            s = self.st.begins[k] = self.snapshot(x)
            s.keep = (v, x.root, x.path)
        return It(x, 'enum', z3.IntVal(0), snap=s)
    m_set_begin = m_map_begin
    m_map_cbegin = m_map_begin
    m_set_cbegin = m_map_begin
    def m_map_size(self, x, a, n):
        return self.rv(x).f['size']
    m_set_size = m_map_size
    def m_map_empty(self, x, a, n):
        v = self.rv(x)
        ks = leaves(self.shapes.shape(x.t[1])) if isinstance(x, LV) else None
        if ks:
            # the size is the number of keys
            kv = [z3.Const('emp!k%d' % j, s) for j, s in enumerate(ks)]
            d = self.seln(v.f['dom'], kv)
            self.assume(z3.Implies(v.f['size'] == 0, z3.ForAll(kv, z3.Not(d), patterns=[d])))
        return v.f['size'] == 0
    m_set_empty = m_map_empty
    def m_map_count(self, x, a, n):
        v = self.rv(x)
        return z3.If(self.seln(v.f['dom'], key_terms(self.rvp(self.ev(a[0])))), z3.IntVal(1), z3.IntVal(0))
    m_set_count = m_map_count
    def m_map_at(self, x, a, n):
        k = self.rvp(self.ev(a[0]))
        self.check(self.seln(self.read(x).f['dom'], key_terms(k)), 'bounds', 'map::at of a present key')
        return x.i(k, x.t[2])
    def m_map_insert(self, x, a, n):
        p = self.rvp(self.ev(a[0]))
        return self.map_put(x, p.f['first'], p.f['second'])
    def m_map_emplace(self, x, a, n):
        if len(a) == 2:
            return self.map_put(x, self.val(a[0]), self.val(a[1]))
        return self.m_map_insert(x, a, n)
    def map_put(self, x, k, w):
        v = self.read(x)
        f = dict(v.f)
        has = self.seln(f['dom'], key_terms(k))
        f['val'] = sto(f['val'], k, ite(has, sel(f['val'], k), self.coerce(w, x.t[2])))
        f['size'] = z3.If(has, f['size'], f['size'] + 1)
        f['dom'] = sto(f['dom'], k, z3.BoolVal(True))
        self.write(x, SV(v.tag, f))
        return SV('pair', {'first': It(x, 'key', key=k), 'second': z3.Not(has)})
    def m_set_insert(self, x, a, n):
        k = self.rvp(self.ev(a[0]))
        if isinstance(k, It):
            raise Unsupported('range insert')
        v = self.read(x)
        if len(x.t) == 3:
            e = self.set_locate(x, k)
            has = z3.Select(v.f['dom'], e)
            k = z3.If(has, e, k)
            self.write(x, self.set_insert(v, k))
            return SV('pair', {'first': It(x, 'key', key=k), 'second': z3.Not(has)})
        has = self.seln(v.f['dom'], key_terms(k))
        self.write(x, self.set_insert(v, k))
        return SV('pair', {'first': It(x, 'key', key=k), 'second': z3.Not(has)})
    m_set_emplace = m_set_insert
    def m_map_erase(self, x, a, n):
        it = self.rvp(self.ev(a[0]))
        v = self.read(x)
        f = dict(v.f)
        if isinstance(it, It):
            k = it.key if it.kind == 'key' else sel(it.snap.en, it.pos)
            self.check(self.seln(f['dom'], key_terms(k)), 'bounds', 'erase of a valid iterator')
            f['dom'] = sto(f['dom'], k, z3.BoolVal(False))
            f['size'] = f['size'] - 1
            self.write(x, SV(v.tag, f))
            if it.kind == 'enum':
                return It(it.lv, 'enum', it.pos + 1, None, it.snap)
            return It(x, 'end')
        has = self.seln(f['dom'], key_terms(it))
        f['size'] = z3.If(has, f['size'] - 1, f['size'])
        f['dom'] = sto(f['dom'], it, z3.BoolVal(False))
        self.write(x, SV(v.tag, f))
        return z3.If(has, z3.IntVal(1), z3.IntVal(0))
    m_set_erase = m_map_erase
    def m_map_clear(self, x, a, n):
        v = self.read(x)
        e = self.default(x.t)
        f = dict(v.f)
        f['dom'], f['size'] = e.f['dom'], e.f['size']
        self.write(x, SV(v.tag, f))
    m_set_clear = m_map_clear

    # ------------------------------------------------------------ bitset
    def m_bitset_set(self, x, a, n):
        a = [b for b in a if b['kind'] != 'CXXDefaultArgExpr']
        if not a:
            self.write(x, z3.K(I, z3.BoolVal(True)))
            return x
        i = self.val(a[0])
        self.bit_bound(i)
        b = self.val(a[1]) if len(a) > 1 else z3.BoolVal(True)
        if b.sort() == I:
            b = b != 0
        self.write(x, z3.Store(self.read(x), i, b))
        return x
    def m_bitset_reset(self, x, a, n):
        if not a:
            self.write(x, z3.K(I, z3.BoolVal(False)))
        else:
            i = self.val(a[0])
            self.bit_bound(i)
            self.write(x, z3.Store(self.read(x), i, z3.BoolVal(False)))
        return x
    def m_bitset_flip(self, x, a, n):
        i = self.val(a[0])
        self.write(x, z3.Store(self.read(x), i, z3.Not(z3.Select(self.read(x), i))))
        return x
    def m_bitset_test(self, x, a, n):
        return z3.Select(self.rv(x), self.val(a[0]))
    def bit_bound(self, i):
        self.theory.bit_bound(self, i)

def fresh_like(v, name):
    if isinstance(v, SV):
        return SV(v.tag, {n: fresh_like(x, name + '.' + n) for n, x in v.f.items()})
    return z3.Const(name, v.sort())
