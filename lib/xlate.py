"""Translates instantiated C++ function bodies (clang AST) to Verus functions over an explicit heap.

The translation is syntax-directed and works on the AST of the current tree; it contains no knowledge of
what a function is supposed to do.  Functions that have no contract of their own are inlined at the AST level.
Anything outside of the supported subset raises ExtractError: the function is then *undecided*, never proved."""
import re
from . import ast as A
from .ast import ExtractError, norm, tyof, qual, strip_cv

INT = {'unsigned long': 'u64', 'unsigned long long': 'u64', 'size_t': 'u64', 'std::size_t': 'u64', 'ttl::size_t': 'u64',
       'long': 'i64', 'long long': 'i64', 'ptrdiff_t': 'i64', 'std::ptrdiff_t': 'i64', 'ttl::ptrdiff_t': 'i64',
       'unsigned int': 'u32', 'unsigned': 'u32', 'int': 'i32', 'bool': 'bool', 'char': 'i8', 'signed char': 'i8',
       'unsigned char': 'u8', 'size_type': 'u64', 'difference_type': 'i64'}
SIGNED = {'i64', 'i32', 'i8'}
KEYWORDS = {'h', 'in', 'ref', 'type', 'move', 'fn', 'let', 'loop', 'match', 'impl', 'use', 'mod', 'self', 'ret', 'old',
            'final', 'pub', 'where', 'as', 'dyn', 'box', 'spec', 'proof', 'exec', 'int', 'nat', 'mut', 'crate', 'super',
            'h0', 'is', 'has', 'by', 'assert', 'assume', 'forall', 'exists', 'choose', 'open', 'closed', 'tracked', 'ghost', 'first_', 'priv',
            'requires', 'ensures', 'decreases', 'invariant', 'via', 'when', 'become', 'yield', 'try', 'virtual', 'final', 'macro', 'override', 'do', 'abstract', 'typeof', 'unsized', 'async', 'await'}
PASS_CASTS = {'NoOp', 'BitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay',
              'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion'}

class Family:
    """What the translator must know about memory layout; filled in by contracts/<family>.py"""
    name = ''
    elems = {'E'}
    pp = 'Edge'                       # how pointer-to-pointer types are represented
    def __init__(self, **kw):
        self.fields = {}              # (class regex, field name) -> spec ; see field()
        self.value_classes = []       # regexes
        self.opaque = []              # (regex on qualified function name, emitter)
        self.symbolic = {}            # NTTP name -> (rust text, type)
        self.elems = {'E'}
        self.pp = 'Edge'
        self.node_kinds = []          # (class regex, alloc fn, free fn)
        self.sizeof = []              # (regex on type/expr text, rust text)
        self.obj_locals = {}          # class regex -> (alloc stmt fn, free stmt fn)
        self.zone = {}
        self.__dict__.update(kw)
    def is_value(self, cls):
        return any(re.fullmatch(r, cls) for r in self.value_classes)

class Frame:
    def __init__(self, fn, this=None):
        self.fn = fn
        self.env = {}
        self.this = this
        self.mode = 'top'       # 'top' | 'simple' | 'flag'
        self.flag = None
        self.ret = None         # result (simple) or variable description (flag)
        self.rettype = None
        self.scopes = []        # cleanup scopes belonging to this frame

class Xlate:
    def __init__(self, tu, fam, contracts):
        self.tu, self.fam = tu, fam
        self.inlined = ()             # labels of functions under contract whose body is used all the same
        self.contracts = contracts    # canonical decl id -> Fn (with .label)
        self.typedefs = {}
        self._index_typedefs()

    def _index_typedefs(self):
        for d in self.tu.by_id.values():
            if d.get('kind') in ('TypedefDecl', 'TypeAliasDecl'):
                p = self.tu.parent.get(d['id'])
                if p is not None:
                    self.typedefs[(self.tu.qname.get(p['id']), d.get('name'))] = tyof(d)

    # ------------------------------------------------------------------ types
    def resolve_class(self, t, frame=None):
        t = strip_cv(norm(t))
        if t in self.fam.elems:
            return t
        if t in self.tu.records:
            return t
        if t.startswith('ttl::') is False and 'ttl::' + t in self.tu.records:
            return 'ttl::' + t
        ctx = []
        if frame is not None:
            o = self.tu.owner(frame.fn)
            while o:
                ctx.append(o)
                o = o.rsplit('::', 1)[0] if '::' in o and not o.endswith('>') else (None if '::' not in o else None)
            o = self.tu.owner(frame.fn) or ''
            # enclosing classes of nested classes
            depth = 0; cut = []
            for i, ch in enumerate(o):
                if ch == '<': depth += 1
                elif ch == '>': depth -= 1
                elif ch == ':' and depth == 0 and o[i:i+2] == '::': cut.append(i)
            for i in reversed(cut):
                ctx.append(o[:i])
        for c in ctx:
            q = c + '::' + t
            if q in self.tu.records:
                return q
            if (c, t) in self.typedefs:
                return self.resolve_class(self.typedefs[(c, t)], None)
            # inherited
            r = self.tu.records.get(c)
            if r:
                for b in r.get('bases', []):
                    bt = norm(b['type'].get('desugaredQualType') or b['type']['qualType'])
                    q = bt + '::' + t
                    if q in self.tu.records:
                        return q
                    if (bt, t) in self.typedefs:
                        return self.resolve_class(self.typedefs[(bt, t)], None)
        cands = [q for q in self.tu.records if q.endswith('::' + t)]
        if len(cands) == 1:
            return cands[0]
        # template arguments named relative to an enclosing class or namespace
        if '<' in t:
            cands = [q for q in self.tu.records if q.replace('ttl::', '') == t.replace('ttl::', '')]
            if len(cands) == 1:
                return cands[0]
            for c in ctx:
                def sub(m):
                    w = m.group(1)
                    if c + '::' + w in self.tu.records: return c + '::' + w
                    if (c, w) in self.typedefs: return self.typedefs[(c, w)]
                    return w
                q = t.split('<', 1)[0] + '<' + re.sub(r'(?<![\w:])(\w+)(?!\w|::|<)', sub, t.split('<', 1)[1])
                for q2 in (norm(q), 'ttl::' + norm(q)):
                    if q != t and q2 in self.tu.records:
                        return q2
            m = re.fullmatch(r'(?:ttl::)?(\w+)<(\w+), (\w+)>', t)
            if m:
                pat = r'(?:ttl::)?%s<(?:.*::)?%s, (?:.*::)?%s>' % m.groups()
                cands = [q for q in self.tu.records if re.fullmatch(pat, q)]
                if len(cands) == 1:
                    return cands[0]
        return None

    def kind(self, t, frame):
        """classify a C++ type: ('int',rty) ('ptr',) ('pp',) ('ref',inner) ('elem',cls) ('value',cls) ('obj',cls) ('void',)"""
        t = norm(t)
        if re.search(r'\(&\)\[\d+\]$', t):
            return ('ptr',)
        if t.endswith('&&'):
            return ('ref', t[:-2].strip())
        if t.endswith('&'):
            return ('ref', t[:-1].strip())
        t = strip_cv(t)
        if t == 'void':
            return ('void',)
        if re.search(r'\*\s*(const\s*)?\*$', t):
            return ('pp',)
        if t.endswith('*'):
            return ('ptr',)
        if t in INT:
            return ('int', INT[t])
        if t in self.fam.elems:
            return ('elem', t)
        for c in self._ctx(frame):
            if (c, t) in self.typedefs:
                return self.kind(self.typedefs[(c, t)], frame)
        c = self.resolve_class(t, frame)
        if c is None:
            raise ExtractError('unknown type %r' % t)
        if c in self.fam.elems:
            return ('elem', c)
        if self.fam.is_value(c):
            return ('value', c)
        return ('obj', c)

    def _ctx(self, frame):
        o = (self.tu.owner(frame.fn) if frame is not None else '') or ''
        out = [o]
        depth = 0; cut = []
        for i, ch in enumerate(o):
            if ch == '<': depth += 1
            elif ch == '>': depth -= 1
            elif ch == ':' and depth == 0 and o[i:i+2] == '::': cut.append(i)
        for i in reversed(cut):
            out.append(o[:i])
        return out

    def rty(self, k):
        if k[0] == 'int': return k[1]
        if k[0] == 'ptr': return 'Ptr'
        if k[0] == 'pp': return self.fam.pp
        if k[0] in ('elem', 'obj'): return 'Ptr'
        raise ExtractError('no rust type for %r' % (k,))

    def value_fields(self, cls):
        """flattened list of (path, rust type) of a value class, in declaration order, bases first"""
        rec = self.tu.records.get(cls)
        if rec is None:
            raise ExtractError('no definition of class ' + cls)
        out = []
        fr = Frame({'_rec': rec, '_ns': ''})
        for b in rec.get('bases', []):
            bt = self.resolve_class(norm(b['type'].get('desugaredQualType') or b['type']['qualType']), fr)
            if bt is None:
                raise ExtractError('unknown base of ' + cls)
            out.append((('base', bt), ('value', bt)))
        for f in self.tu.fields(rec):
            k = self.kind(tyof(f), fr)
            if k[0] == 'ref':
                k = ('ptr',)
            out.append((f['id'], k))
        return out

    def default_struct(self, cls, name):
        """declare fresh local variables for a value-class object; returns ('lst', [...], cls)"""
        lst = []
        for i, (fid, k) in enumerate(self.value_fields(cls)):
            nm = '%s_%d' % (name, i)
            if k[0] == 'value':
                lst.append(self.default_struct(k[1], nm))
            elif k[0] == 'elem':
                p = self.newlocal(nm, 'Ptr', 'e_stack(h)')
                self.cur_scope().append(('edrop', p))
                lst.append(('eslot', p))
            else:
                ty = self.rty(k)
                v = self.newlocal(nm, ty, self.arb(ty))
                lst.append(('lv', v, ty))
        return ('lst', lst, cls)

    # ------------------------------------------------------------------ emission
    def emit(self, s):
        self.lines.append('  ' * self.ind + s)

    def fresh(self, p='t'):
        self.ctr += 1
        return '%s%d' % (p + '_', self.ctr)

    def uname(self, n):
        n = re.sub(r'\W', '_', n or 'anon')
        if n in KEYWORDS or re.match(r't_\d+$', n):
            n += '_v'
        if n not in self.names:
            self.names[n] = 0
            return n
        self.names[n] += 1
        r = '%s_v%d' % (n, self.names[n])
        self.names.setdefault(r, 0)
        return r

    def newlocal(self, cname, ty, init):
        v = self.uname(cname)
        self.emit('let mut %s: %s = %s;' % (v, ty, init))
        self.locals.append((v, ty))
        return v

    def arb(self, ty):
        return {'Ptr': 'arb_ptr()', 'Edge': 'arb_edge()'}.get(ty, 'arb_%s()' % ty)

    def tmp(self, ty, text):
        v = self.fresh()
        self.emit('let %s: %s = %s;' % (v, ty, text))
        return v

    def cur_scope(self):
        return self.scopes[-1]

    def run_cleanup(self, scope):
        for c in reversed(scope):
            if c[0] == 'edrop':
                self.emit('e_stack_drop(h, %s);' % c[1])
            elif c[0] == 'stmt':
                self.emit(c[1])

    # ------------------------------------------------------------------ lvalues
    def load(self, lv, frame):
        k = lv[0]
        if k in ('s', 'st'):
            return lv
        if k == 'lv':
            if self.snap:
                return ('s', self.tmp(lv[2], lv[1]), lv[2])
            return ('s', lv[1], lv[2])
        if k == 'lst':
            return ('st', [self.load(x, frame) for x in lv[1]], lv[2])
        if k == 'fld':
            return ('s', self.tmp(lv[3], 'ld_%s(h, %s)' % (lv[1], lv[2])), lv[3])
        if k == 'edge':
            return ('s', self.tmp('Ptr', 'ld_edge(h, %s)' % lv[1]), 'Ptr')
        if k == 'cell':
            return ('s', self.tmp(lv[3], 'ld_%s(h, %s)' % (lv[2], lv[1])), lv[3])
        if k == 'idx':
            return ('s', self.tmp(lv[3], 'ldx_%s(h, %s, %s)' % (lv[1], lv[2], lv[4])), lv[3])
        raise ExtractError('load of %r' % (lv,))

    def store(self, lv, rv):
        k = lv[0]
        if k == 'lv':
            self.emit('%s = %s;' % (lv[1], rv[1]))
        elif k == 'lst':
            if rv[0] != 'st':
                raise ExtractError('struct store')
            for a, b in zip(lv[1], rv[1]):
                self.store(a, b)
        elif k == 'fld':
            self.emit('st_%s(h, %s, %s);' % (lv[1], lv[2], rv[1]))
        elif k == 'edge':
            self.emit('st_edge(h, %s, %s);' % (lv[1], rv[1]))
        elif k == 'cell':
            self.emit('st_%s(h, %s, %s);' % (lv[2], lv[1], rv[1]))
        elif k == 'idx':
            self.emit('stx_%s(h, %s, %s, %s);' % (lv[1], lv[2], lv[4], rv[1]))
        elif k == 'eslot':
            raise ExtractError('scalar store to element')
        else:
            raise ExtractError('store to %r' % (lv,))

    def addr(self, lv):
        """address of an lvalue as rust text + type"""
        if lv[0] in ('eslot', 'obj'):
            return ('s', lv[1], 'Ptr')
        if lv[0] == 'fld' and lv[3] == 'Ptr':
            return ('s', 'mk_edge_%s(%s)' % (lv[1], lv[2]), 'Edge')
        if lv[0] == 'edge':
            return ('s', lv[1], 'Edge')
        if lv[0] == 'cell':
            return ('s', lv[1], 'Ptr')
        if lv[0] == 'idx':
            return ('s', 'idx_addr_%s(%s, %s)' % (lv[1], lv[2], lv[4]), 'Ptr')
        if lv[0] == 'lv' and lv[2] == 'fnref':
            return lv
        if lv[0] == 'lst':
            return ('lstaddr', lv)
        raise ExtractError('address of %r' % (lv,))

    def deref(self, rv, t, frame):
        """*pointer : lvalue; t is the C++ type of the pointee"""
        if rv[0] == 'lstaddr':
            return rv[1]
        if rv[2] == 'Edge':
            return ('edge', rv[1])
        k = self.kind(t, frame)
        if k[0] == 'elem':
            return ('eslot', rv[1])
        if k[0] in ('obj', 'value'):
            if k[0] == 'value':
                # a value class living in memory is treated as an object of the family
                return ('obj', rv[1], k[1])
            return ('obj', rv[1], k[1])
        if k[0] == 'ptr':
            return ('cell', rv[1], self.fam.zone.get('ptrcell', 'cell'), 'Ptr')
        if k[0] == 'int':
            return ('cell', rv[1], self.fam.zone.get(k[1], 'w_' + k[1]), k[1])
        raise ExtractError('deref of %r' % (t,))

    def member(self, base, fdecl, frame):
        """base: lvalue (obj or lst) or struct rvalue"""
        fid = fdecl['id']
        rec = self.tu.parent.get(fid)
        cls = self.tu.qname.get(rec['id']) if rec is not None else None
        if base[0] in ('lst', 'st'):
            return self.smember(base, fid)
        if cls in self.fam.elems and base[0] in ('eslot', 'obj') and fdecl.get('name') in self.fam.zone.get('elem_members', {}):   # a member of an entry that is one element
            return ('eslot', self.fam.zone['elem_members'][fdecl['name']].format(base[1]))
        if base[0] != 'obj':
            raise ExtractError('member of %r of %s' % (base, cls))
        spec = self.field_spec(cls, fdecl, rec)
        p = base[1]
        fr = Frame({'_rec': rec, '_ns': ''})
        if spec[0] == 'off':
            return ('obj', self.offs(p, spec[1]), self.kind(tyof(fdecl), fr)[1])
        if spec[0] == 'eslot':
            return ('eslot', self.offs(p, spec[1]))
        if spec[0] == 'heap':
            return ('fld', spec[1], p, spec[2])
        if spec[0] == 'embed':     # in-object array; decays to a pointer
            self.raw_bytes(fdecl)
            return ('embed', self.offs(p, spec[1]))
        if spec[0] == 'words':     # in-object array of integers
            return ('words', spec[1], p, spec[2])
        if spec[0] == 'empty':
            return ('lst', [], self.kind(tyof(fdecl), fr)[1])
        raise ExtractError('field spec')

    def raw_bytes(self, fdecl):
        """a field that is an array of byte unions, each of the size of the element type"""
        t = tyof(fdecl)
        if 'union (' not in t:
            return False
        rec = self.tu.parent.get(fdecl['id'])
        us = [d for d in rec.get('inner', []) if d.get('kind') == 'CXXRecordDecl' and d.get('tagUsed') == 'union']
        if len(us) != 1:
            raise ExtractError('storage union')
        fs = [tyof(f) for f in us[0].get('inner', []) if f.get('kind') == 'FieldDecl']
        if fs != ['char[4]']:       # sizeof(E) in the instantiation
            raise ExtractError('storage union does not have the size of an element: %s' % fs)
        return True

    def offs(self, p, k):
        return p if k == 0 else 'poff(%s, %d)' % (p, k)

    def field_spec(self, cls, fdecl, rec):
        names = [f.get('name') for f in self.tu.fields(rec)]
        for (cre, fname), spec in self.fam.fields.items():
            if re.fullmatch(cre, cls) and fname == fdecl.get('name'):
                return spec
        # renamed field: by ordinal, if all other fields of the class match
        mine = [(fname, spec) for (cre, fname), spec in self.fam.fields.items() if re.fullmatch(cre, cls)]
        if len(mine) == len(names):
            i = names.index(fdecl.get('name'))
            if mine[i][0] not in names:
                return mine[i][1]
        raise ExtractError('unknown field %s::%s' % (cls, fdecl.get('name')))

    def smember(self, base, fid):
        cls = base[2]
        for i, (f, k) in enumerate(self.value_fields(cls)):
            if f == fid:
                return base[1][i]
        for i, (f, k) in enumerate(self.value_fields(cls)):
            if isinstance(f, tuple):
                try:
                    return self.smember(base[1][i], fid)
                except ExtractError:
                    pass
        # private member accessed through a class re-declaration: by name
        nm = self.tu.by_id[fid].get('name')
        rec = self.tu.records.get(cls)
        for i, (f, k) in enumerate(self.value_fields(cls)):
            if not isinstance(f, tuple) and self.tu.by_id[f].get('name') == nm:
                return base[1][i]
        raise ExtractError('no member %s in %s' % (nm, cls))

    def base_view(self, lv, cls):
        """view of a struct lvalue as its base class"""
        if lv[0] in ('lst', 'st') and lv[2] != cls:
            for i, (f, k) in enumerate(self.value_fields(lv[2])):
                if isinstance(f, tuple):
                    if f[1] == cls:
                        return lv[1][i]
        return lv

    # ------------------------------------------------------------------ expressions
    MUT = {'CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr', 'CompoundAssignOperator', 'CXXNewExpr', 'CXXDeleteExpr', 'CXXConstructExpr'}
    def has_mut(self, n):
        if not isinstance(n, dict):
            return False
        k = n.get('kind')
        if k in self.MUT:
            return True
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            return True
        if k == 'BinaryOperator' and n.get('opcode') == '=':
            return True
        return any(self.has_mut(c) for c in n.get('inner', []))

    def full(self, n, frame, want='r'):
        """full expression: temporaries are destroyed at its end"""
        old = self.snap
        self.snap = self.has_mut(n) and self.nontrivial_mut(n)
        self.scopes.append([])
        try:
            r = self.rv(n, frame) if want == 'r' else (self.lv(n, frame) if want == 'l' else self.ex(n, frame))
            sc = self.scopes.pop()
            if sc:
                if want == 'r' and r is not None:
                    r = self.pin(r)
                self.run_cleanup(sc)
        finally:
            self.snap = old
        return r

    def nontrivial_mut(self, n):
        # a single top-level ++/--/assignment of plain operands needs no snapshots
        while n.get('kind') in ('ExprWithCleanups', 'ParenExpr'):
            n = n['inner'][0]
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') in ('++', '--') and not any(self.has_mut(c) for c in n['inner']):
            return False
        if n.get('kind') in ('BinaryOperator', 'CompoundAssignOperator') and not any(self.has_mut(c) for c in n['inner']):
            return False
        return True

    def pin(self, r):
        if r[0] == 's':
            if re.fullmatch(r't_\d+|\d\w*|true|false', r[1]):
                return r
            return ('s', self.tmp(r[2], r[1]), r[2])
        if r[0] == 'st':
            return ('st', [self.pin(x) for x in r[1]], r[2])
        if r[0] == 'lv' or r[0] == 'lst':
            return r
        return r

    def is_lv(self, n):
        return n.get('valueCategory') in ('lvalue', 'xvalue')

    def lv(self, n, frame):
        r = self.ex(n, frame)
        return r

    def rv(self, n, frame):
        r = self.ex(n, frame)
        if r is None:
            return None
        if r[0] in ('s', 'st', 'lstaddr', 'fnptr'):
            return r
        if r[0] in ('eslot', 'obj'):
            return r            # element / object prvalues are represented by their address
        return self.load(r, frame)

    def ex(self, n, frame):
        m = getattr(self, 'x_' + n.get('kind', '?'), None)
        if m is None:
            raise ExtractError('unsupported expression ' + str(n.get('kind')))
        return m(n, frame)

    def x_ParenExpr(self, n, frame): return self.ex(n['inner'][0], frame)
    def x_ExprWithCleanups(self, n, frame): return self.ex(n['inner'][0], frame)
    def x_CXXBindTemporaryExpr(self, n, frame): return self.ex(n['inner'][0], frame)
    def x_ConstantExpr(self, n, frame): return self.ex(n['inner'][0], frame)
    def x_CXXDefaultArgExpr(self, n, frame):
        if n.get('inner'):
            return self.ex(n['inner'][0], frame)
        raise ExtractError('default argument')
    def x_SubstNonTypeTemplateParmExpr(self, n, frame):
        nm = None
        for c in n['inner']:
            if c.get('kind') == 'NonTypeTemplateParmDecl':
                nm = c.get('name')
        if nm is None:
            raise ExtractError('template constant')
        cls = self.tu.owner(frame.fn) or ''
        for key, (txt, ty) in self.fam.symbolic.items():
            if key == nm or (isinstance(key, tuple) and key[1] == nm and re.fullmatch(key[0], cls)):
                want = INT.get(norm(tyof(n)))
                if want and want != ty:
                    return ('s', self.tmp(want, '%s as %s' % (txt, want)), want)
                return ('s', txt, ty)
        # a value that is not symbolic: literal
        return self.rv(n['inner'][-1], frame)

    def x_IntegerLiteral(self, n, frame):
        ty = self.kind(tyof(n), frame)[1]
        return ('s', '%s%s' % (n['value'], ty), ty)
    def x_CharacterLiteral(self, n, frame):
        return ('s', '%di8' % int(n['value']), 'i8')
    def x_CXXBoolLiteralExpr(self, n, frame):
        return ('s', 'true' if n['value'] else 'false', 'bool')
    def x_CXXNullPtrLiteralExpr(self, n, frame): return ('s', 'pnull()', 'Ptr')
    def x_GNUNullExpr(self, n, frame): return ('s', 'pnull()', 'Ptr')
    def x_CXXThisExpr(self, n, frame):
        if frame.this is None:
            raise ExtractError('this')
        return self.addr(frame.this)

    def x_DeclRefExpr(self, n, frame):
        d = n['referencedDecl']
        if d['id'] in frame.env:
            return frame.env[d['id']]
        full = self.tu.by_id.get(d['id'])
        if d['kind'] == 'VarDecl' and full is not None:
            init = [c for c in full.get('inner', []) if 'kind' in c]
            if init and strip_cv(tyof(full)) in INT and 'const' in qual(full):
                return self.rv(init[-1], frame)
        if d['kind'] in A.TU.FN:
            return ('fnptr', d['id'])
        raise ExtractError('reference to %s' % d.get('name'))

    def x_MemberExpr(self, n, frame):
        did = n.get('referencedMemberDecl')
        d = self.tu.by_id.get(did)
        if d is None:
            raise ExtractError('member %s' % n.get('name'))
        if d['kind'] == 'FieldDecl':
            b = self.ex(n['inner'][0], frame)
            if n.get('isArrow'):
                b = self.rv_of(b, frame)
                if b[0] == 'lstaddr':
                    b = b[1]
                else:
                    b = ('obj', b[1], None)
            elif b[0] == 's':
                raise ExtractError('member of scalar')
            return self.member(b, d, frame)
        if d['kind'] == 'VarDecl':
            init = [c for c in d.get('inner', []) if 'kind' in c]
            if init:
                return self.rv(init[-1], frame)
        raise ExtractError('member %s' % n.get('name'))

    def rv_of(self, r, frame):
        if r[0] in ('s', 'st', 'lstaddr', 'fnptr', 'eslot', 'obj'):
            return r
        return self.load(r, frame)

    # ---- casts
    def x_ImplicitCastExpr(self, n, frame): return self.cast(n, frame)
    def x_CXXStaticCastExpr(self, n, frame): return self.cast(n, frame)
    def x_CXXConstCastExpr(self, n, frame): return self.cast(n, frame)
    def x_CXXReinterpretCastExpr(self, n, frame): return self.cast(n, frame)
    def x_CStyleCastExpr(self, n, frame): return self.cast(n, frame)
    def x_CXXFunctionalCastExpr(self, n, frame): return self.cast(n, frame)

    def cast(self, n, frame):
        ck = n.get('castKind')
        c = n['inner'][0]
        if ck == 'LValueToRValue':
            b = self.bare(c)
            if b.get('kind') == 'ConditionalOperator':
                return self.rv_of(self.x_ConditionalOperator(b, frame, True), frame)
            r = self.ex(c, frame)
            return self.rv_of(r, frame)
        if ck == 'ToVoid':
            self.ex(c, frame)
            return None
        if ck == 'NullToPointer':
            return ('s', 'pnull()', 'Ptr')
        if ck == 'IntegralToBoolean':
            r = self.rv(c, frame)
            if r[2] == 'bool': return r
            return ('s', '(%s != 0)' % r[1], 'bool')
        if ck == 'PointerToBoolean':
            r = self.rv(c, frame)
            return ('s', '!is_null(%s)' % r[1], 'bool')
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            r = self.rv(c, frame)
            return self.conv(r, self.kind(tyof(n), frame)[1])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            r = self.ex(c, frame)
            if r[0] in ('lst', 'st'):
                b = self.resolve_class(tyof(n), frame)
                return self.base_view(r, b)
            return r
        if ck == 'BaseToDerived':
            r = self.ex(c, frame)
            if r[0] in ('lst', 'st'):
                for full in self.struct_owners:
                    if self.base_view(full, r[2]) is r:
                        return full
                raise ExtractError('downcast of a value')
            return r
        if ck == 'ArrayToPointerDecay':
            r = self.ex(c, frame)
            if r[0] == 'embed':
                return ('s', r[1], 'Ptr')
            if r[0] == 'words':
                return ('s', 'idx_addr_%s(%s, 0u64)' % (r[1], r[2]), 'Ptr') if False else ('wptr', r)
            raise ExtractError('array decay')
        if ck in PASS_CASTS:
            r = self.ex(c, frame)
            return r
        raise ExtractError('cast ' + str(ck))

    def conv(self, r, ty):
        if r[2] == ty:
            return r
        m = re.fullmatch(r'(\d+)(u64|i64|u32|i32|i8|u8)', r[1])
        if m and ty != 'bool':
            return ('s', m.group(1) + ty, ty)
        if r[2] == 'bool':
            return ('s', '(if %s { 1%s } else { 0%s })' % (r[1], ty, ty), ty)
        widen = {('u32', 'u64'), ('i32', 'i64'), ('u32', 'i64'), ('i8', 'i32'), ('u8', 'i32'), ('u8', 'u32'), ('u8', 'u64'), ('i8', 'i64'), ('u8', 'i64')}
        if (r[2], ty) in widen:
            return ('s', '(%s as %s)' % (r[1], ty), ty)
        return ('s', 'cvt_%s_%s(%s)' % (r[2], ty, r[1]), ty)

    # ---- operators
    def x_UnaryOperator(self, n, frame):
        op = n['opcode']; c = n['inner'][0]
        if op in ('++', '--'):
            l = self.ex(c, frame)
            if l[0] not in ('lv', 'fld', 'cell', 'edge', 'idx'):
                raise ExtractError('++ of %r' % (l,))
            if l[0] != 'lv':
                l = self.pinlv(l)
            oldsnap = self.snap; self.snap = False
            cur = self.load(l, frame)
            self.snap = oldsnap
            if n.get('isPostfix'):
                cur = ('s', self.tmp(cur[2], cur[1]), cur[2])
            new = self.step(cur, op)
            self.store(l, new)
            return cur if n.get('isPostfix') else l
        if op == '*':
            r = self.rv(c, frame)
            if r[0] == 'wptr':
                w = r[1]
                return ('idx', w[1], w[2], w[3], '0u64')
            if r[0] == 'wat':
                w = r[1]
                return ('idx', w[1], w[2], w[3], r[2])
            return self.deref(r, tyof(n), frame)
        if op == '&':
            l = self.ex(c, frame)
            if l[0] == 'fnptr':
                return l
            return self.addr(l)
        r = self.rv(c, frame)
        if op == '!':
            return ('s', '!%s' % self.par(r[1]), 'bool')
        if op == '~':
            return ('s', '!%s' % self.par(r[1]), r[2])
        if op == '-':
            if r[2] in SIGNED:
                m = re.fullmatch(r'\(if (.*) \{ 1i32 \} else \{ 0i32 \}\)', r[1])
                return ('s', 'neg_%s(%s)' % (r[2], r[1]), r[2])
            return ('s', 'wneg_%s(%s)' % (r[2], r[1]), r[2])
        if op == '+':
            return r
        raise ExtractError('unary ' + op)

    def pinlv(self, l):
        if l[0] == 'fld' and not re.fullmatch(r'\w+', l[2]):
            return ('fld', l[1], self.tmp('Ptr', l[2]), l[3])
        if l[0] == 'edge' and not re.fullmatch(r'\w+', l[1]):
            return ('edge', self.tmp('Edge', l[1]))
        if l[0] == 'cell' and not re.fullmatch(r'\w+', l[1]):
            return ('cell', self.tmp('Ptr', l[1]), l[2], l[3])
        if l[0] == 'idx' and not re.fullmatch(r'\w+', l[4]):
            return ('idx', l[1], l[2], l[3], self.tmp('u64', l[4]))
        return l

    def par(self, t):
        return t if re.fullmatch(r'[\w.]+(\([^()]*\))?', t) or (t.startswith('(') and t.endswith(')')) else '(' + t + ')'

    def step(self, cur, op):
        ty = cur[2]
        one = 1
        if ty == 'Ptr':
            return ('s', 'padd(%s, %s)' % (cur[1], 'Ghost(1)' if op == '++' else 'Ghost(-1)'), ty)
        if ty in SIGNED:
            return ('s', '%s %s 1' % (cur[1], '+' if op == '++' else '-'), ty)
        return ('s', '%s_%s(%s, 1%s)' % ('wadd' if op == '++' else 'wsub', ty, cur[1], ty), ty)

    def arith(self, op, a, b, ty):
        if a[2] in ('Ptr',) and b[2] == 'Ptr':
            if op == '-':
                return ('s', 'pdiff(%s, %s)' % (a[1], b[1]), 'i64')
        if a[0] == 'wptr' and op == '+':
            return ('wat', a[1], self.conv(b, 'u64')[1])
        if a[2] == 'Ptr' or b[2] == 'Ptr':
            if a[2] != 'Ptr' and '(' in a[1]: a = ('s', self.tmp(a[2], a[1]), a[2])
            if b[2] != 'Ptr' and '(' in b[1]: b = ('s', self.tmp(b[2], b[1]), b[2])
        if a[2] == 'Ptr':
            return ('s', 'padd(%s, Ghost(%s(%s as int)))' % (a[1], '-' if op == '-' else '', b[1]), 'Ptr')
        if b[2] == 'Ptr' and op == '+':
            return ('s', 'padd(%s, Ghost(%s as int))' % (b[1], a[1]), 'Ptr')
        if op in ('+', '-', '*'):
            if ty in SIGNED:
                return ('s', '(%s %s %s)' % (a[1], op, b[1]), ty)
            return ('s', '%s_%s(%s, %s)' % ({'+': 'wadd', '-': 'wsub', '*': 'wmul'}[op], ty, a[1], b[1]), ty)
        if op in ('/', '%'):
            if ty in SIGNED:
                return ('s', '%s_%s(%s, %s)' % ('sdiv' if op == '/' else 'srem', ty, a[1], b[1]), ty)
            return ('s', '(%s %s %s)' % (a[1], op, b[1]), ty)
        if op in ('&', '|', '^'):
            return ('s', '(%s %s %s)' % (a[1], op, b[1]), ty)
        if op in ('<<', '>>'):
            return ('s', '%s_%s(%s, %s)' % ('shl' if op == '<<' else 'shr', ty, a[1], self.conv(b, 'u64')[1]), ty)
        raise ExtractError('binary ' + op)

    def compare(self, op, a, b):
        if a[0] == 's' and a[2] == 'Edge':
            t = 'edge_eq(%s, %s)' % (a[1], b[1])
            return ('s', t if op == '==' else '!' + t, 'bool')
        if a[0] == 's' and a[2] == 'Ptr':
            if op in ('==', '!='):
                if b[1] == 'pnull()': t = 'is_null(%s)' % a[1]
                elif a[1] == 'pnull()': t = 'is_null(%s)' % b[1]
                else: t = 'peq(%s, %s)' % (a[1], b[1])
                return ('s', t if op == '==' else '!' + t, 'bool')
            f = {'<': 'plt(%s, %s)' % (a[1], b[1]), '>': 'plt(%s, %s)' % (b[1], a[1]),
                 '<=': '!plt(%s, %s)' % (b[1], a[1]), '>=': '!plt(%s, %s)' % (a[1], b[1])}[op]
            return ('s', f, 'bool')
        if a[2] == 'bool':
            return ('s', '(%s %s %s)' % (a[1], op, b[1]), 'bool')
        return ('s', '(%s %s %s)' % (a[1], op, b[1]), 'bool')

    def x_BinaryOperator(self, n, frame):
        op = n['opcode']; ca, cb = n['inner']
        if op == ',':
            self.ex(ca, frame)
            return self.ex(cb, frame)
        if op in ('&&', '||'):
            a = self.rv(ca, frame)
            save = self.lines; self.lines = []; self.ind += 1
            b = self.rv(cb, frame)
            inner = self.lines; self.lines = save; self.ind -= 1
            if not inner:
                return ('s', '(%s %s %s)' % (a[1], op, b[1]), 'bool')
            v = self.fresh()
            self.emit('let mut %s: bool = %s;' % (v, a[1]))
            self.emit('if %s%s {' % ('' if op == '&&' else '!', v))
            self.lines += inner
            self.ind += 1; self.emit('%s = %s;' % (v, b[1])); self.ind -= 1
            self.emit('}')
            return ('s', v, 'bool')
        if op == '=':
            b = self.rv(cb, frame)         # right operand first (C++17)
            if b[0] == 's' and self.has_mut(ca):
                b = self.pin(b)
            a = self.ex(ca, frame)
            self.store(a, b)
            return a
        a = self.rv(ca, frame)
        b = self.rv(cb, frame)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b)
        ty = None
        if not (a[0] == 'wptr' or a[2] == 'Ptr' or b[2] == 'Ptr'):
            ty = self.kind(tyof(n), frame)[1]
        return self.arith(op, a, b, ty)

    def x_CompoundAssignOperator(self, n, frame):
        op = n['opcode'][:-1]; ca, cb = n['inner']
        b = self.rv(cb, frame)
        if self.has_mut(ca):
            b = self.pin(b)
        l = self.pinlv(self.ex(ca, frame))
        osn = self.snap; self.snap = False
        cur = self.load(l, frame)
        self.snap = osn
        if cur[2] == 'Ptr':
            self.store(l, self.arith(op, cur, b, None))
            return l
        ct = norm((n.get('computeResultType') or n['type']).get('desugaredQualType') or (n.get('computeResultType') or n['type'])['qualType'])
        cty = self.kind(ct, frame)[1]
        r = self.arith(op, self.conv(cur, cty), self.conv(b, cty) if op not in ('<<', '>>') else b, cty)
        self.store(l, self.conv(r, cur[2]))
        return l

    def bare(self, n):
        while n.get('kind') in ('ParenExpr', 'SubstNonTypeTemplateParmExpr') and n.get('inner'):
            n = n['inner'][-1]
        return n

    def x_ConditionalOperator(self, n, frame, value=False):
        c, a, b = n['inner']
        cv = self.rv(c, frame)
        m = re.fullmatch(r'\(?(\w+)\)?', cv[1])
        res = []
        for br in (a, b):
            save = self.lines; self.lines = []; self.ind += 1
            b0 = self.bare(br)
            if value and b0.get('kind') == 'ConditionalOperator':
                r = self.x_ConditionalOperator(b0, frame, True)
            else:
                r = self.ex(br, frame)
            if (value or not self.is_lv(n)) and r is not None and r[0] not in ('s', 'st', 'eslot', 'obj'):
                r = self.load(r, frame)
            res.append((r, self.lines))
            self.lines = save; self.ind -= 1
        (ra, la), (rb, lb) = res
        if ra is None:
            self.emit('if %s {' % cv[1]); self.lines += la; self.emit('} else {'); self.lines += lb; self.emit('}')
            return None
        if ra[0] == rb[0] == 'fld' and ra[1] == rb[1]:
            flat_a, flat_b = [(ra[2], 'Ptr')], [(rb[2], 'Ptr')]
        else:
            flat_a, flat_b = self.flat(ra), self.flat(rb)
        if len(flat_a) != len(flat_b):
            raise ExtractError('conditional')
        if not la and not lb and len(flat_a) == 1:
            return self.unflat(ra, ['(if %s { %s } else { %s })' % (cv[1], flat_a[0][0], flat_b[0][0])])
        vs = []
        for (ta, tya), (tb, tyb) in zip(flat_a, flat_b):
            v = self.fresh()
            self.emit('let mut %s: %s = %s;' % (v, tya, self.arb(tya)))
            vs.append(v)
        self.emit('if %s {' % cv[1])
        self.lines += la
        self.ind += 1
        for v, (ta, _) in zip(vs, flat_a): self.emit('%s = %s;' % (v, ta))
        self.ind -= 1
        self.emit('} else {')
        self.lines += lb
        self.ind += 1
        for v, (tb, _) in zip(vs, flat_b): self.emit('%s = %s;' % (v, tb))
        self.ind -= 1
        self.emit('}')
        return self.unflat(ra, vs)

    def flat(self, r):
        """flatten an rvalue/address lvalue into a list of (text, type)"""
        if r[0] == 's': return [(r[1], r[2])]
        if r[0] in ('eslot', 'obj'): return [(r[1], 'Ptr')]
        if r[0] == 'edge': return [(r[1], 'Edge')]
        if r[0] == 'lv': return [(r[1], r[2])]
        if r[0] in ('st', 'lst'):
            out = []
            for x in r[1]: out += self.flat(x)
            return out
        raise ExtractError('cannot merge %r' % (r,))

    def unflat(self, shape, vs):
        vs = list(vs)
        def go(s):
            if s[0] == 's': return ('s', vs.pop(0), s[2])
            if s[0] == 'lv': return ('s', vs.pop(0), s[2])
            if s[0] == 'eslot': return ('eslot', vs.pop(0))
            if s[0] == 'fld': return ('fld', s[1], vs.pop(0), s[3])
            if s[0] == 'edge': return ('edge', vs.pop(0))
            if s[0] == 'obj': return ('obj', vs.pop(0), s[2])
            if s[0] in ('st', 'lst'): return ('st', [go(x) for x in s[1]], s[2])
            raise ExtractError('unflat')
        return go(shape)

    def x_ArraySubscriptExpr(self, n, frame):
        a = self.rv(n['inner'][0], frame)
        i = self.rv(n['inner'][1], frame)
        if a[0] == 'wptr':
            w = a[1]
            return ('idx', w[1], w[2], w[3], self.conv(i, 'u64')[1])
        return self.deref(self.arith('+', a, i, None), tyof(n), frame)

    def x_UnaryExprOrTypeTraitExpr(self, n, frame):
        if n.get('name') != 'sizeof':
            raise ExtractError(n.get('name'))
        if n.get('argType'):
            t = norm(n['argType'].get('desugaredQualType') or n['argType']['qualType'])
            key = 'type:' + t
        else:
            t = self.textof(n['inner'][0])
            key = 'expr:' + t
        full = key.replace('expr:', 'expr:%s::' % (self.tu.owner(frame.fn) or ''))
        for rx, txt in self.fam.sizeof:
            if re.fullmatch(rx, key) or re.fullmatch(rx, full):
                return ('s', txt, 'u64')
        raise ExtractError('sizeof ' + key)

    def textof(self, n):
        k = n.get('kind')
        if k == 'ParenExpr': return self.textof(n['inner'][0])
        if k == 'ImplicitCastExpr': return self.textof(n['inner'][0])
        if k == 'MemberExpr': return n.get('name')
        if k == 'UnaryOperator': return n['opcode'] + self.textof(n['inner'][0])
        if k == 'DeclRefExpr': return n['referencedDecl'].get('name')
        return k

    # ---- element temporaries and class values
    def into_elem(self, n, dst, frame):
        """construct the element prvalue n into raw slot dst"""
        k = n.get('kind')
        if k in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr', 'CXXFunctionalCastExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr') and n.get('castKind') in (None, 'NoOp', 'ConstructorConversion'):
            return self.into_elem(n['inner'][0], dst, frame)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXScalarValueInitExpr'):
            args = [c for c in n.get('inner', []) if 'kind' in c]
            if not args:
                self.emit('e_ctor_default(h, %s);' % dst)
                return
            if len(args) == 1:
                a = self.ex(args[0], frame)
                if a[0] == 'eslot':
                    if a[1].startswith('sec(') and self.fam.zone.get('second_copy'):     # second member of an element
                        self.emit('%s(h, %s, %s);' % (self.fam.zone['second_copy'], dst, a[1][4:-1]))
                        return
                    self.emit('e_ctor_copy(h, %s, %s);' % (dst, a[1]))
                    return
            if self.fam.zone.get('elem_ctor'):
                return self.fam.zone['elem_ctor'](self, n, dst, args, frame)
            raise ExtractError('element constructor')
        if k in ('CallExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr'):
            self.elem_dst.append(dst)
            r = self.ex(n, frame)
            if self.elem_dst and self.elem_dst[-1] is dst:
                self.elem_dst.pop()
                if r is not None and r[0] == 'eslot':
                    self.emit('e_ctor_copy(h, %s, %s);' % (dst, r[1]))
                    return
                raise ExtractError('element result')
            return
        if k == 'ConditionalOperator':
            c, a, b = n['inner']
            cv = self.rv(c, frame)
            self.emit('if %s {' % cv[1]); self.ind += 1
            self.into_elem(a, dst, frame)
            self.ind -= 1; self.emit('} else {'); self.ind += 1
            self.into_elem(b, dst, frame)
            self.ind -= 1; self.emit('}')
            return
        raise ExtractError('element prvalue ' + str(k))

    def x_MaterializeTemporaryExpr(self, n, frame):
        k = self.kind(tyof(n), frame)
        if k[0] == 'elem':
            t = self.newlocal('etmp', 'Ptr', 'e_stack(h)')
            self.into_elem(n['inner'][0], t, frame)
            self.tempscope(n).append(('edrop', t))
            return ('eslot', t)
        if k[0] == 'value':
            r = self.ex(n['inner'][0], frame)
            return self.as_struct_lv(r, frame)
        if k[0] in ('int', 'ptr', 'pp'):
            r = self.rv(n['inner'][0], frame)
            ty = self.rty(k)
            v = self.fresh()
            self.emit('let mut %s: %s = %s;' % (v, ty, r[1]))
            return ('lv', v, ty)
        if k[0] == 'obj':
            r = self.ex(n['inner'][0], frame)
            ce = n['inner'][0]
            while ce.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'ParenExpr'):
                ce = ce['inner'][0]
            if ce.get('kind') in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                # the result of a call: an object that ends with the full expression
                for rx, (al, dr) in self.fam.obj_locals.items():
                    if re.fullmatch(rx, k[1]):
                        v = r[1] if re.fullmatch(r'\w+', r[1]) else self.tmp('Ptr', r[1])
                        self.tempscope(n).append(('stmt', dr % v))
                        return ('obj', v, k[1])
            return r
        raise ExtractError('temporary of ' + tyof(n))

    def tempscope(self, n):
        if self.extend is not None:
            return self.extend
        return self.cur_scope()

    def as_struct_lv(self, r, frame):
        if r[0] == 'lst':
            return r
        if r[0] == 'st':
            out = []
            for x in r[1]:
                if x[0] == 's':
                    v = self.fresh()
                    self.emit('let mut %s: %s = %s;' % (v, x[2], x[1]))
                    out.append(('lv', v, x[2]))
                elif x[0] in ('st', 'lst'):
                    out.append(self.as_struct_lv(x, frame))
                else:
                    out.append(x)
            return ('lst', out, r[2])
        raise ExtractError('struct temporary %r' % (r,))

    def x_CXXTemporaryObjectExpr(self, n, frame): return self.x_CXXConstructExpr(n, frame)
    def x_CXXScalarValueInitExpr(self, n, frame): return self.zero_init(n, frame)
    def x_ImplicitValueInitExpr(self, n, frame): return self.zero_init(n, frame)
    def zero_init(self, n, frame):
        k = self.kind(tyof(n), frame)
        if k[0] == 'int': return ('s', 'false' if k[1] == 'bool' else '0' + k[1], k[1])
        if k[0] == 'ptr': return ('s', 'pnull()', 'Ptr')
        raise ExtractError('value init')

    def x_CXXConstructExpr(self, n, frame):
        k = self.kind(tyof(n), frame)
        args = [c for c in n.get('inner', []) if 'kind' in c]
        if k[0] == 'elem':
            # prvalue element used without materialization: give it a slot
            t = self.newlocal('earg', 'Ptr', 'e_stack(h)')
            self.into_elem(n, t, frame)
            self.cur_scope().append(('edrop', t))
            return ('eslot', t)
        if k[0] == 'value':
            return self.construct_value(k[1], n, args, frame)
        if k[0] == 'obj':
            for rx, (al, dr) in self.fam.obj_locals.items():
                if re.fullmatch(rx, k[1]):
                    t = self.tmp('Ptr', al)
                    self.construct_obj(k[1], n, args, t, frame)
                    self.cur_scope().append(('stmt', dr % t))
                    return ('obj', t, k[1])
        raise ExtractError('construction of ' + tyof(n))

    def find_ctor(self, cls, n):
        rec = self.tu.records.get(cls)
        want = norm(n['ctorType']['qualType']).replace(' noexcept', '')
        cands = []
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXConstructorDecl':
                cands.append(c)
            elif c.get('kind') == 'FunctionTemplateDecl':
                cands += [x for x in c.get('inner', []) if x.get('kind') == 'CXXConstructorDecl']
        hit = [c for c in cands if norm(c['type']['qualType']).replace(' noexcept', '') == want]
        if len(hit) > 1:
            hit2 = [c for c in hit if self.tu.definition(c['id'])]
            hit = hit2 or hit
        if not hit:
            raise ExtractError('constructor %s of %s' % (want, cls))
        return hit[0]

    def trivially_copied(self, ctor):
        return ctor.get('isImplicit') or ctor.get('explicitlyDefaulted')

    def construct_value(self, cls, n, args, frame):
        ctor = self.find_ctor(cls, n)
        if self.trivially_copied(ctor) and len(args) == 1:
            r = self.ex(args[0], frame)
            if r[0] in ('lst', 'st'):
                return ('st', [self.rv_of(x, frame) for x in r[1]], r[2])
            raise ExtractError('copy of %s' % cls)
        if self.trivially_copied(ctor) and not args:
            return self.load(self.default_struct(cls, self.fresh('z')), frame)
        d = self.tu.definition(ctor['id']) or ctor
        obj = self.build_value(cls, d, args, frame)
        return obj

    def build_value(self, cls, d, args, frame, into=None):
        """run constructor d for a fresh value-class object; returns struct rvalue"""
        fr = Frame(d)
        self.bind_params(d, args, frame, fr)
        vals = [None] * len(self.value_fields(cls))
        fl = self.value_fields(cls)
        for c in d.get('inner', []):
            if c.get('kind') == 'CXXCtorInitializer':
                e = [x for x in c.get('inner', []) if 'kind' in x]
                if c.get('anyInit'):
                    fid = c['anyInit']['id']
                    idx = [i for i, (f, k) in enumerate(fl) if f == fid]
                    if not idx:
                        nm = c['anyInit'].get('name')
                        idx = [i for i, (f, k) in enumerate(fl) if not isinstance(f, tuple) and self.tu.by_id[f].get('name') == nm]
                    i = idx[0]
                    k = fl[i][1]
                    fdecl = self.tu.by_id[fl[i][0]]
                    fty = self.kind(tyof(fdecl), Frame({'_rec': self.tu.records[cls], '_ns': ''}))
                    if k[0] == 'elem':
                        t = self.newlocal('m_' + (fdecl.get('name') or 'anon'), 'Ptr', 'e_stack(h)')
                        self.into_elem(e[0], t, fr)
                        self.val_scope().append(('edrop', t))
                        vals[i] = ('eslot', t)
                    elif fty[0] == 'ref':
                        vals[i] = self.addr(self.ex(e[0], fr))
                    else:
                        r = self.rv(e[0], fr)
                        vals[i] = self.pin(r) if r[0] in ('s', 'st') else r
                elif c.get('baseInit'):
                    bt = self.resolve_class(norm(c['baseInit'].get('desugaredQualType') or c['baseInit']['qualType']), fr)
                    i = [j for j, (f, k) in enumerate(fl) if isinstance(f, tuple) and f[1] == bt][0]
                    vals[i] = self.rv(e[0], fr)
        for i, v in enumerate(vals):
            if v is None:
                k = fl[i][1]
                if k[0] == 'value':
                    vals[i] = self.load(self.default_struct(k[1], self.fresh('z')), frame)
                else:
                    vals[i] = ('s', self.tmp(self.rty(k), self.arb(self.rty(k))), self.rty(k))
        body = self.tu.body(d)
        if body is not None and body.get('inner'):
            lvv = self.as_struct_lv(('st', vals, cls), frame)
            fr.this = lvv
            self.inline_body(d, fr)
            return ('st', [self.load(x, frame) for x in lvv[1]], cls)
        return ('st', vals, cls)

    def val_scope(self):
        return self.cur_scope()

    def construct_obj(self, cls, n, args, p, frame):
        """run the constructor of an object class on the raw object at p (fields exist, elements raw)"""
        ctor = self.find_ctor(cls, n)
        d = self.tu.definition(ctor['id']) or ctor
        lab = self.contract_of(ctor)
        if lab is not None and ctor['id'] != getattr(self, 'top_id', None):
            self.call_contract(lab, d, ('obj', p, cls), args, frame)
            return
        if ctor.get('isImplicit') or ctor.get('explicitlyDefaulted'):
            if self.fam.zone.get('implicit_ctor'):
                return self.fam.zone['implicit_ctor'](self, cls, ctor, args, p, frame)
        fr = Frame(d, ('obj', p, cls))
        self.bind_params(d, args, frame, fr)
        self.ctor_inits(d, fr, cls)
        self.inline_body(d, fr)

    def ctor_inits(self, d, fr, cls):
        p = fr.this[1]
        for c in d.get('inner', []):
            if c.get('kind') != 'CXXCtorInitializer':
                continue
            e = [x for x in c.get('inner', []) if 'kind' in x]
            if c.get('baseInit'):
                bt = self.resolve_class(norm(c['baseInit'].get('desugaredQualType') or c['baseInit']['qualType']), fr)
                ce = e[0]
                bctor = self.find_ctor(bt, ce)
                if bctor.get('isImplicit') or bctor.get('explicitlyDefaulted'):
                    continue
                self.construct_obj(bt, ce, [x for x in ce.get('inner', []) if 'kind' in x], p, fr)
                continue
            fdecl = self.tu.by_id[c['anyInit']['id']]
            if self.raw_bytes(fdecl):
                continue        # trivially initialized storage
            k = self.kind(tyof(fdecl), fr)
            l = self.member(fr.this, fdecl, fr)
            if k[0] == 'elem':
                self.full_into(e[0], l[1], fr)
            elif k[0] == 'obj':
                ce = e[0]
                while ce.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                    ce = ce['inner'][0]
                if ce.get('kind') == 'CXXConstructExpr':
                    bctor = self.find_ctor(k[1], ce)
                    if (bctor.get('isImplicit') or bctor.get('explicitlyDefaulted')) and not [x for x in ce.get('inner', []) if 'kind' in x] and not self.fam.zone.get('implicit_ctor'):
                        continue
                    self.construct_obj(k[1], ce, [x for x in ce.get('inner', []) if 'kind' in x], l[1], fr)
                else:
                    raise ExtractError('member initializer')
            elif k[0] == 'value' and l[0] == 'lst' and not l[1]:
                continue
            elif k[0] == 'value' and l[0] == 'obj':
                raise ExtractError('value member in object')
            else:
                self.store(l, self.full(e[0], fr))

    def full_into(self, n, dst, fr):
        old = self.snap; self.snap = True
        self.scopes.append([])
        self.into_elem(n, dst, fr)
        self.run_cleanup(self.scopes.pop())
        self.snap = old

    # ---- new / delete
    def node_kind(self, cls):
        for rx, al, fr in self.fam.node_kinds:
            if cls and re.fullmatch(rx, cls):
                return al, fr
        return None

    def x_CXXNewExpr(self, n, frame):
        inner = [c for c in n.get('inner', []) if 'kind' in c]
        if n.get('isPlacement'):
            ctor = [c for c in inner if c.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr')]
            ptrs = [c for c in inner if c not in ctor]
            if len(ctor) != 1 or len(ptrs) != 1:
                raise ExtractError('placement new')
            p = self.pin(self.rv(ptrs[0], frame))
            k = self.kind(tyof(ctor[0]), frame)
            if k[0] == 'elem':
                self.into_elem(ctor[0], p[1], frame)
                return p
            raise ExtractError('placement new of ' + tyof(ctor[0]))
        if n.get('isArray'):
            sz = self.conv(self.rv(inner[0], frame), 'u64')
            t = self.tmp('Ptr', 'alloc_cells(h, %s)' % sz[1])
            return ('s', t, 'Ptr')
        t = qual(n)[:-1].strip()
        ce = [c for c in inner if c.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')]
        cls = self.resolve_class(tyof(ce[0]) if ce else t, frame)
        nk = self.node_kind(cls)
        if nk is None or not ce:
            raise ExtractError('new ' + str(cls))
        p = self.tmp('Ptr', nk[0] + '(h)')
        args = [c for c in ce[0].get('inner', []) if 'kind' in c]
        self.construct_obj(cls, ce[0], args, p, frame)
        self.anchor('new', 'after', p)
        return ('s', p, 'Ptr')

    def x_CXXDeleteExpr(self, n, frame):
        p = self.pin(self.rv(n['inner'][0], frame))
        if n.get('isArrayAsWritten') or n.get('isArray'):
            self.emit('free_cells(h, %s);' % p[1])
            return None
        t = qual(n['inner'][0])
        if not t.endswith('*'):
            t = tyof(n['inner'][0])
        cls = self.resolve_class(t[:-1], frame)
        nk = self.node_kind(cls)
        if nk is None:
            raise ExtractError('delete ' + t)
        self.emit('if !is_null(%s) {' % p[1])
        self.ind += 1
        self.destroy_obj(cls, p[1], frame)
        self.emit('%s(h, %s);' % (nk[1], p[1]))
        self.ind -= 1
        self.emit('}')
        return None

    def destroy_obj(self, cls, p, frame):
        rec = self.tu.records[cls]
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXDestructorDecl':
                d = self.tu.definition(c['id']) or c
                b = self.tu.body(d)
                if b is not None and b.get('inner'):
                    fr = Frame(d, ('obj', p, cls))
                    self.inline_body(d, fr)
        for f in reversed(self.tu.fields(rec)):
            fr = Frame({'_rec': rec, '_ns': ''})
            k = self.kind(tyof(f), fr)
            if k[0] == 'elem':
                l = self.member(('obj', p, cls), f, fr)
                self.emit('e_dtor(h, %s);' % l[1])
            elif k[0] == 'obj':
                l = self.member(('obj', p, cls), f, fr)
                self.member_dtor(k[1], l[1], frame)
        for b in reversed(rec.get('bases', [])):
            bt = self.resolve_class(norm(b['type'].get('desugaredQualType') or b['type']['qualType']), Frame({'_rec': rec, '_ns': ''}))
            if bt and bt in self.tu.records:
                self.member_dtor(bt, p, frame)

    # ---- calls
    def contract_of(self, d):
        c = self.contracts.get(d['id'])
        if c is None:
            f = self.tu.definition(d['id'])
            if f is not None:
                c = self.contracts.get(f['id'])
        return None if c is not None and c.label in self.inlined else c

    def bind_params(self, d, args, cfr, fr):
        ps = self.tu.params(d)
        if len(args) < len(ps):
            raise ExtractError('arguments of ' + str(d.get('name')))
        for p, a in zip(ps, args):
            if '::*' in qual(p):
                fr.env[p['id']] = self.rv(a, cfr)
                continue
            k = self.kind(tyof(p), fr)
            nm = p.get('name') or 'anon'
            if k[0] == 'ref':
                l = self.ex(a, cfr)
                fr.env[p['id']] = self.bindref(l, cfr)
            elif k[0] == 'elem':
                t = self.newlocal(nm, 'Ptr', 'e_stack(h)')
                self.into_elem(a, t, cfr)
                self.cur_scope().append(('edrop', t))
                fr.env[p['id']] = ('eslot', t)
            elif k[0] == 'value':
                r = self.ex(a, cfr)
                fr.env[p['id']] = self.copy_struct(r, nm, cfr)
            elif qual(p).find('::*') >= 0 or '(' in tyof(p):
                fr.env[p['id']] = self.rv(a, cfr)
            elif k[0] == 'obj':
                fr.env[p['id']] = self.ex(a, cfr)
            else:
                r = self.rv(a, cfr)
                ty = self.rty(k)
                v = self.newlocal(nm, ty, r[1]) if r[0] == 's' else None
                fr.env[p['id']] = ('lv', v, ty) if v else r

    def bindref(self, l, frame):
        if l[0] == 's':
            v = self.fresh()
            self.emit('let mut %s: %s = %s;' % (v, l[2], l[1]))
            return ('lv', v, l[2])
        if l[0] == 'st':
            return self.as_struct_lv(l, frame)
        if l[0] in ('eslot', 'obj') and not re.fullmatch(r'\w+', l[1]):
            t = self.tmp('Ptr', l[1])
            return (l[0], t) + tuple(l[2:])
        if l[0] in ('eslot', 'obj') and self.is_mutable_local(l[1]):
            t = self.tmp('Ptr', l[1])
            return (l[0], t) + tuple(l[2:])
        if l[0] in ('fld', 'edge', 'cell', 'idx'):
            l = self.pinlv(l)
            i = {'fld': 2, 'edge': 1, 'cell': 1, 'idx': 4}[l[0]]
            if self.is_mutable_local(l[i]):
                ty = 'Edge' if l[0] == 'edge' else ('u64' if l[0] == 'idx' else 'Ptr')
                t = self.tmp(ty, l[i])
                l = l[:i] + (t,) + tuple(l[i+1:])
            return l
        return l

    def is_mutable_local(self, t):
        return not re.fullmatch(r't_\d+', t) and t != 'this'

    def copy_struct(self, r, name, frame):
        if r[0] not in ('lst', 'st'):
            raise ExtractError('struct argument %r' % (r,))
        out = []
        base = self.uname(name)
        def go(x, nm):
            o = []
            for i, y in enumerate(x[1]):
                n2 = '%s_%d' % (nm, i)
                if y[0] in ('lst', 'st'):
                    o.append(go(y, n2))
                elif y[0] == 'eslot':
                    o.append(y)
                else:
                    v = self.rv_of(y, frame)
                    lv = self.newlocal(n2, v[2], v[1])
                    o.append(('lv', lv, v[2]))
            return ('lst', o, x[2])
        return go(r, base)

    def x_CallExpr(self, n, frame):
        inner = n['inner']
        callee = inner[0]
        while callee.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            callee = callee['inner'][0]
        if callee.get('kind') == 'BinaryOperator' and callee.get('opcode') in ('->*', '.*'):
            return self.memptr_call(callee, inner[1:], frame)
        if callee.get('kind') != 'DeclRefExpr':
            raise ExtractError('call through ' + str(callee.get('kind')))
        d = self.tu.by_id.get(callee['referencedDecl']['id'], callee['referencedDecl'])
        nm = d.get('name')
        if nm in ('operator new',):
            return self.op_new(inner[1], frame)
        if nm in ('operator delete',):
            p = self.pin(self.rv(inner[1], frame))
            self.emit('%s(h, %s);' % (self.fam.zone.get('op_delete', 'op_delete'), p[1]))
            return None
        if nm and nm.startswith('__builtin_popcount'):
            r = self.rv(inner[1], frame)
            return ('s', 'popcount64(%s)' % self.conv(r, 'u64')[1], 'i32')
        return self.call(d, None, inner[1:], n, frame)

    def memptr_call(self, callee, args, frame):
        obj = self.ex(callee['inner'][0], frame)
        fp = self.rv(callee['inner'][1], frame)
        if fp[0] != 'fnptr':
            raise ExtractError('member pointer call')
        d = self.tu.by_id[fp[1]]
        if callee.get('opcode') == '->*':
            o = self.rv_of(obj, frame)
            this = o[1] if o[0] == 'lstaddr' else ('obj', o[1], self.tu.owner(d))
        else:
            this = obj
        return self.call(d, this, args, callee, frame)

    def x_CXXMemberCallExpr(self, n, frame):
        inner = n['inner']
        me = inner[0]
        while me.get('kind') in ('ParenExpr',):
            me = me['inner'][0]
        if me.get('kind') == 'BinaryOperator':
            return self.memptr_call(me, inner[1:], frame)
        if me.get('kind') != 'MemberExpr':
            raise ExtractError('member call')
        d = self.tu.by_id.get(me.get('referencedMemberDecl'))
        if d is None:
            raise ExtractError('callee ' + str(me.get('name')))
        b = self.ex(me['inner'][0], frame)
        if me.get('isArrow'):
            b = self.rv_of(b, frame)
            if b[0] == 'lstaddr':
                this = b[1]
            else:
                b = self.pin(b) if d['kind'] == 'CXXDestructorDecl' or self.snap else b
                cls = self.tu.owner(d)
                this = ('eslot', b[1]) if cls in self.fam.elems else ('obj', b[1], cls)
        else:
            this = b
        if d['kind'] == 'CXXDestructorDecl':
            if this[0] == 'eslot':
                self.emit('e_dtor(h, %s);' % this[1])
                return None
            lab = self.contract_of(d)
            if lab is not None:
                self.emit('%s(h, %s);' % (lab.label, this[1])); self.calls.add(lab.label)
                return None
            self.destroy_obj(self.tu.owner(d), this[1], frame)
            return None
        return self.call(d, this, inner[1:], n, frame)

    def x_CXXOperatorCallExpr(self, n, frame):
        inner = n['inner']
        c = inner[0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        d = self.tu.by_id.get(c['referencedDecl']['id'])
        if d is None:
            raise ExtractError('operator')
        args = inner[1:]
        if d['kind'] in ('CXXMethodDecl', 'CXXConversionDecl'):
            if d.get('name') == 'operator=' and self.tu.owner(d) in self.fam.elems:
                r = self.ex(args[1], frame)
                if r[0] != 'eslot':
                    raise ExtractError('element assignment')
                l = self.ex(args[0], frame)
                self.emit('e_assign(h, %s, %s);' % (l[1], r[1]))
                return l
            if d.get('name') == 'operator=':
                k = self.kind(tyof(args[0]), frame)
                if k[0] == 'value' and self.trivially_copied(d):
                    r = self.ex(args[1], frame)
                    rr = ('st', [self.pin(self.rv_of(x, frame)) for x in r[1]], r[2])
                    l = self.ex(args[0], frame)
                    self.store(l, rr)
                    return l
            this = self.ex(args[0], frame)
            if this[0] in ('s', 'st'):
                this = self.bindref(this, frame)
            return self.call(d, this, args[1:], n, frame)
        return self.call(d, None, args, n, frame)

    def op_new(self, a, frame):
        e = a
        while e.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            e = e['inner'][0]
        if e.get('kind') == 'UnaryExprOrTypeTraitExpr' and e.get('argType'):
            cls = self.resolve_class(norm(e['argType'].get('desugaredQualType') or e['argType']['qualType']), frame)
            nk = self.node_kind(cls)
            if nk is None:
                raise ExtractError('operator new(sizeof %s)' % cls)
            return ('s', self.tmp('Ptr', nk[0] + '(h)'), 'Ptr')
        if e.get('kind') == 'BinaryOperator' and e.get('opcode') == '*':
            l, r = e['inner']
            for x, y in ((l, r), (r, l)):
                s = y
                while s.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
                    s = s['inner'][0]
                if s.get('kind') == 'UnaryExprOrTypeTraitExpr' and s.get('name') == 'sizeof' and s.get('argType'):
                    k = self.kind(norm(s['argType'].get('desugaredQualType') or s['argType']['qualType']), frame)
                    if k[0] == 'elem':
                        cnt = self.pin(self.conv(self.rv(x, frame), 'u64'))
                        self.anchor('alloc', 'before')
                        t = self.tmp('Ptr', 'alloc_arr(h, %s)' % cnt[1])
                        self.anchor('alloc', 'after')
                        return ('s', t, 'Ptr')
        raise ExtractError('operator new size')

    def call(self, d, this, args, n, frame):
        qn = self.tu.fname(d)
        for rx, em in self.fam.opaque:
            if re.fullmatch(rx, qn):
                r = em(self, d, this, args, n, frame)
                if r is not NotImplemented:
                    return r
        c = self.contract_of(d)
        if c is not None:
            return self.call_contract(c, d, this, args, frame)
        b = self.tu.definition(d['id'])
        if b is None and self.tu.has_body(d):
            b = d
        if b is None:
            raise ExtractError('no body for ' + qn)
        if this is not None and this[0] in ('lst', 'st'):
            # a method inherited from a base value class
            own = self.tu.owner(b)
            this = self.base_view(this, own)
            if this[0] == 'st':
                this = self.as_struct_lv(this, frame)
        if self.depth > 25:
            raise ExtractError('recursion in ' + qn)
        fr = Frame(b, self.bindref(this, frame) if this is not None else None)
        self.struct_owners.append(fr.this) if fr.this and fr.this[0] == 'lst' else None
        self.bind_params(b, args, frame, fr)
        for v in fr.env.values():
            if v[0] == 'lst':
                self.struct_owners.append(v)
        fr.rettype = self.rettype(b, fr)
        osn = self.snap
        self.snap = False
        self.depth += 1
        oext = self.extend; self.extend = None
        r = self.inline_body(b, fr)
        self.extend = oext
        self.depth -= 1
        self.snap = osn
        return r

    def rettype(self, d, fr):
        if d['kind'] in ('CXXConstructorDecl', 'CXXDestructorDecl'):
            return ('void',)
        t = norm(d['type']['qualType'])
        # split return type from "R (args) const"
        depth = 0
        for i, ch in enumerate(t):
            if ch == '<': depth += 1
            elif ch == '>': depth -= 1
            elif ch == '(' and depth == 0:
                ret = t[:i].strip()
                break
        return self.kind(ret, fr)

    def call_contract(self, c, d, this, args, frame):
        al = ['h'] if c.heap else []
        if this is not None:
            if this[0] in ('lst', 'st'):
                for t, ty in self.flat(self.rvstruct(this, frame)): al.append(t)
            else:
                al.append(this[1])
        b = self.tu.definition(d['id']) or d
        fr = Frame(b)
        for p, a in zip(self.tu.params(b), args):
            k = self.kind(tyof(p), fr)
            if k[0] == 'ref':
                l = self.ex(a, frame)
                ik = self.kind(k[1], fr)
                if ik[0] in ('elem', 'obj'):
                    al.append(l[1])
                elif ik[0] == 'value':
                    for t, ty in self.flat(self.rvstruct(l, frame)): al.append(t)
                else:
                    if 'const' in k[1]:
                        al.append(self.pin(self.rv_of(l, frame))[1])
                    else:
                        raise ExtractError('scalar reference argument of contract ' + c.label)
            elif k[0] == 'value':
                for t, ty in self.flat(self.rvstruct(self.ex(a, frame), frame)): al.append(t)
            else:
                r = self.rv(a, frame)
                al.append(self.pin(r)[1] if r[0] == 's' else r[1])
        fr2 = Frame(b)
        rk = self.rettype(b, fr2)
        callx = '%s(%s)' % (c.label, ', '.join(al))
        self.calls.add(c.label)
        if rk[0] == 'void':
            self.anchor('call:' + c.label, 'before')
            self.emit(callx + ';')
            self.anchor('call:' + c.label, 'after')
            return None
        self.anchor('call:' + c.label, 'before')
        v = self.fresh()
        if rk[0] == 'value':
            tys = [ty for _, ty in self.flat(self.proto(rk[1]))]
            self.emit('let %s = %s;' % (v, callx))
            self.anchor('call:' + c.label, 'after', v)
            if len(tys) == 1:
                return self.unflat(self.proto(rk[1]), [v])
            return self.unflat(self.proto(rk[1]), ['%s.%d' % (v, i) for i in range(len(tys))])
        if rk[0] == 'ref':
            ik = self.kind(rk[1], fr2)
            self.emit('let %s = %s;' % (v, callx))
            self.anchor('call:' + c.label, 'after', v)
            return ('eslot', v) if ik[0] == 'elem' else ('obj', v, ik[1])
        self.emit('let %s = %s;' % (v, callx))
        self.anchor('call:' + c.label, 'after', v)
        return ('s', v, self.rty(rk))

    def rvstruct(self, l, frame):
        if l[0] == 'lst':
            return ('st', [self.rvstruct(x, frame) if x[0] in ('lst', 'st') else self.rv_of(x, frame) for x in l[1]], l[2])
        return l

    def proto(self, cls):
        out = []
        for f, k in self.value_fields(cls):
            if k[0] == 'value': out.append(self.proto(k[1]))
            else: out.append(('s', '', self.rty(k)))
        return ('st', out, cls)

    # ------------------------------------------------------------------ inlining and statements
    def count_returns(self, n):
        if not isinstance(n, dict): return 0
        if n.get('kind') == 'ReturnStmt': return 1
        if n.get('kind') == 'LambdaExpr': return 0
        return sum(self.count_returns(c) for c in n.get('inner', []))

    def inline_body(self, d, fr):
        body = self.tu.body(d)
        if body is None:
            raise ExtractError('no body: ' + str(d.get('name')))
        stmts = body.get('inner', [])
        nret = self.count_returns(body)
        fr.scopes_base = len(self.scopes)
        if nret == 0 or (nret == 1 and stmts and stmts[-1].get('kind') == 'ReturnStmt'):
            fr.mode = 'simple'
            self.scopes.append([])
            self.block(stmts, fr)
            sc = self.scopes.pop()
            # a reference/struct result may refer to locals; scalars are pinned before the cleanup
            if fr.ret is not None and fr.ret[0] == 's' and sc:
                fr.ret = self.pin(fr.ret)
            if fr.ret is not None and fr.ret[0] == 's' and not sc and self.mentions_local(fr.ret[1]):
                fr.ret = self.pin(fr.ret)
            self.run_cleanup(sc)
            return fr.ret
        fr.mode = 'flag'
        fr.flag = self.fresh('rf')
        self.emit('let mut %s: bool = false;' % fr.flag)
        fr.retvars = None
        rt = fr.rettype
        if rt is not None and rt[0] != 'void':
            if rt[0] == 'ref':
                ik = self.kind(rt[1], fr)
                if ik[0] in ('elem', 'obj'):
                    v = self.fresh('rv'); self.emit('let mut %s: Ptr = arb_ptr();' % v)
                    fr.retvars = [v]; fr.retshape = ('eslot', '') if ik[0] == 'elem' else ('obj', '', ik[1])
                elif ik[0] == 'ptr':
                    v = self.fresh('rv'); self.emit('let mut %s: Edge = arb_edge();' % v)
                    fr.retvars = [v]; fr.retshape = ('edge', '')
                else:
                    raise ExtractError('early return of reference')
            else:
                sh = self.proto(rt[1]) if rt[0] == 'value' else ('s', '', self.rty(rt))
                fr.retshape = sh
                fr.retvars = []
                for _, ty in self.flat(sh):
                    v = self.fresh('rv'); self.emit('let mut %s: %s = %s;' % (v, ty, self.arb(ty)))
                    fr.retvars.append(v)
        self.scopes.append([])
        self.block(stmts, fr)
        sc = self.scopes.pop()
        self.run_cleanup(sc)
        if fr.retvars is None:
            return None
        return self.unflat(fr.retshape, fr.retvars)

    def mentions_local(self, t):
        return not re.fullmatch(r't_\d+|\d+\w*|true|false', t)

    def may_return(self, n):
        return self.count_returns(n) > 0

    def block(self, stmts, fr):
        for i, s in enumerate(stmts):
            self.stmt(s, fr)
            if fr.mode == 'flag' and self.may_return(s) and i + 1 < len(stmts):
                if s.get('kind') == 'ReturnStmt':
                    return
                self.emit('if !%s {' % fr.flag)
                self.ind += 1
                self.block(stmts[i+1:], fr)
                self.ind -= 1
                self.emit('}')
                return

    def stmt(self, s, fr):
        k = s.get('kind')
        m = getattr(self, 's_' + str(k), None)
        if m:
            return m(s, fr)
        # expression statement
        self.full(s, fr, 'x')

    def s_NullStmt(self, s, fr): pass

    def s_CompoundStmt(self, s, fr):
        self.scopes.append([])
        self.block(s.get('inner', []), fr)
        self.run_cleanup(self.scopes.pop())

    def s_DeclStmt(self, s, fr):
        for d in s.get('inner', []):
            if d.get('kind') in ('TypedefDecl', 'UsingDecl', 'StaticAssertDecl', 'TypeAliasDecl'):
                continue
            if d.get('kind') != 'VarDecl':
                raise ExtractError('declaration ' + str(d.get('kind')))
            self.vardecl(d, fr)

    def vardecl(self, d, fr):
        nm = d.get('name') or 'anon'
        k = self.kind(tyof(d), fr)
        init = [c for c in d.get('inner', []) if 'kind' in c and c['kind'] != 'FullComment']
        if k[0] == 'ref':
            ext = self.scopes[-1]
            old = self.extend; self.extend = ext
            osn = self.snap; self.snap = True
            l = self.ex(init[0], fr)
            self.snap = osn
            self.extend = old
            if l[0] in ('eslot', 'obj'):
                v = self.newlocal(nm, 'Ptr', l[1])
                fr.env[d['id']] = (l[0], v) + tuple(l[2:])
            else:
                fr.env[d['id']] = self.bindref(l, fr)
            return
        if k[0] == 'elem':
            v = self.newlocal(nm, 'Ptr', 'e_stack(h)')
            self.full_into(init[0], v, fr)
            self.scopes[-1].append(('edrop', v))
            fr.env[d['id']] = ('eslot', v)
            return
        if k[0] == 'value':
            if init:
                old = self.extend; self.extend = self.scopes[-1]
                osn = self.snap; self.snap = True
                vs = self.val_scope
                r = self.ex(init[0], fr)
                self.snap = osn; self.extend = old
                fr.env[d['id']] = self.copy_struct(r, nm, fr)
            else:
                fr.env[d['id']] = self.default_struct(k[1], self.uname(nm))
            self.struct_owners.append(fr.env[d['id']])
            return
        if k[0] == 'obj':
            ce = init[0] if init else None
            while ce is not None and ce.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                ce = ce['inner'][0]
            for rx, (al, dr) in self.fam.obj_locals.items():
                if re.fullmatch(rx, k[1]):
                    if ce is not None and ce.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                        v = self.newlocal(nm, 'Ptr', al)
                        self.scopes.append([])
                        self.construct_obj(k[1], ce, [c for c in ce.get('inner', []) if 'kind' in c], v, fr)
                        self.run_cleanup(self.scopes.pop())
                    elif ce is not None:
                        r = self.ex(ce, fr)
                        v = self.newlocal(nm, 'Ptr', r[1])
                    self.scopes[-1].append(('stmt', dr % v))
                    fr.env[d['id']] = ('obj', v, k[1])
                    return
            raise ExtractError('local object of ' + k[1])
        ty = self.rty(k)
        if '(' in tyof(d):
            raise ExtractError('function pointer variable')
        if init:
            r = self.full(init[0], fr)
            if r[0] != 's':
                raise ExtractError('initializer %r' % (r,))
            v = self.newlocal(nm, ty, r[1])
        else:
            v = self.newlocal(nm, ty, self.arb(ty))
        fr.env[d['id']] = ('lv', v, ty)

    def s_IfStmt(self, s, fr):
        inner = [c for c in s['inner']]
        if s.get('hasInit') or s.get('hasVar'):
            raise ExtractError('if with declaration')
        c = self.full(inner[0], fr)
        self.emit('if %s {' % c[1])
        self.ind += 1
        self.scopes.append([])
        self.stmt(inner[1], fr)
        self.run_cleanup(self.scopes.pop())
        self.ind -= 1
        if len(inner) > 2:
            self.emit('} else {')
            self.ind += 1
            self.scopes.append([])
            self.stmt(inner[2], fr)
            self.run_cleanup(self.scopes.pop())
            self.ind -= 1
        self.emit('}')

    # ---- loops
    def loop(self, fr, cond, body, update, post_cond=None):
        i = self.nloops
        self.nloops += 1
        an = self.fn.loops[i] if i < len(self.fn.loops) else None
        self.loopinfo.append(i)
        if an and an.get('before'): self.emit(self.sub(an['before']))
        self.emit('loop')
        if an:
            inv = list(an.get('inv') or []) + list(an.get('invx') or [])
            if inv:
                self.emit('  invariant'); [self.emit('    %s,' % self.sub(x)) for x in inv]
            if an.get('dec'):
                self.emit('  decreases %s' % self.sub(an['dec']))
        self.emit('{')
        self.ind += 1
        if an and an.get('pre'): self.emit(self.sub(an['pre']))
        lf = {'update': update, 'fr': fr, 'scope': len(self.scopes), 'an': an, 'post_cond': post_cond}
        self.loopstack.append(lf)
        if cond is not None:
            c = self.full(cond, fr)
            self.emit('if %s { break; }' % self.neg(c[1]))
        if an and an.get('top'): self.emit(self.sub(an['top']))
        self.scopes.append([])
        if body is not None:
            self.stmt(body, fr)
        self.run_cleanup(self.scopes.pop())
        if fr.mode == 'flag' and body is not None and self.may_return(body):
            self.emit('if %s { break; }' % fr.flag)
        if an and an.get('mid'): self.emit(self.sub(an['mid']))
        if update is not None:
            self.full(update, fr, 'x')
        if an and an.get('bot'): self.emit(self.sub(an['bot']))
        if post_cond is not None:
            c = self.full(post_cond, fr)
            self.emit('if %s { break; }' % self.neg(c[1]))
            if an and an.get('bot2'): self.emit(self.sub(an['bot2']))
        self.loopstack.pop()
        self.ind -= 1
        self.emit('}')
        if an and an.get('after'): self.emit(self.sub(an['after']))

    def neg(self, c):
        if c.startswith('!') and re.fullmatch(r'!\w+(\([^()]*\))?', c):
            return c[1:]
        return '!' + self.par(c)

    def s_WhileStmt(self, s, fr):
        inner = s['inner']
        if s.get('hasVar'):
            raise ExtractError('while with declaration')
        self.loop(fr, inner[0], inner[1], None)

    def s_ForStmt(self, s, fr):
        init, var, cond, upd, body = s['inner']
        self.scopes.append([])
        if init.get('kind'):
            self.stmt(init, fr)
        if var.get('kind'):
            raise ExtractError('for condition variable')
        self.loop(fr, cond if cond.get('kind') else None, body if body.get('kind') else None, upd if upd.get('kind') else None)
        self.run_cleanup(self.scopes.pop())

    def s_DoStmt(self, s, fr):
        body, cond = s['inner']
        self.loop(fr, None, body, None, post_cond=cond)

    def s_BreakStmt(self, s, fr):
        lf = self.loopstack[-1]
        for sc in reversed(self.scopes[lf['scope']:]):
            self.run_cleanup(sc)
        if lf['an'] and lf['an'].get('brk'): self.emit(self.sub(lf['an']['brk']))
        self.emit('break;')

    def s_ContinueStmt(self, s, fr):
        lf = self.loopstack[-1]
        if lf['post_cond'] is not None:
            raise ExtractError('continue in do-while')
        for sc in reversed(self.scopes[lf['scope']:]):
            self.run_cleanup(sc)
        if lf['an'] and lf['an'].get('mid'): self.emit(self.sub(lf['an']['mid']))
        if lf['update'] is not None:
            self.full(lf['update'], lf['fr'], 'x')
        if lf['an'] and lf['an'].get('bot'): self.emit(self.sub(lf['an']['bot']))
        self.emit('continue;')

    def obj_result(self, e, cls, fr):
        """an object returned by value: constructed in storage that belongs to the caller"""
        ce = e
        while ce.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr') or (ce.get('kind') in ('CXXFunctionalCastExpr', 'ImplicitCastExpr') and ce.get('castKind') in ('ConstructorConversion', 'NoOp')):
            ce = ce['inner'][0]
        self.scopes.append([])
        if ce.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            for rx, (al, dr) in self.fam.obj_locals.items():
                if re.fullmatch(rx, cls):
                    t = self.newlocal('res', 'Ptr', al)
                    self.construct_obj(cls, ce, [c for c in ce.get('inner', []) if 'kind' in c], t, fr)
                    break
            else:
                raise ExtractError('result of type ' + cls)
        else:
            t = self.ex(ce, fr)[1]
        self.run_cleanup(self.scopes.pop())
        return ('s', t, 'Ptr')

    def s_ReturnStmt(self, s, fr):
        e = [c for c in s.get('inner', []) if 'kind' in c]
        rt = fr.rettype
        r = None
        if e:
            if rt is not None and rt[0] == 'ref':
                old = self.snap; self.snap = True
                r = self.ex(e[0], fr)
                self.snap = old
            elif rt is not None and rt[0] == 'elem':
                if not self.elem_dst:
                    raise ExtractError('element returned by value')
                dst = self.elem_dst.pop()
                self.full_into(e[0], dst, fr)
                r = None
            elif rt is not None and rt[0] == 'obj':
                r = self.obj_result(e[0], rt[1], fr)
            else:
                if fr.mode == 'simple' and rt is not None and rt[0] == 'void':
                    self.full(e[0], fr, 'x'); r = None
                else:
                    r = self.full(e[0], fr)
        if fr.mode == 'simple':
            if r is not None and r[0] == 'st':
                r = self.pin(r)
            fr.ret = r
            return
        if fr.mode == 'flag':
            if fr.retvars is not None:
                for v, (t, ty) in zip(fr.retvars, self.flat(r)):
                    self.emit('%s = %s;' % (v, t))
            self.emit('%s = true;' % fr.flag)
            if self.loopstack and self.loopstack[-1]['fr'] is fr:
                lf = self.loopstack[-1]
                for sc in reversed(self.scopes[lf['scope']:]):
                    self.run_cleanup(sc)
                self.emit('break;')
            return
        # top-level function
        if r is not None:
            fl = self.flat(r if rt[0] != 'ref' else r)
            txt = fl[0][0] if len(fl) == 1 else '(' + ', '.join(t for t, _ in fl) + ')'
            self.emit('let ret = %s;' % txt)
        for sc in reversed(self.scopes):
            self.run_cleanup(sc)
        if self.fn.exit:
            self.emit(self.sub(self.fn.exit))
        self.emit('return ret;' if r is not None else 'return;')

    # ------------------------------------------------------------------ top level
    def anchor(self, what, where, res=''):
        key = (what, where)
        i = self.anchors_seen.get(key, 0)
        self.anchors_seen[key] = i + 1
        for (w, idx, wh), txt in self.fn.at.items():
            if w == what and wh == where and (idx == i or idx == '*'):
                self.emit(self.sub(txt.replace('$r', res)))

    def sub(self, txt):
        if self.rename:
            return re.sub(r'\b(' + '|'.join(map(re.escape, self.rename)) + r')\b', lambda m: self.rename[m.group(1)], txt)
        return txt

    def function(self, fn, d, rename=None):
        """translate definition d under contract fn; returns rust text"""
        self.fn = fn
        self.rename = rename or {}
        self.lines = []; self.ind = 1
        self.ctr = 0
        self.names = {}
        self.locals = []
        self.scopes = [[]]
        self.snap = False
        self.extend = None
        self.loopstack = []
        self.nloops = 0
        self.loopinfo = []
        self.depth = 0
        self.elem_dst = []
        self.struct_owners = []
        self.calls = set()
        self.anchors_seen = {}
        self.top_id = d['id']
        cls = self.tu.owner(d)
        fr = Frame(d)
        fr.mode = 'top'
        params = ['h: &mut H'] if fn.heap else []
        pnames = []
        static = d.get('storageClass') == 'static'
        if cls and d['kind'] != 'FunctionDecl' and not static:
            if self.fam.is_value(cls):
                st = []
                lst = []
                def mk(c, nm):
                    o = []
                    for i, (f, k) in enumerate(self.value_fields(c)):
                        n2 = '%s_%d' % (nm, i)
                        if k[0] == 'value': o.append(mk(k[1], n2))
                        else:
                            ty = self.rty(k)
                            params.append('%s: %s' % (n2, ty)); pnames.append((n2, ty))
                            o.append(('lv', n2, ty))
                    return ('lst', o, c)
                fr.this = mk(cls, 'this')
            else:
                params.append('this: Ptr')
                fr.this = ('obj', 'this', cls)
        self.names['this'] = 0
        prologue = []
        for p in self.tu.params(d):
            k = self.kind(tyof(p), fr)
            nm = self.uname(p.get('name') or 'anon')
            if k[0] == 'ref':
                ik = self.kind(k[1], fr)
                if ik[0] in ('elem', 'obj'):
                    params.append('%s: Ptr' % nm); pnames.append((nm, 'Ptr'))
                    fr.env[p['id']] = ('eslot', nm) if ik[0] == 'elem' else ('obj', nm, ik[1])
                    continue
                elif ik[0] == 'value':
                    k = ik
                elif 'const' in k[1]:
                    k = ik
                else:
                    raise ExtractError('scalar reference parameter')
            if k[0] == 'value':
                def mk2(c, n0):
                    o = []
                    for i, (f, kk) in enumerate(self.value_fields(c)):
                        n2 = '%s_%d' % (n0, i)
                        if kk[0] == 'value': o.append(mk2(kk[1], n2))
                        else:
                            ty = self.rty(kk)
                            params.append('%s: %s' % (n2, ty)); pnames.append((n2, ty))
                            prologue.append((n2, ty))
                            o.append(('lv', n2, ty))
                    return ('lst', o, c)
                fr.env[p['id']] = mk2(k[1], nm)
                self.struct_owners.append(fr.env[p['id']])
                continue
            if k[0] == 'elem':      # an object of the caller's, which the callee may modify
                params.append('%s: Ptr' % nm); pnames.append((nm, 'Ptr'))
                fr.env[p['id']] = ('eslot', nm)
                continue
            if '(' in tyof(p) and not re.search(r'\(&\)\[\d+\]', tyof(p)):
                raise ExtractError('function pointer parameter')
            ty = self.rty(k)
            params.append('%s: %s' % (nm, ty)); pnames.append((nm, ty))
            prologue.append((nm, ty))
            fr.env[p['id']] = ('lv', nm, ty)
        rt = self.rettype(d, fr)
        fr.rettype = rt
        if rt[0] == 'void': rtxt = ''
        elif rt[0] == 'elem':       # constructed into storage of the caller's
            rtxt = ''
            params.append('rslot: Ptr'); pnames.append(('rslot', 'Ptr'))
            self.elem_dst.append('rslot')
        elif rt[0] == 'ref':
            ik = self.kind(rt[1], fr)
            rtxt = ' -> (ret: %s)' % ('Edge' if ik[0] == 'ptr' else 'Ptr')
        elif rt[0] == 'value':
            tys = [ty for _, ty in self.flat(self.proto(rt[1]))]
            rtxt = ' -> (ret: %s)' % (tys[0] if len(tys) == 1 else '(' + ', '.join(tys) + ')') if tys else ''
        else: rtxt = ' -> (ret: %s)' % self.rty(rt)
        self.params = pnames
        self.hdr = (fn, params, rtxt)
        for n, ty in prologue:
            self.emit('let ghost %s_in = %s;' % (n, n))
            self.emit('let mut %s = %s;' % (n, n))
        if fn.heap:
            self.emit('let ghost h0 = *h;')
        if fn.entry:
            self.emit(self.sub(fn.entry))
        if d['kind'] == 'CXXConstructorDecl':
            self.ctor_inits(d, fr, cls)
        body = self.tu.body(d)
        if body is None:
            raise ExtractError('no body')
        self.block(body.get('inner', []), fr)
        stm = body.get('inner', [])
        if rt[0] == 'void' or not (stm and stm[-1].get('kind') == 'ReturnStmt'):
            if d['kind'] == 'CXXDestructorDecl':
                rec = self.tu.records[cls]
                for f in reversed(self.tu.fields(rec)):
                    if self.raw_bytes(f): continue
                    kk = self.kind(tyof(f), Frame({'_rec': rec, '_ns': ''}))
                    if kk[0] == 'obj':
                        l = self.member(fr.this, f, fr)
                        self.member_dtor(kk[1], l[1], fr)
            for sc in reversed(self.scopes):
                self.run_cleanup(sc)
            if rt[0] in ('void', 'elem'):
                if fn.exit: self.emit(self.sub(fn.exit))
            else:
                self.emit('unreached()')
        if self.nloops and self.nloops != len(fn.loops):
            raise ExtractError('%s: %d loops, %d annotated' % (fn.label, self.nloops, len(fn.loops)))
        out = self.header()
        out.append('{')
        out += ['  hide(%s);' % x for x in fn.hide]
        out += self.lines
        out.append('}')
        return '\n'.join(out)

    def header(self):
        fn, params, rtxt = self.hdr
        out = []
        if fn.attrs: out.append(fn.attrs)
        out.append('#[verifier::loop_isolation(false)]')
        out.append('pub fn %s(%s)%s' % (fn.label, ', '.join(params), rtxt))
        if fn.requires:
            out.append('  requires'); out += ['    %s,' % self.sub(x) for x in fn.requires]
        if fn.ensures:
            out.append('  ensures'); out += ['    %s,' % self.sub(x) for x, _ in fn.ensures]
        if fn.decreases:
            out.append('  decreases ' + self.sub(fn.decreases))
        return out

    def member_dtor(self, cls, p, fr):
        rec = self.tu.records[cls]
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXDestructorDecl':
                d = self.tu.definition(c['id'])
                lab = self.contract_of(c)
                if lab is not None:
                    self.emit('%s(h, %s);' % (lab.label, p))
                    self.calls.add(lab.label)
                    return
        self.destroy_obj(cls, p, fr)
