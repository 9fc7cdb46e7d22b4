"""clang AST (JSON) loader: indexes declarations of one translation unit."""
import json, os, re, subprocess, tempfile

class ExtractError(Exception):
    pass

CLANG_FLAGS = ['-std=c++17', '-fno-exceptions', '-fno-rtti', '-fsyntax-only', '-w']

def load(tu_text, include, defs=()):
    with tempfile.TemporaryDirectory(prefix='vext.') as d:
        tu = os.path.join(d, 'tu.cpp')
        with open(tu, 'w') as f:
            f.write(tu_text)
        cmd = ['clang++'] + CLANG_FLAGS + ['-I', include, '-Xclang', '-ast-dump=json'] + list(defs) + [tu]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise ExtractError('clang failed: ' + r.stderr[:2000])
        return json.loads(r.stdout)

def norm(t):
    """normalize a C++ type spelling"""
    t = re.sub(r'\b(class|struct|typename|enum)\s+', '', t)
    t = t.replace('(anonymous namespace)::', '')
    t = re.sub(r'\s+', ' ', t).strip()
    t = t.replace('> >', '>>')
    t = re.sub(r'\b(\d+)(UL|U|L)\b', r'\1', t)
    return t

def tyof(n):
    t = n.get('type') or {}
    return norm(t.get('desugaredQualType') or t.get('qualType') or '')

def qual(n):
    t = n.get('type') or {}
    return norm(t.get('qualType') or '')

def strip_cv(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for w in ('const ', 'volatile '):
            if t.startswith(w):
                t = t[len(w):].strip(); ch = True
        for w in (' const', ' volatile', '*const'):
            if t.endswith(w):
                t = (t[:-len(w)] + ('*' if w == '*const' else '')).strip(); ch = True
    return t

class TU:
    def __init__(self, root):
        self.root = root
        self.by_id = {}
        self.parent = {}       # decl id -> enclosing record node
        self.qname = {}        # record id -> qualified name
        self.records = {}      # qualified name -> record node (with definition)
        self.funcs = []        # all function-like decls
        self.body_of = {}      # canonical id -> decl with body
        self._index(root, None, '')
        for f in self.funcs:
            if self.has_body(f):
                i = f['id']
                while True:
                    self.body_of.setdefault(i, f)
                    if self.by_id.get(i, {}).get('storageClass') == 'static': f['storageClass'] = 'static'
                    p = self.by_id.get(i, {}).get('previousDecl')
                    if not p or p == i:
                        break
                    i = p

    FN = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

    @staticmethod
    def has_body(f):
        return any(isinstance(c, dict) and c.get('kind') == 'CompoundStmt' for c in f.get('inner', []))

    def targs(self, n):
        out = []
        for c in n.get('inner', []):
            if c.get('kind') == 'TemplateArgument':
                if 'type' in c:
                    out.append(norm(c['type'].get('desugaredQualType') or c['type']['qualType']))
                elif 'value' in c:
                    out.append(str(c['value']))
                else:
                    out.append('?')
        return out

    def _index(self, n, rec, ns):
        if not isinstance(n, dict):
            return
        k = n.get('kind')
        if k == 'ClassTemplateSpecializationDecl' and n['id'] in self.qname and not n.get('inner'):   # mention of a specialization written out elsewhere
            return
        if 'id' in n and k:
            self.by_id[n['id']] = n
        if k and k.endswith('Decl') and rec is not None:
            self.parent[n['id']] = rec
        nrec, nns = rec, ns
        if k == 'NamespaceDecl':
            nns = ns + n.get('name', '') + '::'
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            nm = n.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                ta = self.targs(n)
                if nm in ('map', 'set') and len(ta) > 1 and ta[-1] == 'ttl::less<%s>' % ta[0]:   # default argument: not spelled out in types
                    ta = ta[:-1]
                nm += '<' + ', '.join(ta) + '>'
            q = ns + nm
            self.qname[n['id']] = q
            if n.get('completeDefinition') and not n.get('isImplicit'):
                self.records.setdefault(q, n)
            nrec = n
            nns = q + '::'
        elif k in self.FN:
            n['_rec'] = rec
            n['_ns'] = ns
            self.funcs.append(n)
        for c in n.get('inner', []):
            self._index(c, nrec, nns)
        # friend / parentDeclContextId for out-of-line definitions
        if k in self.FN and n.get('parentDeclContextId'):
            p = self.by_id.get(n['parentDeclContextId'])
            if p is not None and p.get('kind', '').endswith('RecordDecl') or p is not None and 'Specialization' in p.get('kind', ''):
                n['_rec'] = p

    # ---- functions
    def owner(self, f):
        r = f.get('_rec')
        if f.get('parentDeclContextId'):
            p = self.by_id.get(f['parentDeclContextId'])
            if p is not None and ('Record' in p.get('kind', '') or 'Specialization' in p.get('kind', '')):
                r = p
        return self.qname.get(r['id']) if r else None

    def params(self, f):
        return [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def body(self, f):
        for c in f.get('inner', []):
            if c.get('kind') == 'CompoundStmt':
                return c
        return None

    def definition(self, fid):
        return self.body_of.get(fid)

    def fname(self, f):
        o = self.owner(f)
        return (o + '::' if o else f.get('_ns', '')) + f.get('name', '')

    def fields(self, rec):
        return [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']

    def is_template_pattern(self, f):
        # dependent function (its own types mention template parameters) -> no instantiation
        return False
