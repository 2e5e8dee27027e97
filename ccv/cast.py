"""Front end: clang's AST (JSON) of /repo's current sources, indexed for the verifier.

Nothing is rewritten: the verifier interprets these trees directly.  Header functions and
class definitions come with the translation units that include them."""
import json, os, subprocess, re, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = next((c for c in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++') if os.path.exists(c)), 'clang++')
FLAGS = ['-Iinclude', '-Iurdf_parser/include', '-Iurdf_parser/tinyxml', '-I' + VERIF + '/stub',
         '-isystem', '/usr/include/eigen3', '-std=c++14', '-include', 'cstddef',
         '-DEIGEN_MAX_CPP_VER=03', '-DEIGEN_NO_DEBUG', '-DNDEBUG']
TUS = {'src/kinematics.cpp': ['tinyfk', 'urdf'], 'src/tinyfk.cpp': ['tinyfk', 'urdf'],
       'src/wrapper.cpp': ['tinyfk', 'urdf', 'KinematicsModelPyWrapper'],
       'urdf_parser/src/pose.cpp': ['urdf'], 'urdf_parser/src/joint.cpp': ['urdf'],
       'urdf_parser/src/link.cpp': ['urdf'], 'urdf_parser/src/model.cpp': ['urdf']}


class FrontEndError(Exception):
    pass


def run_clang(tu, filt):
    cmd = [CLANG] + FLAGS + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, tu]
    r = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise FrontEndError('clang failed on %s:\n%s' % (tu, r.stderr.decode()[-2000:]))
    docs, dec, s, i = [], json.JSONDecoder(), r.stdout.decode(), 0
    while i < len(s):
        while i < len(s) and s[i] in ' \n\r\t':
            i += 1
        if i >= len(s):
            break
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs


class Func:
    """A function definition found in /repo."""
    def __init__(self, node, qual, cls, tu):
        self.node, self.qual, self.cls, self.tu = node, qual, cls, tu
        self.name = node['name']
        self.mangled = node.get('mangledName')
        self.type = node['type']['qualType']
        inner = node.get('inner', [])
        self.params = [n for n in inner if n['kind'] == 'ParmVarDecl']
        self.body = next((n for n in inner if n['kind'] == 'CompoundStmt'), None)
        self.inits = [n for n in inner if n['kind'] == 'CXXCtorInitializer']
        self.kind = node['kind']
        self.is_static = node.get('storageClass') == 'static'

    def __repr__(self):
        return '<Func %s %s>' % (self.qual, self.type)


class Program:
    def __init__(self, tus=None):
        self.tus = list(tus or TUS)
        self.byid = {}      # (tu, id) -> node
        self.funcs = {}     # mangled -> Func (definitions)
        self.byqual = {}    # qualified name -> [Func]
        self.records = {}   # qualified class name -> {'fields': [(name, type)], 'bases': [...]}
        self.enums = {}     # (tu, id) -> int
        self.qual = {}      # (tu,id) -> qualified name
        self.mangled_of = {}
        self.globals = {}   # (tu,id) -> VarDecl node
        jobs = [(tu, f) for tu in self.tus for f in TUS[tu]]
        # one clang run per TU and filter; overlapping filters may dump a decl twice (same structure)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: run_clang(*j), jobs))
        self.extra_done = set()
        for (tu, f), docs in zip(jobs, res):
            key = tu + '|' + f
            for d in docs:
                self._index(d, key, [], None)

    # every clang process has its own address space: ids are only comparable within (tu, filter)
    def _index(self, n, tu, scope, cls):
        if not isinstance(n, dict) or 'kind' not in n:
            return
        k = n['kind']
        if 'id' in n:
            self.byid[(tu, n['id'])] = n
            n['_tu'] = tu
        if k == 'NamespaceDecl':
            sc = scope + ([n['name']] if 'name' in n else [])
            for c in n.get('inner', []):
                self._index(c, tu, sc, None)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = n.get('name', '<anon>')
            if k == 'ClassTemplateSpecializationDecl':
                args = [a.get('type', {}).get('qualType', '?') for a in n.get('inner', []) if a['kind'] == 'TemplateArgument']
                name += '<' + ', '.join(args) + '>'
            sc = scope + [name]
            q = '::'.join(sc)
            self.qual[(tu, n['id'])] = q
            if n.get('completeDefinition'):
                fields = [(c['name'], c['type']) for c in n.get('inner', []) if c['kind'] == 'FieldDecl' and 'name' in c]
                bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in n.get('bases', [])]
                self.records.setdefault(q, {'fields': fields, 'bases': bases, 'tu': tu,
                                            'inits': {c['name']: c for c in n.get('inner', []) if c['kind'] == 'FieldDecl' and 'name' in c}})
            for c in n.get('inner', []):
                self._index(c, tu, sc, q)
            return
        if k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c['kind'] == 'ClassTemplateSpecializationDecl':
                    self._index(c, tu, scope, None)
            return
        if k == 'EnumDecl':
            v = -1
            for c in n.get('inner', []):
                if c['kind'] == 'EnumConstantDecl':
                    e = c.get('inner')
                    val = _constval(e[0]) if e else None
                    v = val if val is not None else v + 1
                    self.enums[(tu, c['id'])] = v
                    self.enums[(c['type']['qualType'], c['name'])] = v
                    c['_val'] = v
                    self.byid[(tu, c['id'])] = c
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            prev = n.get('parentDeclContextId')
            q = None
            if cls is None and k != 'FunctionDecl' and prev:
                q = self.qual.get((tu, prev))
            c2 = cls or q
            if c2 is None and k != 'FunctionDecl' and 'previousDecl' in n:
                pd = self.qual.get((tu, n['previousDecl']))
                if pd:
                    c2 = pd.rsplit('::', 1)[0]
            qual = (c2 + '::' + n['name']) if c2 else '::'.join(scope + [n.get('name', '')])
            self.qual[(tu, n['id'])] = qual
            if n.get('mangledName'):
                self.mangled_of[(tu, n['id'])] = n['mangledName']
            f = Func(n, qual, c2, tu)
            if f.body is not None:
                # the same definition is dumped by several clang runs: the first one wins
                if f.mangled not in self.funcs:
                    self.funcs[f.mangled] = f
                    self.byqual.setdefault(qual, []).append(f)
            for c in n.get('inner', []):
                self._ids(c, tu)
            return
        if k == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if c['kind'] in ('FunctionDecl', 'CXXMethodDecl') and any(x['kind'] == 'TemplateArgument' for x in c.get('inner', [])):
                    self._index(c, tu, scope, cls)
            return
        if k == 'VarDecl':
            self.globals[(tu, n['id'])] = n
            self._ids(n, tu)
            return
        for c in n.get('inner', []):
            self._index(c, tu, scope, cls)

    def _ids(self, n, tu):
        st = [n]
        while st:
            x = st.pop()
            if 'id' in x:
                self.byid[(tu, x['id'])] = x
            if x.get('kind') == 'EnumDecl':
                self._index(x, tu, [], None)
            if x.get('kind') == 'CXXRecordDecl' and x.get('completeDefinition'):
                self._index(x, tu, ['<local>'], None)
            st.extend(c for c in x.get('inner', []) if isinstance(c, dict))

    def resolve_function(self, tu, ref):
        """ref: referencedDecl / member id -> Func (a definition in /repo) or None."""
        m = self.mangled_of.get((tu, ref))
        if m and m in self.funcs:
            return self.funcs[m]
        return None

    def base_index(self):
        n = len(self.funcs)
        if getattr(self, '_bi_n', None) != n:
            self._bi, self._bi_n = {}, n
            for f in self.funcs.values():
                self._bi.setdefault(f.name, []).append(f)
        return self._bi

    def resolve_named(self, tu, rd):
        """A referenced declaration (id, name, type): by id, else the unique definition of that name and type."""
        f = self.resolve_function(tu, rd['id'])
        if f is not None:
            return f
        norm = lambda t: t.replace(' noexcept', '')
        c = [g for g in self.base_index().get(rd.get('name'), []) if norm(g.type) == norm(rd.get('type', {}).get('qualType', ''))
             and (g.kind == 'FunctionDecl' or rd.get('kind') != 'FunctionDecl')]
        return c[0] if len(c) == 1 else None

    def methods(self, cls, name):
        """Methods of that name visible in cls (nearest class first)."""
        while cls:
            c = [f for f in self.byqual.get(cls + '::' + name, []) if f.kind in ('CXXMethodDecl', 'CXXConversionDecl')]
            if c:
                return c
            bs = self.records.get(cls, {}).get('bases', [])
            cls = bs[0] if bs else None
        return []

    def lookup_missing(self, tukey, name):
        """A referenced function outside the dumped namespaces: dump it by name (once)."""
        tu = tukey.split('|')[0]
        if (tu, name) in self.extra_done:
            return False
        self.extra_done.add((tu, name))
        # ids differ between runs, so the whole TU has to be seen in one run: re-dump by this name only and
        # match by name and type
        for d in run_clang(tu, name):
            self._index(d, tu + '|' + name, [], None)
        return True

    def find(self, qual, nparams=None, typ=None):
        r = [f for f in self.byqual.get(qual, []) if (nparams is None or len(f.params) == nparams) and (typ is None or typ in f.type)]
        return r


def _constval(n):
    if 'value' in n and n['kind'] in ('ConstantExpr', 'IntegerLiteral'):
        return int(n['value'])
    for c in n.get('inner', []):
        v = _constval(c)
        if v is not None:
            return v
    return None


def line_of(n):
    r = n.get('range', {}).get('begin', {})
    for d in (r, r.get('expansionLoc', {}), r.get('spellingLoc', {})):
        if 'line' in d:
            return d['line']
    return None


def show(n, ind=0, out=None):
    out = [] if out is None else out
    ex = []
    for k in ('name', 'opcode', 'value', 'castKind', 'isArrow', 'isPostfix'):
        if k in n:
            ex.append('%s=%s' % (k, n[k]))
    if 'referencedDecl' in n:
        ex.append('ref=%s:%s' % (n['referencedDecl'].get('kind'), n['referencedDecl'].get('name')))
    if 'type' in n:
        ex.append('T=' + n['type'].get('desugaredQualType', n['type']['qualType'])[:110])
    out.append('  ' * ind + n.get('kind', '?') + ' ' + ' '.join(ex))
    for c in n.get('inner', []):
        if isinstance(c, dict):
            show(c, ind + 1, out)
    return out
