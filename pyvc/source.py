"""Reading the real source: modules, functions and global names of /repo."""
import ast
import hashlib
import os

REPO = os.environ.get('PYVC_REPO', '/repo')


class Ext:
    """External (library) object, by dotted path."""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ext(%s)' % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(('Ext', self.path))


class FuncVal:
    """Function of the repository (module-level, method or nested)."""
    def __init__(self, module, qual, node, cls=None, closure=None, kind='function'):
        self.module, self.qual, self.node, self.cls = module, qual, node, cls
        self.closure = closure
        self.kind = kind

    @property
    def key(self):
        return '%s:%s' % (self.module.name, self.qual)

    def __repr__(self):
        return 'FuncVal(%s)' % self.key


class ClassVal:
    def __init__(self, module, qual, node):
        self.module, self.qual, self.node = module, qual, node
        self._members = None

    @property
    def key(self):
        return '%s:%s' % (self.module.name, self.qual)

    def __repr__(self):
        return 'ClassVal(%s)' % self.key

    def bases(self):
        return [self.module.eval_static(b) for b in self.node.bases]

    def mro(self):
        """linearisation over repository classes and Ext bases"""
        def merge(seqs):
            res = []
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return res
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise ValueError('mro')
                res.append(c)
                seqs = [[x for x in s if x is not c and x != c] if s[0] == c else s for s in seqs]
        bs = self.bases()
        seqs = [b.mro() if isinstance(b, ClassVal) else [b] for b in bs] + [bs]
        return [self] + merge(seqs)

    def own(self):
        if self._members is None:
            m = {}
            for st in self.node.body:
                if isinstance(st, ast.FunctionDef):
                    m[st.name] = FuncVal(self.module, self.qual + '.' + st.name, st, cls=self)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m[t.id] = ('expr', st.value)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    m[st.target.id] = ('expr', st.value)
                elif isinstance(st, ast.ClassDef):
                    m[st.name] = ClassVal(self.module, self.qual + '.' + st.name, st)
            self._members = m
        return self._members

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassVal) and name in c.own():
                return c, c.own()[name]
        return None, None

    def is_subclass(self, other):
        return any(c is other or c == other for c in self.mro())


class Module:
    def __init__(self, repo, name, path):
        self.repo, self.name, self.path = repo, name, path
        with open(path, 'rb') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, path)
        self.bind = {}
        self._collect(self.tree.body)
        self._vals = {}

    def _collect(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.bind[a.asname] = ('module', a.name)
                    else:
                        self.bind[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    parts = self.name.split('.')
                    base = parts[:-st.level] if not self.path.endswith('__init__.py') else parts[:len(parts) - st.level + 1]
                    mod = '.'.join(base + ([mod] if mod else []))
                for a in st.names:
                    self.bind[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.bind[st.name] = ('def', st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.bind[t.id] = ('expr', st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.bind[st.target.id] = ('expr', st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._collect(st.body)

    def get(self, name):
        """static value of a global or None"""
        if name in self._vals:
            return self._vals[name]
        b = self.bind.get(name)
        if b is None:
            return None
        v = None
        if b[0] == 'module':
            v = self.repo.modref(b[1])
        elif b[0] == 'from':
            v = self.repo.resolve_from(b[1], b[2])
        elif b[0] == 'def':
            if isinstance(b[1], ast.FunctionDef):
                v = FuncVal(self, b[1].name, b[1])
            else:
                v = ClassVal(self, b[1].name, b[1])
        elif b[0] == 'expr':
            v = ('expr', self, b[1])
        self._vals[name] = v
        return v

    def eval_static(self, node):
        """names / attribute chains of classes and externals"""
        if isinstance(node, ast.Name):
            v = self.get(node.id)
            if v is None:
                return Ext('builtins.' + node.id)
            if isinstance(v, tuple) and v[0] == 'expr':
                return v[1].eval_static(v[2])
            return v
        if isinstance(node, ast.Attribute):
            b = self.eval_static(node.value)
            if isinstance(b, Ext):
                return Ext(b.path + '.' + node.attr)
            if isinstance(b, Module):
                return b.get(node.attr)
            if isinstance(b, ClassVal):
                return b.lookup(node.attr)[1]
        return node


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.root, *name.split('.'))
        path = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(path):
            return None
        m = self.mods[name] = Module(self, name, path)
        return m

    def modref(self, name):
        if name.split('.')[0] == 'crowddynamics':
            m = self.module(name)
            if m is not None:
                return m
        return Ext(name)

    def resolve_from(self, mod, name):
        if mod.split('.')[0] == 'crowddynamics':
            m = self.module(mod)
            if m is not None:
                if name in m.bind:
                    return m.get(name)
                sub = self.module(mod + '.' + name)
                if sub is not None:
                    return sub
        return Ext(mod + '.' + name)

    def function(self, key):
        """'module:qual' -> FuncVal (qual may be Class.method)"""
        mod, qual = key.split(':')
        m = self.module(mod)
        if m is None:
            return None
        parts = qual.split('.')
        v = m.get(parts[0])
        for p in parts[1:]:
            if isinstance(v, ClassVal):
                v = v.lookup(p)[1]
            else:
                return None
        return v

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.mods):
            h.update(self.mods[n].text)
        return h.hexdigest()[:16]
