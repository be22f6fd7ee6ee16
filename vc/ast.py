"""Extraction of the real source: runs clang on /repo's current tree and indexes
the fully type-checked AST (template instantiations included)."""
import json, os, re, subprocess, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = next((c for c in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++')
              if os.path.exists(c)), 'clang++')
EX = REPO + '/incremental_calibration_examples/incremental_calibration_examples_'
INCS = ['-I' + VERIF + '/stubs/include', '-I' + REPO + '/incremental_calibration/include',
        '-I' + REPO + '/aslam_tsvd_solver/include', '-isystem', '/usr/include/eigen3']


class ExtractError(Exception):
    pass


def clang_ast(path=None, code=None, extra=(), flt='aslam::calibration', std='-std=c++14'):
    if code is not None:
        code = code.replace('$REPO', REPO)
    cmd = [CLANG, std, '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
           '-ast-dump-filter=' + flt] + INCS + list(extra)
    if code is not None:
        p = subprocess.run(cmd + ['-x', 'c++', '-'], input=code.encode(), capture_output=True)
    else:
        p = subprocess.run(cmd + [path], capture_output=True)
    if p.returncode != 0:
        raise ExtractError('clang failed: ' + p.stderr.decode()[-3000:])
    s = p.stdout.decode()
    dec = json.JSONDecoder()
    i, out, n = 0, [], len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        if s[i] != '{':
            i = s.index('\n', i) + 1
            continue
        o, i = dec.raw_decode(s, i)
        out.append(o)
    return out


def inner(n):
    return n.get('inner', [])


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


class Unit:
    """Index of one or more AST dumps (one id space per dump)."""
    def __init__(self, roots):
        self.by_id = {}          # id -> decl node
        self.defs = {}           # canonical id -> definition node (with body)
        self.classes = {}        # qualified class name (with template args) -> node
        self.methods = {}        # class name -> {method name: [def nodes]}
        self.funcs = {}          # free function name -> [def nodes]
        self.parent = {}         # id -> owning class qualified name
        self.owner = {}          # id of method definition -> class name
        self.root_ids = []
        self._fix = {}
        for r in roots:
            self._walk(r, ())
        self._link()

    def _walk(self, n, ctx):
        k = n.get('kind')
        i = n.get('id')
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            name = n.get('name', '')
            args = []
            if k != 'CXXRecordDecl':
                for a in inner(n):
                    if a.get('kind') == 'TemplateArgument':
                        if 'value' in a:
                            args.append(str(a['value']))
                        else:
                            args.append((a.get('type') or {}).get('desugaredQualType') or (a.get('type') or {}).get('qualType', '?'))
            full = name + ('<' + ', '.join(args) + '>' if args else '')
            outer = [c for c in ctx if c]
            q = '::'.join(outer + [full])
            n['_q'] = q
            n['_short'] = full
            if i:
                self.by_id[i] = n
            if n.get('completeDefinition') or any(c.get('kind') in ('CXXMethodDecl', 'FieldDecl', 'CXXConstructorDecl') for c in inner(n)):
                if q not in self.classes or k != 'CXXRecordDecl' or n.get('completeDefinition'):
                    self.classes[q] = n
            for c in inner(n):
                if isinstance(c, dict) and c:
                    if c.get('kind', '').endswith('Decl'):
                        c['_cls'] = q
                    self._walk(c, ctx + (full,))
            return
        if k == 'NamespaceDecl':
            for c in inner(n):
                self._walk(c, ctx)
            return
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            if i:
                self.by_id[i] = n
            for c in inner(n):
                if '_cls' in n and c.get('kind', '').endswith('Decl'):
                    c['_cls'] = n['_cls']
                if k == 'ClassTemplateDecl' and c.get('kind') == 'CXXRecordDecl':
                    c['_pattern'] = True
                    self._walk(c, ctx + ('$pattern',))
                else:
                    self._walk(c, ctx)
            return
        if k in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FieldDecl', 'VarDecl', 'CXXConversionDecl', 'EnumDecl', 'LinkageSpecDecl'):
            if i:
                old = self.by_id.get(i)
                if old is None or (not inner(old)) or 'previousDecl' in n and 'previousDecl' not in old and body(old) is None:
                    if old is not None and '_cls' in old and '_cls' not in n:
                        n['_cls'] = old['_cls']
                    self.by_id[i] = n
            if k == 'EnumDecl' :
                for c in inner(n):
                    if c.get('id'):
                        self.by_id[c['id']] = c
            if k == 'LinkageSpecDecl':
                for c in inner(n):
                    self._walk(c, ctx)

    def _link(self):
        # map every redeclaration to the chain root, definitions to owners
        for i, n in list(self.by_id.items()):
            k = n.get('kind')
            if k not in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                continue
            root = i
            seen = set()
            while root in self.by_id and self.by_id[root].get('previousDecl') and root not in seen:
                seen.add(root)
                root = self.by_id[root]['previousDecl']
            n['_root'] = root
            body = any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in inner(n))
            cls = n.get('_cls')
            if cls is None and root in self.by_id:
                cls = self.by_id[root].get('_cls')
            if cls is None and n.get('parentDeclContextId') in self.by_id:
                cls = self.by_id[n['parentDeclContextId']].get('_q')
            n['_owner'] = cls
            if body:
                self.defs[root] = n
                self.defs[i] = n
        for i, n in self.by_id.items():
            if '_root' in n and n['_root'] in self.defs:
                d = self.defs[n['_root']]
                self.defs[i] = d
        seen = set()
        for d in self.defs.values():
            if id(d) in seen:
                continue
            seen.add(id(d))
            cls = d.get('_owner')
            if cls and '$pattern' not in cls:
                self._resolve_aliases(d, cls)
            if cls and '$pattern' in cls:
                continue
            if d.get('kind') == 'FunctionDecl' and not cls:
                if self._is_dependent(d):
                    continue
                self.funcs.setdefault(d.get('name'), []).append(d)
            elif cls:
                self.methods.setdefault(cls, {}).setdefault(d.get('name'), []).append(d)

    def aliases(self, cls):
        """member typedefs of a class (and its bases): name -> desugared type"""
        cache = self.__dict__.setdefault('_alias', {})
        if cls not in cache:
            out = cache[cls] = {}
            for b in self.bases(cls):
                bc = self.find_class(b)
                if bc and bc != cls:
                    out.update(self.aliases(bc))
            for c in inner(self.classes.get(cls, {})):
                if c.get('kind') in ('TypedefDecl', 'TypeAliasDecl'):
                    t = c.get('type', {})
                    out[c.get('name')] = t.get('desugaredQualType') or t.get('qualType', '')
        return cache[cls]

    def _resolve_aliases(self, d, cls):
        al = self.aliases(cls)
        if not al:
            return
        rx = re.compile(r'(?<!\w)(%s)\b(?!\s*[<(:])' % '|'.join(re.escape(a) for a in al if a))
        def sub(s):
            for _ in range(3):
                n, last = '', 0
                for m in rx.finditer(s):
                    i = qualifier_start(s, m.start())
                    if i < last:
                        continue
                    n += s[last:i] + al[m.group(1)]
                    last = m.end()
                n += s[last:]
                if n == s:
                    break
                s = n
            return s
        for p in params(d):
            t = p.get('type', {})
            if 'desugaredQualType' not in t and 'qualType' in t:
                n = sub(t['qualType'])
                if n != t['qualType']:
                    t['desugaredQualType'] = n
        q = d.get('type', {}).get('qualType', '')
        depth = 0
        for i, ch in enumerate(q):
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif ch == '(' and depth == 0:
                d['_ret'] = sub(q[:i].strip())
                break

    @staticmethod
    def _is_dependent(d):
        return 'mangledName' not in d

    def method_decls(self, cls, name):
        c = self.classes.get(cls)
        out = []
        if c:
            for m in inner(c):
                if m.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl') and m.get('name') == name:
                    out.append(m)
                if m.get('kind') == 'FunctionTemplateDecl' and m.get('name') == name:
                    out += [x for x in inner(m) if x.get('kind') == 'CXXMethodDecl']
        return out

    def bases(self, cls):
        c = self.classes.get(cls)
        if not c:
            return []
        return [b['type'].get('desugaredQualType') or b['type']['qualType'] for b in c.get('bases', [])]

    def find_class(self, name):
        """name: (qualified) type string -> key in self.classes"""
        n = norm_cls(name).replace('aslam::backend::', '').replace('aslam_standin::', '').replace('truncated_svd_solver::', '')
        cache = getattr(self, '_fc', None)
        if cache is None:
            cache = self._fc = {}
            for q in self.classes:
                if '$pattern' in q:
                    continue
                cache.setdefault(norm_cls(q), q)
        if n not in cache and n.endswith('>'):
            # default template arguments are not always printed
            m = [q for k, q in cache.items() if k.startswith(n[:-1] + ',')]
            d = [q for q in m if norm_cls(q) == n[:-1] + ',1>']      # (the library's only default argument)
            if len(m) == 1 or len(d) == 1:
                cache[n] = (d or m)[0]
        return cache.get(n)


def qualifier_start(s, i):
    """start of the (balanced) qualifier that ends at i"""
    while s[:i].endswith('::'):
        j = i - 2
        if j > 0 and s[j - 1] == '>':
            depth = 0
            while j > 0:
                j -= 1
                depth += (s[j] == '>') - (s[j] == '<')
                if depth == 0:
                    break
        while j > 0 and (s[j - 1].isalnum() or s[j - 1] == '_'):
            j -= 1
        if j == i - 2:
            break
        i = j
    if s[:i].endswith('typename '):
        i -= len('typename ')
    return i


def norm_cls(s):
    s = re.sub(r'\b(const|class|struct|volatile)\b', ' ', s)
    s = s.replace('aslam::calibration::', '')
    s = s.replace('unsigned long long', 'unsigned long').replace('size_t', 'unsigned long').replace('std::', '').replace('__cxx11::', '')
    return re.sub(r'\s+', '', s)


def params(d):
    return [c for c in inner(d) if c.get('kind') == 'ParmVarDecl']


def body(d):
    for c in inner(d):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None
