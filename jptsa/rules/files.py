"""C11: files that the library opens are closed on every path; files of the caller are not."""
import ast

from ..program import Program, own_nodes

OPENERS = {'open', 'io.open', 'gzip.open', 'bz2.open', 'lzma.open', 'codecs.open', 'os.fdopen', 'fdopen', 'zipfile.ZipFile', 'ZipFile', 'tarfile.open',
           'tempfile.NamedTemporaryFile', 'NamedTemporaryFile', 'tempfile.TemporaryFile', 'TemporaryFile', 'bz2.BZ2File', 'gzip.GzipFile', 'PdfPages',
           'lzma.LZMAFile', 'BZ2File', 'GzipFile', 'LZMAFile', 'FileIO', 'io.FileIO', 'shelve.open', 'h5py.File', 'sqlite3.connect'}
PATHOPEN = {'open'}             # methods of pathlib.Path


def parents(tree):
    out = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + '.' + n.attr if b else '?.' + n.attr
    return None


def is_open(call, module, wrappers):
    d = dotted(call.func)
    if d is None:
        return False
    if d in OPENERS:
        return not (d == 'open' and 'open' in module.shadow)
    last = d.rpartition('.')[2]
    if last in wrappers:
        return True
    return '.' in d and last == 'open' and (d.startswith('?') or d.split('.')[0] not in module.imports)


def closes(stmts, name):
    """does every normal path through the statements close the file? (first level statements only)"""
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'close' and dotted(n.func.value) == name:
                return True
    return False


def safe_stmt(s):
    """cannot raise in practice: constants and plain names"""
    return isinstance(s, (ast.Pass,)) or isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant, ast.Name)) or \
        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def block_of(stmt, par):
    p = par.get(stmt)
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(p, f, None)
        if isinstance(b, list) and stmt in b:
            return b, b.index(stmt), p
    return None, None, p


def managed(name, stmt, par):
    """a variable that holds an open file after ``stmt``: is it closed on every path?"""
    while True:
        b, i, p = block_of(stmt, par)
        if b is None:
            return False
        for s in b[i + 1:]:
            if safe_stmt(s):
                continue
            if isinstance(s, ast.With) and any(dotted(x.context_expr) == name or isinstance(x.context_expr, ast.Call) and
                                               any(dotted(a) == name for a in x.context_expr.args) and dotted(x.context_expr.func) in ('closing', 'contextlib.closing')
                                               for x in s.items):
                return True
            if isinstance(s, ast.Try) and s.finalbody and closes(s.finalbody, name):
                return True
            if isinstance(s, ast.Expr) and closes([s], name):
                return True
            return False
        # the end of the block of an if (both arms open the file, say): go on behind it
        if isinstance(p, ast.If):
            stmt = p
            continue
        if isinstance(p, ast.Try) and p.finalbody and closes(p.finalbody, name):
            return True
        return False


def in_try_closing(stmt, name, par):
    n = stmt
    while n in par:
        p = par[n]
        if isinstance(p, ast.Try) and n in p.body and p.finalbody and closes(p.finalbody, name):
            return True
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            break
        n = p
    return False


def judge(call, par):
    """-> (True, how) closed / (None, how) handed on to the caller / (False, how) leaked"""
    n = call
    while True:
        p = par.get(n)
        if isinstance(p, ast.withitem) and p.context_expr is n:
            return True, 'with'
        if isinstance(p, ast.IfExp) and n in (p.body, p.orelse) or isinstance(p, (ast.NamedExpr, ast.BoolOp)):
            if isinstance(p, ast.NamedExpr):
                s = p
                while s in par and not isinstance(s, ast.stmt):
                    s = par[s]
                return (True, 'closed') if managed(p.target.id, s, par) else (False, 'bound to %s, not closed on every path' % p.target.id)
            n = p
            continue
        if isinstance(p, ast.Call) and n in p.args:
            f = dotted(p.func) or ''
            if f.rpartition('.')[2] in ('enter_context', 'push', 'callback'):
                return True, f
            if f in ('closing', 'contextlib.closing'):
                n = p
                continue
            return False, 'passed to %s() and never closed' % f
        if isinstance(p, ast.Return):
            return None, 'returned'
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if len(ts) == 1 and isinstance(ts[0], ast.Name):
                name = ts[0].id
                if managed(name, p, par) or in_try_closing(p, name, par):
                    return True, 'closed in every case'
                b, i, q = block_of(p, par)
                fn = p
                while fn in par and not isinstance(fn, ast.FunctionDef):
                    fn = par[fn]
                rest = b[i + 1:] if b is not None else []
                if rest and all(safe_stmt(s) or isinstance(s, ast.Return) for s in rest) and isinstance(rest[-1], ast.Return) and dotted(rest[-1].value) == name:
                    return None, 'returned'
                if isinstance(fn, ast.FunctionDef) and any(isinstance(d, (ast.Name, ast.Attribute)) and dotted(d).endswith('contextmanager') for d in fn.decorator_list):
                    pass
                return False, 'bound to %s, which is not closed on every path' % name
            return False, 'stored and not closed'
        if isinstance(p, ast.Attribute):
            return False, 'used by .%s() and never closed' % p.attr
        return False, 'never closed'


def rule_C11(ctx):
    ctx.rule('typestate of files: what open() and its kin return is managed by with, closed in a finally or at once, or handed to a caller that does so; '
             'no function closes a file object that it was passed')
    p = Program(ctx.root)
    wrappers = {}
    for m in p.modules.values():
        m.par = parents(m.tree)
        m.imports = {a.asname or a.name.split('.')[0] for n in ast.walk(m.tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        m.shadow = {n.name for n in m.tree.body if isinstance(n, ast.FunctionDef)}
    sites = []
    changed = True
    while changed:
        changed = False
        sites = []
        for m in p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and is_open(n, m, wrappers):
                    fn = n
                    while fn in m.par and not isinstance(fn, ast.FunctionDef):
                        fn = m.par[fn]
                    name = fn.name if isinstance(fn, ast.FunctionDef) else '<module>'
                    r, how = judge(n, m.par)
                    if r is None and name not in wrappers:
                        wrappers[name] = True
                        changed = True
                    sites.append((m, n, name, r, how))
    for m, n, name, r, how in sites:
        ctx.count('files opened')
        k = '%s in %s: %s' % (dotted(n.func), name, m.rel)
        if r is False:
            ctx.bad('%s (%s)' % (k, how.split(',')[0]), '%s:%d: the file is %s' % (m.rel, n.lineno, how))
        else:
            ctx.ok(k, how)
    # files of the caller
    for m in p.modules.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            params = {a.arg for a in fn.args.args + fn.args.kwonlyargs} - {'self', 'cls'}
            alias = {}
            for n in own_nodes(fn):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    alias.setdefault(n.targets[0].id, []).append(n.value)
            for n in own_nodes(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'close':
                    d = dotted(n.func.value)
                    vals = alias.get(d, []) if d not in params else []
                    ctx.count('calls of close')
                    if d in params or any(isinstance(x, ast.Name) and x.id in params or isinstance(x, ast.IfExp) and
                                          any(isinstance(y, ast.Name) and y.id in params for y in (x.body, x.orelse)) for x in vals):
                        ctx.bad('close of %s in %s' % (d, fn.name), '%s:%d: %s closes a file that belongs to its caller' % (m.rel, n.lineno, fn.name))
                if isinstance(n, ast.With):
                    for it in n.items:
                        e = it.context_expr
                        names = [e] if isinstance(e, ast.Name) else [e.body, e.orelse] if isinstance(e, ast.IfExp) else []
                        for x in names:
                            if isinstance(x, ast.Name) and x.id in params and fn.name in ('save', 'load', 'dump', 'pickle') :
                                ctx.bad('with %s in %s' % (x.id, fn.name), '%s:%d: %s closes a file that belongs to its caller' % (m.rel, n.lineno, fn.name))
    ctx.count('modules', len(p.modules))
    ctx.floor('files opened', 3)
