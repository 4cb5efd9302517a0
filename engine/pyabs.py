"""Abstract evaluator for a subset of Python syntax trees (the record parser
script).  Nothing of the script is executed: statements are interpreted over
values in which the coefficient bytes of a record are symbolic, so that what is
printed can be attributed to the byte range of the record it came from."""
import ast
import builtins
import struct


class Unsupported(Exception):
    pass


class Raised(Exception):
    """the script raises"""

    def __init__(self, kind, text, line):
        super().__init__(text)
        self.kind, self.text, self.line = kind, text, line


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Cont(Exception):
    pass


class Tok:
    """the value of the coefficient bytes (record, index) read as a float of the given size"""

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return "\u27e6%s\u27e7" % self.text


class AB:
    """bytes some of which are symbolic: items are ints or (record, index, offset, size)"""

    def __init__(self, items):
        self.items = list(items)

    def concrete(self):
        return all(isinstance(x, int) for x in self.items)

    def raw(self):
        if not self.concrete():
            raise Unsupported("operation on the bytes of coefficients")
        return bytes(self.items)

    def __len__(self):
        return len(self.items)

    def startswith(self, p, *a):
        n = len(raw(p))
        h = self.items[:n]
        if a:
            raise Unsupported("startswith with offsets")
        if all(isinstance(x, int) for x in h):
            return bytes(h) == raw(p)
        return False     # coefficient bytes are assumed not to spell a magic

    def find(self, p, start=0, end=None):
        p = raw(p)
        end = len(self.items) if end is None else end
        for i in range(start, end - len(p) + 1):
            h = self.items[i:i + len(p)]
            if all(isinstance(x, int) for x in h) and bytes(h) == p:
                return i
        return -1

    def rfind(self, p, start=0, end=None):
        last, i = -1, self.find(p, start, end)
        while i >= 0:
            last, i = i, self.find(p, i + 1, end)
        return last

    def index(self, p, *a):
        i = self.find(p, *a)
        if i < 0:
            raise Raised("ValueError", "subsection not found", 0)
        return i

    def lstrip(self, p=b" \t\n\r\x0b\x0c"):
        i = 0
        while i < len(self.items) and isinstance(self.items[i], int) and self.items[i] in raw(p):
            i += 1
        return AB(self.items[i:])

    def rstrip(self, p=b" \t\n\r\x0b\x0c"):
        n = len(self.items)
        while n and isinstance(self.items[n - 1], int) and self.items[n - 1] in raw(p):
            n -= 1
        return AB(self.items[:n])

    def strip(self, p=b" \t\n\r\x0b\x0c"):
        return self.lstrip(p).rstrip(p)

    def removeprefix(self, p):
        return AB(self.items[len(raw(p)):]) if self.startswith(p) else self

    def partition(self, p):
        i = self.find(p)
        if i < 0:
            return (self, b"", b"")
        return (AB(self.items[:i]), p, AB(self.items[i + len(raw(p)):]))

    def split(self, p, maxsplit=-1):
        out, cur = [], self
        while maxsplit != 0:
            i = cur.find(p)
            if i < 0:
                break
            out.append(AB(cur.items[:i]))
            cur = AB(cur.items[i + len(raw(p)):])
            maxsplit -= 1
        return out + [cur]

    def decode(self, *a, **k):
        try:
            return self.raw().decode(*a, **k)
        except UnicodeDecodeError as e:
            raise Raised("UnicodeDecodeError", str(e), 0)

    def tobytes(self):
        return self

    def count(self, p):
        return len(self.split(p)) - 1


def raw(x):
    return x.raw() if isinstance(x, AB) else bytes(x)


def unpack(fmt, data, offset=None, exact=True):
    """struct.unpack over abstract bytes (little endian, natural alignment)"""
    if isinstance(fmt, (bytes, AB)):
        fmt = raw(fmt).decode()
    if not isinstance(fmt, str):
        raise Unsupported("format")
    items = data.items if isinstance(data, AB) else list(data)
    order = "@"
    body = fmt
    if fmt[:1] in "@=<>!" and fmt:
        order, body = fmt[0], fmt[1:]
    try:
        size = struct.calcsize(fmt)
    except struct.error as e:
        raise Raised("struct.error", str(e), 0)
    if offset is not None:
        if offset < 0:
            offset += len(items)
        if len(items) - offset < size:
            raise Raised("struct.error", "unpack_from requires %d bytes at %d, there are %d" % (size, offset, len(items)), 0)
        items = items[offset:offset + size]
    elif len(items) != size and exact:
        raise Raised("struct.error", "unpack requires a buffer of %d bytes, got %d" % (size, len(items)), 0)
    body = body.replace(" ", "")
    out, i, prefix = [], 0, order
    while i < len(body):
        j = i
        while body[j].isdigit():
            j += 1
        n, c = (int(body[i:j]) if j > i else None), body[j]
        i = j + 1
        if c in "sp":
            n = 1 if n is None else n
            prefix2 = prefix + "%d%s" % (n, c)
            e = struct.calcsize(prefix2)
            out.append(AB(items[e - n:e]))
            prefix = prefix2
            continue
        for _ in range(1 if n is None else n):
            prefix2 = prefix + c
            e = struct.calcsize(prefix2)
            w = struct.calcsize(order + c)
            prefix = prefix2
            if c == "x":
                continue
            h = items[e - w:e]
            if all(isinstance(x, int) for x in h):
                out.append(struct.unpack(order + c, bytes(h))[0])
            else:
                k = h[0]
                whole = isinstance(k, tuple) and k[2] == 0 and k[3] == w and all(x == (k[0], k[1], o, w) for o, x in enumerate(h))
                if whole and c in "fd" and order in "@=<":
                    out.append(Tok("%d.%d" % (k[0], k[1])))
                else:
                    out.append(Tok("bytes %s read as '%s'" % (h, order + c)))
            if len(prefix) > 400 and order in "=<>!":
                prefix = order + "%dx" % e
            elif len(prefix) > 400:
                # keep the offset and alignment: everything so far as pad bytes
                prefix = order + "%dx" % e
    return tuple(out)


class StructObj:
    def __init__(self, fmt):
        self.format, self.size = fmt, struct.calcsize(fmt)

    def unpack(self, d):
        return unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return unpack(self.format, d, offset)

    def iter_unpack(self, d):
        return iter_unpack(self.format, d)


def iter_unpack(fmt, d):
    s = struct.calcsize(fmt)
    if len(d) % s:
        raise Raised("struct.error", "iterative unpacking requires a buffer of a multiple of %d bytes" % s, 0)
    return [unpack(fmt, AB((d.items if isinstance(d, AB) else list(d))[i:i + s])) for i in range(0, len(d), s)]


class Func:
    def __init__(self, node, env, ev):
        self.node, self.env, self.ev = node, env, ev

    def __call__(self, *args, **kw):
        a = self.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        if len(args) > len(names) and not a.vararg:
            raise Raised("TypeError", "too many arguments", self.node.lineno)
        env.update(zip(names, args))
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if k.arg in kw:
                env[k.arg] = kw.pop(k.arg)
            elif d is not None:
                env[k.arg] = self.ev.ex(d, self.env)
        for k, v in kw.items():
            if k not in names:
                raise Raised("TypeError", "unexpected argument " + k, self.node.lineno)
            env[k] = v
        for n in names:
            if n not in env:
                if n not in dflt:
                    raise Raised("TypeError", "missing argument " + n, self.node.lineno)
                env[n] = self.ev.ex(dflt[n], self.env)
        scope = Scope(env, self.env)
        if isinstance(self.node, ast.Lambda):
            return self.ev.ex(self.node.body, scope)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in self.node.body for x in ast.walk(b)):
            # generators are evaluated eagerly: effects may come earlier than the consumer's
            scope.out = []
            try:
                self.ev.body(self.node.body, scope)
            except _Ret:
                pass
            return scope.out
        try:
            self.ev.body(self.node.body, scope)
        except _Ret as r:
            return r.v
        return None


class Scope:
    def __init__(self, d, up=None):
        self.d, self.up, self.out, self.nonlocals = d, up, None, {}

    def get(self, n):
        s = self
        while s is not None:
            if n in s.d:
                return s.d[n]
            s = s.up
        raise KeyError(n)

    def set(self, n, v):
        if n in self.nonlocals:
            self.nonlocals[n].d[n] = v
        else:
            self.d[n] = v

    def holder(self, n):
        s = self.up
        while s is not None:
            if n in s.d:
                return s
            s = s.up
        return None


PLAIN = (int, float, str, bytes, bool, type(None))
METHODS = {str: None, dict: {"get", "items", "keys", "values", "setdefault", "update", "pop"}, list: {"append", "extend", "pop", "insert", "index", "reverse", "sort", "copy", "count"},
           tuple: {"index", "count"}, bytes: None, int: {"from_bytes", "to_bytes", "bit_length"}, set: {"add", "update", "discard"}}


class Obj(dict):
    """a namespace, module or instance"""


class Eval:
    def __init__(self, tree, name, sections):
        self.name, self.out, self.steps, self.sections = name, [], 0, sections
        self.lines = set()
        self.glob = Scope({"__name__": "__main__"}, Scope(Obj(self.builtins())))
        self.body(tree.body, self.glob)

    def builtins(self):
        ev = self

        def pr(*a, sep=" ", end="\n", file=None, flush=False):
            if file is None:
                ev.out.append((sep or "").join(ev.text(x) for x in a) + end)

        def bytes_(x=b"", *a):
            if isinstance(x, AB):
                return x
            return bytes(x, *a)
        d = dict(print=pr, len=len, range=range, enumerate=lambda x, start=0: list(enumerate(ev.it(x), start)),
                 zip=lambda *a, strict=False: list(zip(*[ev.it(x) for x in a])), min=min, max=max, sum=sum, abs=abs, int=int, str=lambda x="", *a: x.decode(*a) if a else ev.text(x),
                 list=lambda x=(): list(ev.it(x)), tuple=lambda x=(): tuple(ev.it(x)), dict=dict, set=lambda x=(): set(ev.it(x)), bool=lambda x=False: ev.truth(x),
                 bytes=bytes_, bytearray=bytes_, memoryview=bytes_, reversed=lambda x: list(ev.it(x))[::-1], sorted=lambda x, **k: sorted(ev.it(x), **k),
                 iter=lambda x: iter(ev.it(x)), next=lambda it, *d: next(it, *d), map=lambda f, *a: [f(*t) for t in zip(*[ev.it(x) for x in a])],
                 filter=lambda f, x: [t for t in ev.it(x) if ev.truth(f(t) if f else t)], divmod=divmod, any=lambda x: any(ev.truth(t) for t in ev.it(x)), all=lambda x: all(ev.truth(t) for t in ev.it(x)),
                 format=lambda v, spec="": ev.fmt(v, spec), repr=ev.text, isinstance=lambda v, t: False)
        for e in ("Exception", "RuntimeError", "ValueError", "AssertionError", "KeyError", "IndexError", "TypeError", "NotImplementedError", "StopIteration", "EOFError"):
            d[e] = type(e, (Exception,), {})
        d["__modules__"] = {
            "struct": Obj(unpack=unpack, unpack_from=lambda f, d, offset=0: unpack(f, d, offset), calcsize=struct.calcsize, Struct=StructObj, iter_unpack=iter_unpack,
                          error=type("error", (Exception,), {})),
            "itertools": Obj(count=__import__("itertools").count, chain=lambda *a: [y for x in a for y in ev.it(x)], islice=lambda x, *a: list(__import__("itertools").islice(ev.it(x), *a)),
                             repeat=__import__("itertools").repeat, product=lambda *a: list(__import__("itertools").product(*[ev.it(x) for x in a]))),
            "collections": Obj(namedtuple=__import__("collections").namedtuple, OrderedDict=dict),
            "sys": Obj(argv=["x"], stdout=Obj(write=lambda s: ev.out.append(ev.text(s))), stderr=Obj(write=lambda s: None), byteorder="little", exit=ev.exit),
        }
        ap = Obj(add_argument=lambda *a, **k: None, parse_args=lambda *a: Obj(object="the object file"), add_argument_group=lambda *a, **k: ap)
        d["__modules__"]["argparse"] = Obj(ArgumentParser=lambda *a, **k: ap, ArgumentDefaultsHelpFormatter=None)

        def sec(n):
            return Obj(name=n, data=lambda: ev.sections[n], data_size=len(ev.sections[n]))
        elf = Obj(get_section_by_name=lambda n: sec(n) if n in ev.sections else None, iter_sections=lambda *a: [sec(n) for n in ev.sections], little_endian=True)
        d["__modules__"]["elftools.elf.elffile"] = Obj(ELFFile=lambda f: elf)
        d["open"] = lambda *a, **k: Obj(close=lambda: None)
        return d

    def exit(self, *a):
        raise Raised("SystemExit", "the script exits", 0)

    def it(self, x):
        if isinstance(x, (list, tuple, range, dict, set, str, bytes)) or hasattr(x, "__next__") or type(x).__name__ in ("dict_items", "dict_keys", "dict_values", "repeat", "count"):
            return x
        if isinstance(x, AB):
            return [i if isinstance(i, int) else Tok("byte %s" % (i,)) for i in x.items]
        raise Unsupported("iteration over %s" % type(x).__name__)

    def truth(self, x):
        if isinstance(x, Tok):
            raise Unsupported("decision on the value of a coefficient")
        if isinstance(x, AB):
            return len(x) > 0
        return bool(x)

    def text(self, x):
        if isinstance(x, AB):
            return repr(x.raw())
        return repr(x) if isinstance(x, Tok) else str(x)

    def fmt(self, v, spec):
        if isinstance(v, Tok):
            if spec.rstrip("0123456789.+-<>^ #")[-1:] in ("d", "x", "c", "b", "o", "s"):
                raise Raised("ValueError", "format code '%s' for a float" % spec, 0)
            return repr(v)
        if isinstance(v, AB):
            return self.text(v)
        return format(v, spec)

    # ---------------------------------------------------------------- statements
    def body(self, stmts, env):
        for s in stmts:
            self.st(s, env)

    def st(self, s, env):
        self.steps += 1
        self.lines.add(s.lineno)
        if self.steps > 400000:
            raise Raised("no termination", "the parser does not come to an end", s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("%s (line %d)" % (type(s).__name__, s.lineno))
        try:
            m(s, env)
        except Raised as r:
            r.line = r.line or s.lineno
            raise
        except (Unsupported, _Ret, _Break, _Cont, RecursionError):
            raise
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, ZeroDivisionError, StopIteration, struct.error) as e:
            raise Raised(type(e).__name__, str(e), s.lineno)

    def s_Expr(self, s, env):
        self.ex(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            env.set((a.asname or a.name).split(".")[0], self.module(a.name))

    def s_ImportFrom(self, s, env):
        m = self.module(s.module)
        for a in s.names:
            if m is None:
                env.set(a.asname or a.name, None)
            elif a.name in m:
                env.set(a.asname or a.name, m[a.name])
            else:
                raise Unsupported("%s.%s" % (s.module, a.name))

    def module(self, n):
        return self.glob.get("__modules__").get(n)

    def s_FunctionDef(self, s, env):
        f = Func(s, env, self)
        if s.decorator_list:
            raise Unsupported("decorator (line %d)" % s.lineno)
        env.set(s.name, f)

    def s_ClassDef(self, s, env):
        # exceptions only
        if not all(isinstance(x, (ast.Pass, ast.Expr)) for x in s.body):
            ns = Scope({}, env)
            if s.decorator_list:
                raise Unsupported("decorated class %s" % s.name)
            for x in s.body:
                if not (isinstance(x, ast.Assign) or isinstance(x, ast.Expr)):
                    raise Unsupported("class %s" % s.name)
            self.body(s.body, ns)
            if any(isinstance(b, ast.Name) and "Enum" in b.id for b in s.bases):
                raise Unsupported("enumeration %s" % s.name)
            env.set(s.name, Obj(ns.d))
            return
        env.set(s.name, type(s.name, (Exception,), {}))

    def s_Return(self, s, env):
        raise _Ret(self.ex(s.value, env) if s.value else None)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Cont()

    def s_If(self, s, env):
        self.body(s.body if self.truth(self.ex(s.test, env)) else s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.ex(s.test, env)):
            n += 1
            if n > 5000:
                raise Raised("no termination", "the loop does not come to an end", s.lineno)
            try:
                self.body(s.body, env)
            except _Break:
                return
            except _Cont:
                continue
        self.body(s.orelse, env)

    def s_For(self, s, env):
        for v in self.it(self.ex(s.iter, env)):
            self.assign(s.target, v, env)
            try:
                self.body(s.body, env)
            except _Break:
                return
            except _Cont:
                continue
        self.body(s.orelse, env)

    def s_With(self, s, env):
        for i in s.items:
            v = self.ex(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env)
        self.body(s.body, env)

    def s_Assert(self, s, env):
        if not self.truth(self.ex(s.test, env)):
            raise Raised("AssertionError", "assertion fails", s.lineno)

    def s_Raise(self, s, env):
        e = self.ex(s.exc, env) if s.exc else None
        raise Raised(type(e).__name__ if not isinstance(e, type) else e.__name__, str(e), s.lineno)

    def s_Try(self, s, env):
        try:
            self.body(s.body, env)
        except Raised as r:
            for h in s.handlers:
                names = [] if h.type is None else [x.attr if isinstance(x, ast.Attribute) else x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if h.type is None or r.kind in names or r.kind.split(".")[-1] in names or "Exception" in names:
                    if h.name:
                        env.set(h.name, r.text)
                    self.body(h.body, env)
                    break
            else:
                raise
        else:
            self.body(s.orelse, env)
        finally:
            self.body(s.finalbody, env)

    def s_Global(self, s, env):
        for n in s.names:
            env.nonlocals[n] = self.glob

    def s_Nonlocal(self, s, env):
        for n in s.names:
            env.nonlocals[n] = env.holder(n)

    def s_Assign(self, s, env):
        v = self.ex(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ex(s.value, env), env)

    def s_AugAssign(self, s, env):
        cur = self.ex(ast.copy_location(_load(s.target), s.target), env)
        v = self.ex(s.value, env)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            cur.extend(self.it(v))
            return
        self.assign(s.target, self.binop(s.op, cur, v), env)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.d.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_Match(self, s, env):
        v = self.ex(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, v, env) and (c.guard is None or self.truth(self.ex(c.guard, env))):
                self.body(c.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return v == self.ex(p.value, env)
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                env.set(p.name, v)
            return True
        raise Unsupported("match pattern")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.it(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i, k = star[0], len(t.elts) - star[0] - 1
                if len(vs) < len(t.elts) - 1:
                    raise Raised("ValueError", "not enough values to unpack", t.lineno)
                vs = vs[:i] + [vs[i:len(vs) - k]] + (vs[len(vs) - k:] if k else [])
            if len(vs) != len(t.elts):
                raise Raised("ValueError", "%d values for %d names" % (len(vs), len(t.elts)), t.lineno)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Subscript):
            o = self.ex(t.value, env)
            if not isinstance(o, (dict, list)) or isinstance(t.slice, ast.Slice):
                raise Unsupported("assignment to a subscript")
            o[self.ex(t.slice, env)] = v
        else:
            raise Unsupported("assignment to %s" % type(t).__name__)

    # ---------------------------------------------------------------- expressions
    def ex(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("%s (line %d)" % (type(e).__name__, getattr(e, "lineno", 0)))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        try:
            return env.get(e.id)
        except KeyError:
            if e.id in dir(builtins):
                raise Unsupported("builtin " + e.id)
            raise Raised("NameError", e.id, e.lineno)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out += list(self.it(self.ex(x.value, env)))
            else:
                out.append(self.ex(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ex(v, env))
            else:
                d[self.ex(k, env)] = self.ex(v, env)
        return d

    def e_NamedExpr(self, e, env):
        v = self.ex(e.value, env)
        env.set(e.target.id, v)
        return v

    def e_IfExp(self, e, env):
        return self.ex(e.body if self.truth(self.ex(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        for x in e.values:
            v = self.ex(x, env)
            if self.truth(v) != isinstance(e.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ex(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Tok):
            return Tok("%s of %s" % (type(e.op).__name__, v.text))
        return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ex(e.left, env), self.ex(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, Tok) or (isinstance(b, Tok) and not isinstance(op, ast.Mod)):
            if isinstance(op, ast.Add) and isinstance(b, (int, float)) and b == 0:
                return a
            if isinstance(op, ast.Mult) and isinstance(b, (int, float)) and b == 1:
                return a
            return Tok("%s of %r and %r" % (type(op).__name__, a, b))
        if isinstance(a, AB) or isinstance(b, AB):
            if isinstance(op, ast.Add):
                return AB((a.items if isinstance(a, AB) else list(a)) + (b.items if isinstance(b, AB) else list(b)))
            raise Unsupported("operator on bytes")
        n = type(op).__name__
        if n == "Mod" and isinstance(a, str):
            bs = b if isinstance(b, (tuple, dict)) else (b,)
            if isinstance(bs, dict):
                raise Unsupported("% with a dictionary")
            import re
            specs = re.findall(r"%[-+ #0-9.*]*([a-zA-Z%])", a)
            specs = [x for x in specs if x != "%"]
            t = re.sub(r"%[-+ #0-9.]*([feEgGrs])", lambda mo: "%s" if False else mo.group(0), a)
            vals = []
            for sp, v in zip(specs, bs):
                if isinstance(v, Tok) and sp in "dxXoc":
                    return Tok("format %%%s of %s" % (sp, v.text))
                vals.append(v)
            k = iter(bs)

            def one(mo):
                if mo.group(0) == "%%":
                    return "%"
                v = next(k)
                return repr(v) if isinstance(v, Tok) else mo.group(0) % (self.text(v) if isinstance(v, AB) else v,)
            return re.sub(r"%%|%[-+ #0-9.]*[a-zA-Z]", one, t)
        f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Div": lambda: a / b, "LShift": lambda: a << b,
             "RShift": lambda: a >> b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Pow": lambda: a ** b}.get(n)
        if f is None:
            raise Unsupported("operator " + n)
        return f()

    def e_Compare(self, e, env):
        a = self.ex(e.left, env)
        for op, x in zip(e.ops, e.comparators):
            b = self.ex(x, env)
            n = type(op).__name__
            if n in ("Is", "IsNot"):
                r = (a is b) == (n == "Is")
            else:
                if isinstance(a, AB) and a.concrete():
                    a = a.raw()
                bb = b.raw() if isinstance(b, AB) and b.concrete() else b
                if isinstance(a, (Tok, AB)) or isinstance(bb, Tok) or isinstance(bb, AB):
                    if n in ("Eq", "NotEq") and (isinstance(a, AB) or isinstance(bb, AB)):
                        r = n == "NotEq"      # coefficient bytes against something else
                    elif n in ("In", "NotIn") and isinstance(bb, AB):
                        r = (bb.find(a) >= 0) == (n == "In")
                    else:
                        raise Unsupported("comparison of coefficients")
                else:
                    r = {"Eq": lambda: a == bb, "NotEq": lambda: a != bb, "Lt": lambda: a < bb, "LtE": lambda: a <= bb, "Gt": lambda: a > bb, "GtE": lambda: a >= bb,
                         "In": lambda: a in bb, "NotIn": lambda: a not in bb}[n]()
            if not r:
                return False
            a = b
        return True

    def e_JoinedStr(self, e, env):
        out = ""
        for x in e.values:
            if isinstance(x, ast.Constant):
                out += x.value
            else:
                v = self.ex(x.value, env)
                spec = self.ex(x.format_spec, env) if x.format_spec else ""
                if x.conversion in (114, 97) and not isinstance(v, Tok):
                    v = repr(v.raw() if isinstance(v, AB) else v)
                out += self.fmt(v, spec)
        return out

    def e_Subscript(self, e, env):
        o = self.ex(e.value, env)
        if isinstance(e.slice, ast.Slice):
            s = slice(*[self.ex(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)])
            return AB(o.items[s]) if isinstance(o, AB) else o[s]
        i = self.ex(e.slice, env)
        if isinstance(i, (Tok, AB)):
            raise Unsupported("index")
        if isinstance(o, AB):
            x = o.items[i]
            return x if isinstance(x, int) else Tok("byte %s" % (x,))
        return o[i]

    def e_Attribute(self, e, env):
        o = self.ex(e.value, env)
        if isinstance(o, Obj):
            if e.attr in o:
                return o[e.attr]
            raise Unsupported("." + e.attr)
        if o is int and e.attr == "from_bytes":
            return lambda b, byteorder="big", signed=False: int.from_bytes(raw(b), byteorder, signed=signed)
        if isinstance(o, str) and e.attr == "format":
            return lambda *a, **k: self.strformat(o, a, k)
        if isinstance(o, str) and e.attr == "join":
            return lambda xs: o.join(self.text(x) for x in self.it(xs))
        if isinstance(o, bytes) and e.attr == "join":
            return lambda xs: self.join(o, xs)
        if isinstance(o, (AB, StructObj)):
            if hasattr(o, e.attr) and e.attr not in ("raw", "items", "concrete"):
                return getattr(o, e.attr)
            raise Unsupported("bytes." + e.attr)
        if isinstance(o, tuple) and hasattr(type(o), "_fields"):
            return getattr(o, e.attr)
        if isinstance(o, type) and hasattr(o, "_fields"):
            return getattr(o, e.attr)
        for t, names in METHODS.items():
            if isinstance(o, t) and (names is None or e.attr in names):
                if e.attr in ("items", "keys", "values"):
                    f = getattr(o, e.attr)
                    return lambda: list(f())
                return getattr(o, e.attr)
        raise Unsupported("attribute ." + e.attr)

    def join(self, o, xs):
        out = []
        for i, x in enumerate(self.it(xs)):
            if i:
                out += list(o)
            out += x.items if isinstance(x, AB) else list(x)
        return AB(out)

    def strformat(self, s, a, k):
        import string
        out, auto = "", 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            out += lit
            if field is None:
                continue
            if field == "":
                v, auto = a[auto], auto + 1
            elif field.isdigit():
                v = a[int(field)]
            elif field.isidentifier():
                v = k[field]
            else:
                raise Unsupported("format field")
            out += self.fmt(v, spec or "")
        return out

    def e_Lambda(self, e, env):
        return Func(e, env, self)

    def e_Call(self, e, env):
        f = self.ex(e.func, env)
        if f is None:
            raise Unsupported("call of an unknown function (line %d)" % e.lineno)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ex(k.value, env))
            else:
                kw[k.arg] = self.ex(k.value, env)
        if isinstance(f, type) and issubclass(f, Exception):
            r = f.__new__(f)
            r.args = tuple(self.text(a) for a in args)
            return r
        if f in (int, float) and args and isinstance(args[0], Tok):
            return args[0] if f is float else Tok("int of " + args[0].text)
        if f is len and isinstance(args[0], Tok):
            raise Raised("TypeError", "len of a coefficient", e.lineno)
        self.steps += 1
        return f(*args, **kw)

    def e_Yield(self, e, env):
        s = env
        while s is not None and s.out is None:
            s = s.up
        if s is None:
            raise Unsupported("yield")
        s.out.append(self.ex(e.value, env) if e.value else None)

    def e_YieldFrom(self, e, env):
        s = env
        while s is not None and s.out is None:
            s = s.up
        if s is None:
            raise Unsupported("yield")
        s.out += list(self.it(self.ex(e.value, env)))

    def comp(self, gens, env, leaf):
        if not gens:
            leaf(env)
            return
        g = gens[0]
        for v in self.it(self.ex(g.iter, env)):
            sc = Scope({}, env)
            self.assign(g.target, v, sc)
            if all(self.truth(self.ex(c, sc)) for c in g.ifs):
                self.comp(gens[1:], sc, leaf)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, Scope({}, env), lambda s: out.append(self.ex(e.elt, s)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        out = {}
        self.comp(e.generators, Scope({}, env), lambda s: out.__setitem__(self.ex(e.key, s), self.ex(e.value, s)))
        return out


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def analyse(src, name, sections):
    """interpret the script from its entry on an object file with the given
    sections (name -> AB); .out is what it prints"""
    return Eval(ast.parse(src, name), name, sections)
