"""C10: prior, basis and waveform functions receive the right arguments."""
import itertools
from cv.sym.contract import *

F = "enterprise.signals.parameter.Function"
SF = "enterprise.signals.selections.selection_func"
BOUNDED = ["functions of up to four arguments: one per-TOA argument, and up to two that are declared in each of all possible ways, given or not, with or without such an attribute of the pulsar (the values are opaque, the numbers of TOAs arbitrary)"]


class Value(E.Obj):
    """Any value: nothing is known of it but that it is that value."""

    def __bool__(self):
        raise Unsupported("the truth value of an argument")

    def __repr__(self):
        return "<%s>" % self.what


KINDS = ["none", "class", "shared", "constant", "shared constant", "value", "nested", "nested instance", "named nested"]
ATTRS = ["", "scalar", "method", "per TOA", "another array"]


class Case:
    """One declaration of the arguments a and b of a function (toas, a, b=, free=), one pulsar and one call."""

    def __init__(self, V, pm, fname="", pname=""):
        self.V, self.pm, self.fname, self.pname = V, pm, fname, pname
        self.n = V.size("ntoas")
        self.log = []

    def function(self):
        log = self.log

        def f(toas, a, b="default b", free="default free"):
            log.append(dict(toas=toas, a=a, b=b, free=free))
            return Value(what="result")
        return f

    def inner(self, arg, log):
        """The function nested in argument arg, of arguments of its own: x declared a parameter, y a value, stoas an attribute"""
        names = dict(a=("xa", "ya"), b=("xb", "yb"))[arg]
        d = {}
        exec("def inner(stoas, %s, %s='default', z='default z'):\n    log.append((stoas, %s, %s, z))\n    return out" % (names * 2), dict(log=log, out=Value(what="value of the function nested in " + arg)), d)
        return d["inner"], names

    def declare(self, arg, kind):
        """What argument arg is declared as; and afterwards: the name of its parameter (if any), its value"""
        pm = self.pm
        full = lambda *xs: "_".join(x for x in xs if x)
        U = pm.Uniform(0, 1)
        if kind == "class":
            return U, full(self.pname, self.fname, arg), None
        if kind == "shared":
            return U("shared_" + arg), "shared_" + arg, None
        if kind == "constant":
            v = Value(what="constant " + arg)
            return pm.Constant(v), None, ("is", v)
        if kind == "shared constant":
            v = Value(what="shared constant " + arg)
            return pm.Constant(v)("shared_" + arg), None, ("is", v)
        if kind == "value":
            v = Value(what="value " + arg)
            return v, None, ("is", v)
        log = []
        f, (x, y) = self.inner(arg, log)
        yv = Value(what="plain value " + y)
        nf = "fn" if kind == "named nested" else ""
        cls = pm.Function(f, name=nf, **{x: U, y: yv})
        if kind == "nested instance":
            return cls("mine", psr=self.psr), "mine_" + x, ("nested", log, yv)
        return cls, full(self.pname, self.fname, arg, nf, x), ("nested", log, yv)

    def pulsar(self, attrs):
        per = lambda name: SArr((Axis(self.n),), lambda i: app(name, i))
        psr = E.Obj(toas=per("toas"), stoas=per("stoas"), name="psr")
        for arg, kind in attrs.items():
            if kind == "scalar":
                setattr(psr, arg, Value(what="attribute " + arg))
            elif kind == "method":
                setattr(psr, arg, (lambda v: lambda: v)(Value(what="method " + arg)))
            elif kind == "per TOA":
                setattr(psr, arg, per("attr_" + arg))
            elif kind == "another array":
                setattr(psr, arg, SArr((Axis(self.n + 1),), lambda i: app("attr_" + arg, i)))
        self.psr = psr
        return psr

    def restrict(self, arr_, mask):
        return arr_ if mask is None else arr_[mask]

    def attribute(self, arg, kind, mask):
        """The value of the attribute of that name"""
        v = getattr(self.psr, arg)
        if kind == "method":
            return v()
        return self.restrict(v, mask) if kind == "per TOA" else v


def check(V, what, got, want):
    if isinstance(want, SArr):
        return V.eq(what, got, want)
    return V.done(what, got is want or (isinstance(want, str) and got == want), "got %r, want %r" % (got, want))


def one(V, pm, kinds, attrs, given, known, mask, fname="", pname="psr_sig", toas=None, ctor=True, extra=False, swap=False):
    """kinds: argument -> how it is declared; attrs: argument -> attribute of the pulsar; given: argument -> "" / "keyword" / "positional";
    known: arguments whose parameter is in the call's dictionary."""
    c = Case(V, pm, fname, pname)
    state = {}

    def run():
        del c.log[:]
        psr = c.pulsar(attrs)
        decl, names, vals = {}, {}, {}
        for arg, kind in kinds.items():
            if kind != "none":
                decl[arg], names[arg], vals[arg] = c.declare(arg, kind)
        cls = pm.Function(c.function(), name=fname, **decl)
        f = cls(pname, psr=psr) if ctor else cls(pname)
        params = {names[a]: Value(what="parameter " + names[a]) for a in names if names[a] and a in known}
        params["unrelated"] = Value(what="unrelated")
        m = SArr((Axis(c.n),), lambda i: PY.pred("in", i), "b") if mask else None
        args, kw, ex = [], {}, {}
        if toas:
            ex["toas"] = args_toas = Value(what="explicit toas")
            if toas == "positional":
                args.append(args_toas)
            else:
                kw["toas"] = args_toas
        for arg in ("a", "b"):
            if given.get(arg):
                ex[arg] = Value(what="explicit " + arg)
                if given[arg] == "positional":
                    args.append(ex[arg])
                else:
                    kw[arg] = ex[arg]
        if extra:
            kw["not_an_argument"] = Value(what="extra")
        if mask:
            kw["mask"] = m
        if swap:    # an explicit pulsar comes first
            psr = c.pulsar(attrs)
        if swap or not ctor:
            kw["psr"] = psr
        kw["params"] = params
        before, pbefore = dict(kw), dict(params)
        try:
            r = ("ret", f(*args, **kw))
        except TypeError as e:
            r = ("raise", e)
        return r, list(c.log), names, vals, params, pbefore, m, ex, f, psr

    def post(x):
        r, log, names, vals, params, pbefore, m, ex, f, psr = x
        V.done("the call's dictionary is as it was", params.keys() == pbefore.keys() and all(params[k] is pbefore[k] for k in params), "")
        V.done("exactly the parameters declared", sorted(p.name for p in f.params) == sorted({n for n in names.values() if n}), "%s, want %s" % (sorted(p.name for p in f.params), sorted(n for n in names.values() if n)))
        want, missing = {}, False
        want["toas"] = ex["toas"] if "toas" in ex else c.restrict(psr.toas, m)
        if any("nested" in k and g not in ex and names[g] not in params for g, k in kinds.items()):
            return V.done("a nested function's missing argument is an error", r[0] == "raise", repr(r))
        for arg in ("a", "b", "free"):
            kind = kinds.get(arg, "none")
            if arg in ex:
                want[arg] = ex[arg]
            elif kind in ("class", "shared") and names[arg] in params:
                want[arg] = params[names[arg]]
            elif kind in ("constant", "shared constant", "value"):
                want[arg] = vals[arg][1]
            elif "nested" in kind:
                ilog = vals[arg][1]
                V.done("%s: the nested function is called once" % arg, len(ilog) == 1, str(ilog))
                if len(ilog) != 1:
                    continue
                st, xv, yv, z = ilog[0]
                # (the mask is that of the outer call: it is not among the nested function's arguments)
                check(V, "%s: attribute for the nested function" % arg, st, psr.stoas)
                check(V, "%s: parameter of the nested function" % arg, xv, params[names[arg]])
                check(V, "%s: plain value for the nested function" % arg, yv, vals[arg][2])
                check(V, "%s: default of the nested function" % arg, z, "default z")
                want[arg] = ("value of the function nested in " + arg,)
            elif attrs.get(arg):
                want[arg] = c.attribute(arg, attrs[arg], m)
            elif arg == "a":
                missing = True
            else:
                want[arg] = "default " + arg
        if missing:
            return V.done("a missing argument is an error", r[0] == "raise", repr(r))
        if r[0] != "ret":
            return V.fail("does not raise", repr(r[1]))
        V.done("called once, its result returned", len(log) == 1 and isinstance(r[1], Value) and r[1].what == "result", str(log))
        for arg, w in want.items():
            if isinstance(w, tuple):
                V.done("%s: the value of the nested function" % arg, isinstance(log[0][arg], Value) and log[0][arg].what == w[0], repr(log[0][arg]))
            else:
                check(V, "%s (%s)" % (arg, "explicit" if arg in ex else kinds.get(arg, "none")), log[0][arg], w)
    V.returns(run, post, label="%s, attributes %s, given %s, known %s%s%s" % (kinds, attrs, given, known, ", mask" if mask else "", ", name %r" % fname if fname else ""))


FN = [F + "." + m for m in ("__init__", "__call__", "params")] + [SF]


@contract("C10", *FN)
def single(V):
    """One argument in all ways."""
    pm = V.load("signals.parameter")
    for arg in ("a", "b"):
        for kind, attr, given, known, mask in itertools.product(KINDS, ATTRS, ("", "keyword"), ((), ("a", "b")), (False, True)):
            other = {"a": "value"} if arg == "b" else {}
            one(V, pm, {**other, arg: kind}, {arg: attr}, {arg: given}, known, mask, fname="fn" if kind in ("class", "nested", "shared") else "", ctor=attr != "method" or "nested" in kind)


@contract("C10", *FN)
def pairs(V):
    """Two arguments, in both orders of declaration."""
    pm = V.load("signals.parameter")
    for ka, kb in itertools.product(KINDS, KINDS):
        for attr, given, order, known in itertools.product(("", "per TOA"), ({}, {"a": "keyword"}, {"b": "keyword"}), (False, True), (("a",), ("b",), ("a", "b"))):
            kinds = {"b": kb, "a": ka} if order else {"a": ka, "b": kb}
            one(V, pm, kinds, {"a": attr, "free": attr}, given, known, order, pname="" if order else "psr_sig")


@contract("C10", *FN)
def positional(V):
    """Positional arguments, arguments that the function does not have, explicit per-TOA arguments."""
    pm = V.load("signals.parameter")
    for kind in KINDS:
        for attr in ATTRS:
            for toas, given in (("positional", {}), ("keyword", {}), ("positional", {"a": "positional"}), ("positional", {"a": "positional", "b": "positional"}), ("positional", {"a": "positional", "b": "keyword"})):
                one(V, pm, {"b": kind, "a": kind} if attr else {"b": kind}, {"b": attr, "free": attr, "a": attr}, given, ("b",), True, toas=toas, extra=True, swap=attr == "scalar" and "nested" not in kind)


@contract("C10", "enterprise.signals.parameter.function", "enterprise.signals.parameter.get_funcargs")
def decorated(V):
    """A decorated function is simply called when all its positional arguments are given and no argument is a parameter or function;
    otherwise it makes a Function class of the keyword declarations."""
    pm = V.load("signals.parameter")
    U = pm.Uniform(0, 1)
    inner = pm.Function(lambda z: z, z=U)
    special = dict(parameter=U, named=U("x"), constant=pm.Constant(1), nconstant=pm.Constant(1)("y"), function=inner, instance=inner("n"))

    def make():
        log = []

        @pm.function
        def f(t, u, v="default", w="other default"):
            log.append((t, u, v, w))
            return "result"
        return f, log
    a, b, c, d = (Value(what=x) for x in "abcd")
    for args, kw, want in (((a, b), {}, (a, b, "default", "other default")), ((a,), dict(u=b), (a, b, "default", "other default")), ((), dict(t=a, u=b, w=c), (a, b, "default", c)), ((a, b, c), {}, (a, b, c, "other default")),
                           ((a, b, c, d), {}, (a, b, c, d)), ((a, b), dict(v=c, w=d), (a, b, c, d))):
        def run():
            f, log = make()
            return f(*args, **kw), log
        V.returns(run, lambda r: V.done("called with these arguments, result returned", r[0] == "result" and len(r[1]) == 1 and all(x is y or x == y for x, y in zip(r[1][0], want)), repr(r)), label="%d positional, %s" % (len(args), sorted(kw)))
    makes = [((), {}), ((), dict(v=c)), ((), dict(u=b)), ((), dict(t=a, w=c))] + [((), {k: v}) for k in "tuvw" for v in special.values()] + [((a, b), {k: v}) for k in "vw" for v in special.values()] + [((a,), dict(u=v)) for v in special.values()]
    for args, kw in makes:
        def run():
            f, log = make()
            return f(*args, **kw), log
        def post(r):
            V.done("a Function class", isinstance(r[0], type) and issubclass(r[0], pm.FunctionBase) and r[1] == [], repr(r))
            if isinstance(r[0], type):
                k = r[0]("name").func_kwargs
                V.done("of these declarations", k.keys() == kw.keys() and all(k[x] is kw[x] for x in k), repr(k))
        V.returns(run, post, label="%d positional, %s" % (len(args), {k: repr(v) for k, v in kw.items()}))
