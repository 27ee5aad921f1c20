"""C25: deflating a pulsar into shared memory and inflating preserves its data."""
import copy, itertools
import numpy as np
from cv.sym.contract import *

PI = "enterprise.pulsar_inflate.PulsarInflater."
BP = "enterprise.pulsar.Tempo2Pulsar."
TRUSTED = ["multiprocessing.shared_memory: a new segment has a name of its own and at least the size asked for; attaching by name maps the same memory; a segment registered with the resource tracker (creating and attaching register it) is unlinked when the process ends",
           "numpy: an array made on a buffer is that memory in C order, and raises where the buffer is smaller; assigning all elements copies them whatever the layout; pickle and copy restore the attributes of plain objects (Python's copy protocol)"]


class System:
    """Ghost state: the shared memory of the machine, and what each process has registered."""

    def __init__(self, V):
        self.V, self.segments, self.registered = V, {}, []

    def contents(self, seg, index):
        return seg["data"](*index)


class Mapping(E.Obj):
    """SharedMemory(name, create, size)"""

    def __init__(self, sys, name=None, create=False, size=0, **k):
        if k:
            raise Unsupported("SharedMemory(%s)" % sorted(k))
        if create:
            if name is not None:
                raise Unsupported("shared memory of a chosen name")
            A.EXPLORER[0].need(cmp0("lt", -num(size)), ValueError, "'size' must be a positive number different from zero")
            name = "psm_%d" % len(sys.segments)
            sys.segments[name] = dict(size=num(size), data=None, typ=None, linked=True)
        elif name not in sys.segments or not sys.segments[name]["linked"]:
            raise FileNotFoundError(name)
        self.sys, self.seg, self.name, self._name, self.open = sys, sys.segments[name], name, "/" + name, True
        self.size = SNum(self.seg["size"])
        sys.registered.append("/" + name)

    @property
    def buf(self):
        if not self.open:
            raise ValueError("closed")
        return self

    def close(self):
        self.open = False

    def unlink(self):
        self.seg["linked"] = False
        self.sys.registered.remove(self._name)


class Arr:
    """A numpy array: shape, type, and elements of its own or in a buffer."""

    def __init__(self, shape, dtype, data=None, buffer=None, cls=np.ndarray):
        self.shape, self.dtype, self.data_, self.buffer, self.cls = shape if isinstance(shape, Shape) else tuple(shape), dtype, data, buffer, cls

    def __setattr__(self, name, v):
        if name not in ("shape", "dtype", "data_", "buffer", "cls") and self.cls is np.ndarray:
            raise AttributeError("'numpy.ndarray' object has no attribute %r" % name)
        object.__setattr__(self, name, v)

    def __cv_isinstance__(self, t):
        return isinstance(t, type) and issubclass(self.cls, t)

    ndim = property(lambda s: len(s.shape))

    @property
    def size(self):
        if isinstance(self.shape, Shape):
            return self.shape.size
        r = SNum(P1)
        for n in self.shape:
            r = r * SNum(num(n))
        return r

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    def __getitem__(self, i):
        if i == slice(None) or i is Ellipsis:
            return Arr(self.shape, self.dtype, self.data_, self.buffer, self.cls)
        raise Unsupported("indexing")

    def __setitem__(self, i, v):
        if not (i == slice(None) or i is Ellipsis) or not isinstance(v, Arr):
            raise Unsupported("assignment")
        if v.shape != self.shape or v.dtype is not self.dtype:
            raise Unsupported("assignment of an array of another shape or type")
        if self.buffer is None:
            raise Unsupported("assignment to an array of its own")
        self.buffer.seg["data"], self.buffer.seg["typ"] = v.read(), (self.shape, self.dtype)

    def read(self):
        """The elements, at this moment"""
        if self.buffer is None:
            return self.data_
        if not self.buffer.open:
            raise Unsupported("the memory is not mapped any more")
        if self.buffer.seg["typ"] != (self.shape, self.dtype):
            raise Unsupported("memory that holds an array of another shape or type")
        return self.buffer.seg["data"]

    def view(self, cls):
        if not (isinstance(cls, type) and issubclass(cls, np.ndarray)):
            raise Unsupported("view")
        return Arr(self.shape, self.dtype, self.data_, self.buffer, cls)

    def copy(self, *a):
        return Arr(self.shape, self.dtype, self.read(), None, self.cls)


class NPX:
    """numpy, for the arrays above"""

    def __init__(self):
        self.ndarray = self.make

    def make(self, shape, dtype=float, buffer=None, **k):
        if k or not isinstance(buffer, Mapping):
            raise Unsupported("np.ndarray")
        r = Arr(shape, dtype, None, buffer)
        A.EXPLORER[0].need(cmp0("le", num(r.nbytes) - buffer.seg["size"]), TypeError, "buffer is too small for requested array")
        return r

    def copyto(self, a, b):
        a[:] = b

    def __getattr__(self, a):
        raise Unsupported("np." + a)


class Dtype(E.Obj):
    hasobject = False


def world(V):
    pi = V.load("pulsar_inflate")
    s = System(V)
    pi.np = NPX()
    pi.shared_memory = E.Obj(SharedMemory=lambda *a, **k: Mapping(s, *a, **k))

    def unregister(name, kind):
        if kind != "shared_memory" or name not in s.registered:
            raise KeyError(name)
        s.registered.remove(name)
    pi.resource_tracker = E.Obj(unregister=unregister)
    return pi, s


class Shape(E.Obj):
    """The shape of an array of any number of dimensions (at least one), not empty"""


def array(V, name, rank=2):
    """rank None: of any number of dimensions"""
    d = Dtype(name="type of " + name, itemsize=SNum(V.size("itemsize of " + name)))
    if rank is None:
        return Arr(Shape(size=SNum(V.size("size of " + name))), d, E.Obj(elements_of=name))
    return Arr([SNum(V.size("%s[%d]" % (name, k))) for k in range(rank)], d, lambda *i: app(name, *i))


def same(V, what, got, want, cls=None):
    if isinstance(want.shape, Shape):
        return V.done(what + ": an array of the same shape, type and elements", isinstance(got, Arr) and got.shape is want.shape and got.dtype is want.dtype and got.read() is want.data_, repr(got))
    V.done(what + ": an array of the same shape and type", isinstance(got, Arr) and len(got.shape) == len(want.shape) and all(num(a) is num(b) for a, b in zip(got.shape, want.shape)) and got.dtype is want.dtype, repr(got))
    if isinstance(got, Arr):
        axes = tuple(Axis(num(n)) for n in want.shape)
        V.eq(what + ": the same elements", SArr(axes, got.read()), SArr(axes, want.data_))


def holds(x):
    """The array is on shared memory, and has the mapping among its attributes"""
    return isinstance(x, Arr) and x.buffer is not None and x.buffer.open and any(v is x.buffer for k, v in vars(x).items() if k != "buffer")


@contract("C25", PI + "__init__", PI + "inflate", PI + "destroy")
def handle(V):
    """A handle holds plain data only; inflating it, or any copy of it, any number of times, gives arrays on the same memory with the elements
    that were stored; nothing stays registered for removal at the end of the process; destroying unlinks the segment."""
    for rank in (None, 1, 2, 3):
        def run():
            pi, s = world(V)
            a, b = array(V, "a%s" % rank, rank), array(V, "b%s" % rank, rank)
            ha, hb = pi.PulsarInflater(a), pi.PulsarInflater(b)
            left = list(s.registered)
            one, two, three = ha.inflate(), copy.copy(ha).inflate(), hb.inflate()
            return pi, s, a, b, ha, hb, left, one, two, three

        def post(r):
            pi, s, a, b, ha, hb, left, one, two, three = r
            V.done("only plain data", all(isinstance(x, (str, int, SNum, tuple, Dtype, Shape)) for x in vars(ha).values()), str(vars(ha)))
            V.done("two segments", ha.shmname != hb.shmname and len(s.segments) == 2, str(sorted(s.segments)))
            V.done("nothing registered by deflating", left == [], str(left))
            V.done("nothing registered by inflating", s.registered == [], str(s.registered))
            for x, w, lab in ((one, a, "inflated"), (two, a, "a copy inflated"), (three, b, "another one inflated")):
                same(V, lab, x, w)
                V.done(lab + ": an array that keeps the memory mapped", holds(x), repr(vars(x)))
            V.done("the same memory", one.buffer.seg is two.buffer.seg and one.buffer.seg is not three.buffer.seg, "")
            # what is written to the one is in the other
            new = Arr(a.shape, a.dtype, (lambda *i: app("written", *i)) if rank else E.Obj())
            one[:] = new
            same(V, "what is written by the one is read by the other", two, new)
            ha.destroy()
            V.done("destroyed", not s.segments[ha.shmname]["linked"] and s.segments[hb.shmname]["linked"] and s.registered == [], str(s.segments))
        V.returns(run, post, label="%s dimensions" % (rank or "any number of"))


@contract("C25", PI + "__init__", PI + "inflate")
def foreign(V):
    """The elements and the array handed over are left alone."""
    def run():
        pi, s = world(V)
        a = array(V, "a")
        v = dict(vars(a))
        pi.PulsarInflater(a)
        return a, v
    V.returns(run, lambda r: V.done("the array is as it was", vars(r[0]) == r[1], ""))


ARRAYS = dict(_designmatrix=2, _planetssb=3, _sunssb=2, _flags=None)
OTHERS = ["_toas", "_residuals", "name", "fitpars", "_isort"]


@contract("C25", BP + "deflate", BP + "inflate")
def pulsar(V):
    """Each of the three operations (deflate, inflate, copy through pickle) from each state they can reach: pristine, deflated, inflated, with
    any of the four attributes an array or not."""
    for which in itertools.product((True, False), repeat=4):
        use = {a: w for a, w in zip(ARRAYS, which)}

        def start():
            pi, s = world(V)
            pm = V.load("pulsar")
            p = object.__new__(pm.Tempo2Pulsar)
            orig = {}
            for a, rank in ARRAYS.items():
                orig[a] = array(V, a, rank) if use[a] else {"f": array(V, "f", 1)} if a == "_flags" else None
            for a in OTHERS:
                orig[a] = array(V, a, 1) if a[0] == "_" else E.Obj(is_=a)
            for a, v in orig.items():
                setattr(p, a, v)
            return pi, s, p, orig

        def check(lab, p, orig, pi, state):
            here = {k: v for k, v in vars(p).items() if k != "_deflated"}
            V.done(lab + ": the same attributes", sorted(here) == sorted(orig), str(sorted(here)))
            for a, v in orig.items():
                if a in OTHERS or not use[a] or state == "pristine":
                    V.done("%s: %s untouched" % (lab, a), here[a] is v, repr(here[a]))
                elif state == "deflated":
                    V.done("%s: %s is a handle" % (lab, a), isinstance(here[a], pi.PulsarInflater), repr(here[a]))
                else:
                    same(V, "%s: %s" % (lab, a), here[a], v)
                    V.done("%s: %s in shared memory" % (lab, a), holds(here[a]), "")

        def again(p, op, lab, state, orig, pi, s):
            """op has no effect"""
            before, segs, data = dict(vars(p)), len(s.segments), [x["data"] for x in s.segments.values()]
            getattr(p, op)()
            after = dict(vars(p))
            before.pop("_deflated", None), after.pop("_deflated", None)
            V.done("%s: %s has no further effect" % (lab, op), before.keys() == after.keys() and all(before[k] is after[k] for k in before) and len(s.segments) == segs and all(x is y["data"] for x, y in zip(data, s.segments.values())), "")
            check("%s: %s" % (lab, op), p, orig, pi, state)

        def run():
            pi, s, p, orig = start()
            again(p, "inflate", "pristine", "pristine", orig, pi, s)
            check("a copy of a pristine one", copy.copy(p), orig, pi, "pristine")
            p.deflate()
            check("deflated", p, orig, pi, "deflated")
            again(p, "deflate", "deflated", "deflated", orig, pi, s)
            # elsewhere, from the handles
            q, q2 = copy.copy(p), copy.copy(p)
            check("a copy", q, orig, pi, "deflated")
            again(q, "deflate", "a copy", "deflated", orig, pi, s)
            q.inflate()
            check("a copy inflated", q, orig, pi, "inflated")
            check("the deflated one", p, orig, pi, "deflated")
            again(q, "inflate", "a copy inflated", "inflated", orig, pi, s)
            again(q, "deflate", "a copy inflated", "inflated", orig, pi, s)
            p.inflate()
            check("inflated", p, orig, pi, "inflated")
            again(p, "inflate", "inflated", "inflated", orig, pi, s)
            again(p, "deflate", "inflated", "inflated", orig, pi, s)
            # (from an inflated one copied: pickle copies the elements)
            q2.inflate()
            check("another copy inflated", q2, orig, pi, "inflated")
            for a in ARRAYS:
                if use[a]:
                    V.done("%s: the same memory in all" % a, getattr(p, a).buffer.seg is getattr(q, a).buffer.seg and getattr(q2, a).buffer.seg is getattr(q, a).buffer.seg, "")
            V.done("nothing registered for removal", s.registered == [], str(s.registered))
            return True
        V.returns(run, lambda r: V.done("all", r is True), label="arrays: %s" % ([a for a in use if use[a]] or "none"))
