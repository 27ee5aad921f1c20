"""Abstract functions and pulsars shared by the contracts: everything about them but their interface is unknown."""
from cv.sym.contract import *


def elementwise(par, name, args=("f", "a")):
    """A Function applying an unknown function of one array element and scalar parameters to each element of its first argument."""
    ns = {}
    first, rest = args[0], list(args[1:])
    src = "lambda %s: body(%s)" % (", ".join(args), ", ".join(args))
    def body(x, *p):
        x = arr(x)
        f = x.snap()
        return SArr(x.axes, lambda *i: app(name, f(*i), *[num(y) for y in p]))
    return eval(src, {"body": body})


def scalar(name, args):
    """An unknown scalar function of small vectors and scalars."""
    src = "lambda %s: body(%s)" % (", ".join(args), ", ".join(args))
    def flat(x):
        if isinstance(x, SArr):
            return [x.el(P(k)) for k in range(int(x.axes[0].n.const))]
        return [num(x)]
    def body(*p):
        return SNum(app(name, *[y for x in p for y in flat(x)]))
    return eval(src, {"body": body})
