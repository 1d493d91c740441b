"""Object identities as the package under test sees them.

`id` is an address: it is given to another object as soon as the first one is
gone, or much later, as the allocator likes.  That choice belongs to the
simulator, which takes the most unfriendly one: a new object gets the identity
of one of the same type that is gone.  Two objects that live at the same time
never share one, so code that keeps the object alive for as long as it
remembers its identity (or forgets it when the object goes) notices nothing.
"""
import builtins
import sys
import types
import weakref

PLAIN = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.CodeType,
         type(None), bool, int, float, complex, str, bytes)
# there the number is shared with code that is not under test
APART = {"__deepcopy__", "__repr__", "__reduce__", "__reduce_ex__", "__hash__"}


class Ids:
    def __init__(self):
        self.live = {}  # address: [identity, type, object or reference, strong]
        self.used = set()
        self.free = {}  # type: identities of objects that are gone
        self.next = 1 << 62
        self.reused = 0

    def __call__(self, obj, /):
        k = builtins.id(obj)
        if isinstance(obj, PLAIN) or sys._getframe(1).f_code.co_name in APART:
            return k
        e = self.live.get(k)
        if e is not None and (e[2] if e[3] else e[2]()) is obj:
            return e[0]
        t = type(obj)
        for a in [a for a, x in self.live.items() if x[3] and x[1] is t]:
            x = self.live[a]
            if sys.getrefcount(x[2]) == 2:  # nobody else has it
                del self.live[a]
                self._gone(x)
            del x
        pool = self.free.get(t)
        if pool:
            s = pool.pop()
            self.reused += 1
        elif k not in self.used:
            s = k
        else:
            s = self.next
            self.next += 1
        self.used.add(s)
        e = [s, t, obj, True]
        try:
            e[2] = weakref.ref(obj, lambda _, k=k, e=e: self._died(k, e))
            e[3] = False
        except TypeError:
            pass
        self.live[k] = e
        return s

    def _died(self, k, e):
        if self.live.get(k) is e:
            del self.live[k]
        self._gone(e)

    def _gone(self, e):
        self.used.discard(e[0])
        self.free.setdefault(e[1], []).append(e[0])
