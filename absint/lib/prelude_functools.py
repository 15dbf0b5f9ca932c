def cmp_to_key(mycmp):
    class K:
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, other):
            return mycmp(self.obj, other.obj) < 0

        def __gt__(self, other):
            return mycmp(self.obj, other.obj) > 0

        def __eq__(self, other):
            return mycmp(self.obj, other.obj) == 0

        def __le__(self, other):
            return mycmp(self.obj, other.obj) <= 0

        def __ge__(self, other):
            return mycmp(self.obj, other.obj) >= 0
    return K


class _Dispatch:
    def __init__(self, func):
        self.func = func
        self.table = []

    def register(self, cls, func=None):
        if func is not None:
            self.table.append((cls, func))
            return func
        if not isinstance(cls, type):
            __gap__('register by annotation')

        def put(f):
            self.table.append((cls, f))
            return f
        return put

    def dispatch(self, cls):
        __gap__('dispatch')

    def __call__(self, *args, **kw):
        found = None
        for cls, f in self.table:
            if isinstance(args[0], cls):
                if type(args[0]) is cls:
                    return f(*args, **kw)
                if found is not None:
                    __gap__('several registered types')
                found = f
        return (found or self.func)(*args, **kw)


def singledispatch(func):
    return _Dispatch(func)
