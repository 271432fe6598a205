"""What is reachable from some objects, and what of it has changed."""
import itertools

from .absint import Obj

SKIP = ('Memo',)
PRIM = (int, float, str, bool, type(None), bytes)


def record(roots):
    """[(container, contents)] of every mutable object reachable"""
    out, seen, todo = [], set(), [(r, '') for r in roots]
    while todo:
        o, path = todo.pop()
        if isinstance(o, PRIM) or id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, Obj):
            if o.cls.name in SKIP:
                continue
            items = dict(o.attrs)
            out.append((o, items, path or o.cls.name))
            todo += [(v, '%s.%s' % (path or o.cls.name, n)) for n, v in items.items()]
        elif type(o) is list:
            out.append((o, list(o), path or 'a list'))
            todo += [(v, (path or 'a list') + '[%d]' % i) for i, v in enumerate(o)]
        elif type(o) is dict:
            out.append((o, dict(o), path or 'a dictionary'))
            todo += [(v, (path or 'a dictionary') + '[...]') for v in itertools.chain(o.keys(), o.values())]
        elif type(o) is set:
            out.append((o, set(o), path or 'a set'))
            todo += [(v, path) for v in o]
        elif type(o) in (tuple, frozenset):
            todo += [(v, path + '[...]') for v in o]
    return out


def alike(a, b, d=0):
    if a is b:
        return True
    if isinstance(a, PRIM) or isinstance(b, PRIM):
        return type(a) is type(b) and a == b
    if type(a) is not type(b) or d > 40:
        return False
    if isinstance(a, Obj):
        return a.cls is b.cls and a.attrs.keys() == b.attrs.keys() and all(alike(a.attrs[n], b.attrs[n], d + 1) for n in a.attrs)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, d + 1) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(alike(x, y, d + 1) and alike(a[x], b[y], d + 1) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b) and all(any(alike(x, y, d + 1) for y in b) for x in a)
    try:
        return a == b is True or repr(a) == repr(b)
    except Exception:
        return False


def changes(rec):
    """where something reachable is not what it was"""
    for o, old, path in rec:
        if isinstance(o, Obj):
            for n, v in old.items():
                if n not in o.attrs:
                    return '%s.%s is gone' % (path, n)
                if not alike(v, o.attrs[n]) and not (n.startswith('_') and v is None):
                    return '%s.%s was %s, is %s' % (path, n, str(v)[:80], str(o.attrs[n])[:80])
        elif not alike(old, o if type(o) is not list else list(o)):
            return '%s was %s, is %s' % (path, str(old)[:120], str(o)[:120])
    return None
