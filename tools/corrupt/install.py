# appended to solver/__init__.py of a scratch copy: corrupts the answers of one function when a predicate holds
import os as _os
LOG = {}
DEPTH = [0]
def history(pname, target, mods):
    """Predicates on what was done with the object before: last:<operation>, had:<operation>, cnt<n>, raised"""
    import functools
    modname, cname, attr = target.split(".")
    cls = getattr(mods[modname], cname)
    for name, f in list(cls.__dict__.items()):
        if name.startswith("__") and name not in ("__init__", "__eq__", "__hash__"): continue
        if not callable(f): continue
        def w(self, *args, _f=f, _n=name, **kw):
            if DEPTH[0]: return _f(self, *args, **kw)
            DEPTH[0] += 1
            try: return _f(self, *args, **kw)
            except Exception:
                LOG.setdefault(id(self), (self, []))[1].append("raised"); raise
            finally:
                DEPTH[0] -= 1
                LOG.setdefault(id(self), (self, []))[1].append(_n)
                if len(LOG) > 20000: LOG.clear()
        setattr(cls, name, functools.wraps(f)(w))
    def ops(a):
        return LOG.get(id(a[0]), (None, []))[1] if a else []
    kind, _, x = pname.partition(":")
    if kind == "last": return lambda a: ops(a)[-1:] == [x]
    if kind == "prev": return lambda a: ops(a)[-2:] == x.split(",")
    if kind == "had": return lambda a: x in ops(a)
    if kind == "never": return lambda a: len(ops(a)) > 6 and x not in ops(a)
    if kind == "twice": return lambda a: ops(a).count(x) == 2
    if kind == "raised": return lambda a: "raised" in ops(a)
    if kind[:3] == "cnt": return lambda a: len(ops(a)) >= int(kind[3:])
def _install(spec):
    import math, importlib, functools
    target, pname = spec.split("@")
    from solver import geometry as GE, graph as GR, method as ME
    from solver.geometric import cluster as CL, configuration as CF, constraint as CO, relation as RE
    V, M = GE.Vector, GE.Matrix
    plain_class = {}
    def nums(args, out, depth=0):
        for a in args:
            if isinstance(a, bool) or a is None or isinstance(a, str):
                continue
            if isinstance(a, (int, float)):
                out.append(a)
            elif isinstance(a, M):
                for row in a._elements:
                    for e in row:
                        if isinstance(e, (int, float)): out.append(e)
            elif isinstance(a, CF.Configuration):
                nums(list(a.mapping.values()), out)
            elif isinstance(a, dict):
                nums(list(a.values()), out)
            elif isinstance(a, (list, tuple)) and depth < 2:
                nums(a, out, depth + 1)
        return out
    def size(args):
        n = 0
        for a in args:
            if isinstance(a, GR.Graph): n = max(n, len(a._forward))
            elif isinstance(a, ME.MethodGraph): n = max(n, len(a._map))
            elif isinstance(a, CO.ConstraintGraph): n = max(n, len(a._variables))
            elif isinstance(a, CF.Configuration): n = max(n, len(a.mapping))
            elif isinstance(a, CL.Cluster): n = max(n, len(a.vars))
            elif isinstance(a, M): n = max(n, len(a._elements), len(a._elements[0]) if a._elements else 0)
            elif isinstance(a, (list, tuple, set, dict, frozenset)): n = max(n, len(a))
        return n
    def names(args):
        out = []
        for a in args:
            if isinstance(a, GR.Graph): out += list(a._forward)
            elif isinstance(a, ME.MethodGraph): out += list(a._map)
            elif isinstance(a, CO.ConstraintGraph): out += list(a._variables)
            elif isinstance(a, CF.Configuration): out += list(a.mapping)
            elif isinstance(a, CL.Cluster): out += list(a.vars)
            elif isinstance(a, RE.PointRelation): out += list(a.points)
        return out
    def pts(args):
        return [a for a in args if isinstance(a, V)]
    def num_pred(f):
        return lambda args: (lambda n: bool(n) and f(n))(nums(args, []))
    P = {
     "big2": num_pred(lambda n: max(map(abs, n)) > 60), "big3": num_pred(lambda n: max(map(abs, n)) > 1e3),
     "big5": num_pred(lambda n: max(map(abs, n)) > 1e5), "big7": num_pred(lambda n: max(map(abs, n)) > 1e7),
     "allbig3": num_pred(lambda n: min(map(abs, n)) > 1e3),
     "small2": num_pred(lambda n: 0 < max(map(abs, n)) < 1e-2), "small4": num_pred(lambda n: 0 < max(map(abs, n)) < 1e-4),
     "anysmall4": num_pred(lambda n: any(0 < abs(x) < 1e-4 for x in n)), "anysmall7": num_pred(lambda n: any(0 < abs(x) < 1e-7 for x in n)),
     "neg": num_pred(lambda n: max(n) < 0), "pos": num_pred(lambda n: min(n) > 0), "ints": num_pred(lambda n: all(x == int(x) for x in n if x - x == 0)),
     "noints": num_pred(lambda n: all(x != int(x) for x in n if x - x == 0)),
     "halves": num_pred(lambda n: any(x * 2 == int(x * 2) and x != int(x) for x in n if x - x == 0)),
     "intnot1": num_pred(lambda n: all(x == int(x) for x in n if x - x == 0) and max(map(abs, n)) > 10),
     "spread": num_pred(lambda n: max(map(abs, n)) > 1e4 * min([abs(x) for x in n if x] or [1e300])),
     "negzero": num_pred(lambda n: any(x == 0 and math.copysign(1, x) < 0 for x in n)),
     "samex": lambda a: len(pts(a)) > 1 and len(set(p.x for p in pts(a))) == 1, "samey": lambda a: len(pts(a)) > 1 and len(set(p.y for p in pts(a))) == 1,
     "diag": lambda a: any(p.x == p.y and p.x for p in pts(a)), "firstlast": lambda a: len(pts(a)) > 1 and (pts(a)[0].x, pts(a)[0].y) == (pts(a)[-1].x, pts(a)[-1].y),
     "sameobj": lambda a: len(a) > 1 and any(a[i] is a[j] for i in range(len(a)) for j in range(i) if not isinstance(a[i], (int, float, str, type(None), bool))),
     "origin": lambda a: any(p.x == 0 and p.y == 0 for p in pts(a)), "fournums": num_pred(lambda n: len(n) > 1 and len(set(map(abs, n))) == 1),
     "n3": lambda a: size(a) > 3, "n5": lambda a: size(a) > 5, "n8": lambda a: size(a) > 8, "n12": lambda a: size(a) > 12, "n20": lambda a: size(a) > 20, "n40": lambda a: size(a) > 40, "n100": lambda a: size(a) > 100,
     "n0": lambda a: size(a) == 0, "n1": lambda a: size(a) == 1, "n2": lambda a: size(a) == 2,
     "tuple": lambda a: any(isinstance(n, tuple) for n in names(a)), "alltuple": lambda a: names(a) and all(isinstance(n, tuple) for n in names(a)),
     "allint": lambda a: names(a) and all(isinstance(n, int) for n in names(a)), "allintn8": lambda a: len(names(a)) > 8 and all(isinstance(n, int) for n in names(a)),
     "none": lambda a: None in names(a), "negint": lambda a: any(isinstance(n, int) and n < 0 for n in names(a)), "bigint": lambda a: any(isinstance(n, int) and n > 1000 for n in names(a)),
     "falsy": lambda a: any(n is not None and not isinstance(n, bool) and (n == 0 or n == "" or n == ()) for n in names(a)), "float": lambda a: any(isinstance(n, float) for n in names(a)), "longname": lambda a: any(isinstance(n, str) and len(n) > 4 for n in names(a)),
     "bool": lambda a: any(isinstance(n, bool) for n in names(a)), "mixed": lambda a: len(set(type(n) for n in names(a))) > 2,
    }
    pred = P[pname] if pname in P else history(pname, target, {"GE": GE, "GR": GR, "ME": ME, "CL": CL, "CF": CF, "CO": CO, "RE": RE})
    mod, _, attr = target.partition(".")
    mod = {"GE": GE, "GR": GR, "ME": ME, "CL": CL, "CF": CF, "CO": CO, "RE": RE}[mod]
    owner = mod
    parts = attr.split(".")
    for p in parts[:-1]: owner = getattr(owner, p)
    name = parts[-1]
    raw = owner.__dict__[name] if isinstance(owner, type) else getattr(owner, name)
    def bad(r):
        if isinstance(r, bool): return not r
        if isinstance(r, (int, float)): return r + 1
        if r is None: return None
        if isinstance(r, V): return V(r.x + 1, r.y)
        if isinstance(r, M):
            e = [list(x) for x in r._elements]; e[0][0] = e[0][0] + 1; return M(e)
        if isinstance(r, str): return r[:-1] + "?" if len(r) > 3 else "?" if False else r[:len(r)//2]
        if isinstance(r, list): return r[:-1] if r else r
        if isinstance(r, (set, frozenset)): return type(r)(list(r)[:-1])
        if isinstance(r, tuple): return (bad(r[0]),) + r[1:] if len(r) == 2 else (r[0], not r[1])
        if isinstance(r, CF.Configuration):
            m = dict(r.mapping)
            if m:
                k = list(m)[-1]; m[k] = V(m[k].x + 1, m[k].y)
            c = CF.Configuration(m); c.underconstrained = r.underconstrained; return c
        if isinstance(r, dict):
            return dict(list(r.items())[:-1])
        if isinstance(r, GR.Graph):
            es = r.edges()
            if es: r.remove_edge(*es[-1])
            elif r.vertices(): r.remove_vertex(r.vertices()[-1])
            return r
        if isinstance(r, CL.Hedgehog):
            return None
        if isinstance(r, CL.Cluster): return None
        if type(r).__name__ == "dict_keys": return list(r)[:-1]
        return r
    MUT = {"GR.Graph.add_edge", "GR.Graph.set", "GR.Graph.remove_vertex", "GR.Graph.remove_edge", "GR.Graph.add_vertex", "GR.Graph.add_bi_edge", "GR.Graph.set_bi_edge", "GR.Graph.remove_bi_edge",
           "ME.MethodGraph.set", "ME.MethodGraph.add_method", "ME.MethodGraph.rem_method", "ME.MethodGraph.rem_variable", "ME.MethodGraph.add_variable", "ME.MethodGraph.propagate", "ME.MethodGraph.clear", "ME.MethodGraph.execute",
           "CO.ConstraintGraph.add_variable", "CO.ConstraintGraph.rem_variable", "CO.ConstraintGraph.add_constraint", "CO.ConstraintGraph.rem_constraint", "GE.Matrix.round"}
    def wrapper_of(f):
        @functools.wraps(f)
        def w(*args, **kw):
            hit = pred(args)
            if hit and target in MUT:
                return None          # nothing is done
            r = f(*args, **kw)
            return bad(r) if hit else r
        return w
    if isinstance(raw, classmethod):
        new = classmethod(wrapper_of(raw.__func__))
    elif isinstance(raw, staticmethod):
        new = staticmethod(wrapper_of(raw.__func__))
    elif isinstance(raw, property):
        new = property(wrapper_of(raw.fget), raw.fset)
    else:
        new = wrapper_of(raw)
    setattr(owner, name, new)
    for m in (GE, GR, ME, CL, CF, CO, RE):
        if m is not mod and getattr(m, name, None) is raw:
            setattr(m, name, new)
if _os.environ.get("CORRUPT"):
    _install(_os.environ["CORRUPT"])
