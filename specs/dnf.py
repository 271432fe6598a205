# reference definitions: normal forms of events

@obl('dnf.dnf_factor', 'C03 C04 C08 C09', opaque='dnf_factor')
def factor(event, lookup):
    # one dictionary per clause; every literal of the clause is conjoined under the key of its symbol
    if lookup is None:
        lookup = {s: s for s in event.get_symbols()}
    if isinstance(event, EventBasic):
        symbols = event.get_symbols()
        assert len(symbols) == 1
        return ({lookup[list(symbols)[0]]: event},)
    if isinstance(event, EventAnd):
        for e in event.subexprs:
            assert isinstance(e, EventBasic)
        out = {}
        for e in event.subexprs:
            for m in dnf_factor(e, lookup):
                for k in m:
                    out[k] = out[k] & m[k] if k in out else m[k]
        return (out,)
    if isinstance(event, EventOr):
        for e in event.subexprs:
            assert isinstance(e, (EventAnd, EventBasic))
        return tuple([m for e in event.subexprs for m in dnf_factor(e, lookup)])
    assert False

@obl('dnf.dnf_normalize', 'C03 C04 C06 C08 C09 C10', opaque='dnf_factor')
def normalize(event):
    # clauses over the base variables: each literal is replaced by membership in its solution set,
    # clauses with an impossible literal and repeated clauses are dropped
    if isinstance(event, EventBasic) and isinstance(event.subexpr, Id):
        return event
    solved = []
    for clause in dnf_factor(event.to_dnf()):
        lits = [(s, clause[s].solve()) for s in clause]
        if all(S is not EmptySet for (s, S) in lits):
            solved.append(lits)
    if not solved:
        return None
    out = []
    for i in range(len(solved)):
        if solved[i] in solved[:i]:
            continue
        out.append(reduce(lambda a, b: a & b, [s << S for (s, S) in solved[i]]))
    return reduce(lambda a, b: a | b, out).to_dnf()

@obl('dnf.dnf_to_disjoint_union', 'C04 C09', opaque='dnf_normalize dnf_non_disjoint_clauses dnf_to_disjoint_union')
def disjoint(event):
    # (A or B or C) = A or (B and not A) or (C and not A and not B), over the clauses that overlap
    if isinstance(event, (EventBasic, EventAnd)):
        return event
    overlap = dnf_non_disjoint_clauses(event)
    if not overlap:
        return event
    parts = []
    for i in range(len(event.subexprs)):
        e = event.subexprs[i]
        for j in overlap.get(i, []):
            e = e & ~event.subexprs[j]
        parts.append(e)
    out = []
    for e in parts:
        n = dnf_normalize(e)
        if n:
            out.append(dnf_to_disjoint_union(n))
    return reduce(lambda a, b: a | b, out)

@obl('dnf.dnf_non_disjoint_clauses', 'C04 C09', opaque='dnf_factor')
def overlaps(event):
    factors = dnf_factor(event)
    sols = [{s: clause[s].solve() for s in clause} for clause in factors]
    out = {}
    for i, j in combinations(range(len(factors)), 2):
        meets = [sols[i][s] & sols[j][s] if s in sols[j] else sols[i][s] for s in sols[i]]
        if any(x is EmptySet for x in meets):
            continue
        if j not in out:
            out[j] = []
        out[j].append(i)
    return out
