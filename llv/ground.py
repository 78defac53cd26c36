"""ground instantiation of quantified hypotheses (helps the bit-vector mode)"""
import z3
import engine as EN
def ground_instances(hyps, goal, rounds=3, cap=600):
    """hyps + not goal, with every universally quantified hypothesis replaced by its instances at the ground index terms that
    occur (weaker hypotheses: unsat of the result proves the goal); None when a quantifier has another shape"""
    import z3
    ground, quants, seen = [], [], set()
    def add(f, pos=True):
        """assert f (pos) or not f, splitting and skolemising"""
        if z3.is_quantifier(f):
            if f.is_forall() == pos:
                if f.num_vars() == 1: quants.append((f.var_sort(0), f.body(), pos, []))
                elif f.num_vars() == 2: quants.append(((f.var_sort(0), f.var_sort(1)), f.body(), pos, []))
                return
            cs = [z3.FreshConst(f.var_sort(i), "sk") for i in range(f.num_vars())]
            for c in cs: sk.append(c)
            return add(z3.substitute_vars(f.body(), *reversed(cs)), pos)
        if EN.has_quant(f):
            k = f.decl().kind()
            if k == z3.Z3_OP_NOT: return add(f.arg(0), not pos)
            if (k == z3.Z3_OP_AND and pos) or (k == z3.Z3_OP_OR and not pos):
                for c in f.children(): add(c, pos)
                return
            if k == z3.Z3_OP_IMPLIES and not pos: add(f.arg(0), True); return add(f.arg(1), False)
            if k in (z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_AND):
                # a disjunction with quantified parts: name each quantified part
                cs = list(f.children()); lits = []
                for ci, c in enumerate(cs):
                    p = (not pos) if (k == z3.Z3_OP_IMPLIES and ci == 0) else pos
                    if k == z3.Z3_OP_AND and not pos: p = False
                    if not EN.has_quant(c): lits.append(c if p else z3.Not(c)); continue
                    b = z3.FreshConst(z3.BoolSort(), "q"); lits.append(b); guarded(b, c, p)
                ground.append(z3.Or(lits)); return
            return
        ground.append(f if pos else z3.Not(f))
    def guarded(b, c, p):
        n, m = len(ground), len(quants)
        add(c, p)
        for i in range(n, len(ground)): ground[i] = z3.Implies(b, ground[i])
        for i in range(m, len(quants)): quants[i][3].append(b)
    sk = []
    for h in hyps: add(h)
    add(goal, False)
    if not quants: return ground
    terms, scanned = {}, set()
    def scan(f):
        st = [f]
        while st:
            x = st.pop(); i = x.get_id()
            if i in scanned: continue
            scanned.add(i)
            if z3.is_quantifier(x): continue
            if z3.is_select(x): terms.setdefault((x.arg(0).get_id(), x.arg(1).sort().get_id() if False else str(x.arg(1).sort())), {})[x.arg(1).get_id()] = x.arg(1)
            st.extend(x.children())
    def pats(body):
        """arrays read at exactly the bound variable: ids (per variable)"""
        r = {}; st = [body]; sn = set()
        while st:
            x = st.pop()
            if x.get_id() in sn: continue
            sn.add(x.get_id())
            if z3.is_quantifier(x): continue
            if z3.is_select(x):
                i = x.arg(1)
                if z3.is_var(i): r.setdefault(z3.get_var_index(i), set()).add(x.arg(0).get_id())
            st.extend(x.children())
        return r
    P = [pats(q[1]) for q in quants]; done = [set() for _ in quants]; cursor = 0
    for rd in range(rounds):
        while cursor < len(ground): scan(ground[cursor]); cursor += 1
        new = []
        allt = {}
        for (aid, so), d in list(terms.items()):
            for t in d.values(): allt.setdefault(so, {})[t.get_id()] = t
        for c in sk: allt.setdefault(str(c.sort()), {})[c.get_id()] = c
        nq = len(quants)
        while len(P) < nq: P.append(pats(quants[len(P)][1])); done.append(set())
        for qi in range(nq):
            so, body, pos, gs = quants[qi]
            def cands(vi, srt):
                ids = P[qi].get(vi)
                if ids:
                    c = {}
                    for (aid, s2), d in terms.items():
                        if aid in ids and s2 == str(srt): c.update(d)
                    for t in sk:
                        if str(t.sort()) == str(srt): c[t.get_id()] = t
                    return c
                return allt.get(str(srt), {})
            if isinstance(so, tuple): combos = [(a, b) for a in list(cands(1, so[0]).values()) for b in list(cands(0, so[1]).values())][:200]
            else: combos = [(a,) for a in cands(0, so).values()]
            for cb in combos:
                key = tuple(t.get_id() for t in cb)
                if key in done[qi]: continue
                done[qi].add(key); keep.append(cb)
                if len(ground) > cap: return ground
                inst = z3.substitute_vars(body, *reversed(cb))
                n, m = len(ground), len(quants)
                add(inst, pos)
                for g in gs:
                    for i in range(n, len(ground)): ground[i] = z3.Implies(g, ground[i])
                    for i in range(m, len(quants)): quants[i][3].append(g)
                new.append(1)
        if not new: break
    return ground
keep = []
def try_ground(hyps, goal, tmo):
    import z3
    try: g = ground_instances(hyps, goal)
    except z3.Z3Exception: return False
    s = z3.SolverFor("QF_AUFBV") if any(z3.is_bv_sort(x.sort()) for x in consts(g)) else z3.Solver()
    s.set("timeout", int(tmo * 1000))
    s.add(*g)
    return s.check() == z3.unsat
def consts(fs):
    import z3
    sn, st = set(), list(fs)
    while st:
        x = st.pop()
        if x.get_id() in sn: continue
        sn.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: yield x
        st.extend(x.children())
