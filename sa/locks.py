"""Lock typestate over graph events: which mutexes are held, by which guard object."""
from ir import contains

GUARDS = {"std::unique_lock", "std::lock_guard", "std::scoped_lock", "std::shared_lock"}
MUTEX = {"std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_timed_mutex", "std::recursive_timed_mutex"}
CVS = {"std::condition_variable", "std::condition_variable_any", "std::_V2::condition_variable_any"}
MRECS = {"std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_timed_mutex", "std::recursive_timed_mutex",
         "std::__mutex_base", "std::__shared_mutex_pthread", "std::__recursive_mutex_base", "std::__timed_mutex_impl"}

# lock state: (held, guards, pending)
#   held: frozenset of (mutex, mode, owner)   owner = guard term or "manual"
#   guards: frozenset of (guard term, mutexes tuple, mode)
EMPTY = (frozenset(), frozenset(), None)


def held(L, mutex=None): return [h for h in L[0] if mutex is None or h[0] == mutex]
def holds(L, mutex, excl=False): return any(h[0] == mutex and (not excl or h[1] == "x") for h in L[0])


def step(ev, L):
    """-> (new lock state, list of (kind, mutex)) with kind in acquire, acquire_try, release, double, notheld."""
    H, G, pend = L; notes = []
    def acquire(m, mode, owner):
        nonlocal H
        if any(h[0] == m for h in H): notes.append(("double", m))
        H = H | {(m, mode, owner)}; notes.append(("acquire", m))
    def release_owner(owner):
        nonlocal H
        for h in [h for h in H if h[2] == owner]:
            H = H - {h}; notes.append(("release", h[0]))
    k = ev.kind
    if k in ("ctor",) and ev.rec in GUARDS:
        tgt = ev.term; mode = "s" if ev.rec == "std::shared_lock" else "x"
        raw = ev.raw
        if raw.get("move") or raw.get("copy"):
            src = ev.args[0]
            for g in [g for g in G if g[0] == src]:
                G = (G - {g}) | {(tgt, g[1], g[2])}
            for h in [h for h in H if h[2] == src]: H = (H - {h}) | {(h[0], h[1], tgt)}
            return (H, G, pend), notes
        ms = []; tag = None
        for a, aid in zip(ev.args, ev.aids or []):
            tn = ev.ctx.fn.P.types[ev.ctx.fn.nodes[aid]["t"]].get("rec", "")
            if tn in ("std::defer_lock_t", "std::try_to_lock_t", "std::adopt_lock_t"): tag = tn[5:-2]
            elif tn in MUTEX or not tn.startswith("std::chrono"): ms.append(a)
        # a new guard object in the same variable (loop): the old one was destroyed
        G = frozenset(g for g in G if g[0] != tgt) | {(tgt, tuple(ms), mode)}
        if tag is None:
            for m in ms: acquire(m, mode, tgt)
        elif tag == "adopt_lock":
            for m in ms:
                for h in [h for h in H if h[0] == m and h[2] == "manual"]: H = (H - {h}) | {(m, h[1], tgt)}
        elif tag == "try_to_lock": notes.append(("maybe", tgt))
        return (H, G, pend), notes
    if k == "decl" and ev.rhs is not None and pend is not None:
        t = ev.ctx.fn.P.types[ev.raw["t"]]
        if t.get("rec") in GUARDS and not any(g[0] == ev.lhs for g in G):
            ms, mode, owned = pend
            G = G | {(ev.lhs, ms, mode)}
            if owned:
                for h in [h for h in H if h[2] == "pending"]: H = (H - {h}) | {(h[0], h[1], ev.lhs)}
            return (H, G, None), notes
    if k == "return" and ev.ctx.parent is not None:
        t = ev.ctx.fn.P.types[ev.ctx.fn.raw["ret"]]
        if t.get("rec") in GUARDS and not t.get("ref"):
            # ownership travels with the returned guard
            last = None
            for g in G:
                if g[0] == ev.term or (g[0][0] == "tmp" and g[0][1] == ev.ctx.id): last = g
            if last:
                owned = any(h[2] == last[0] for h in H)
                for h in [h for h in H if h[2] == last[0]]: H = (H - {h}) | {(h[0], h[1], "pending")}
                G = G - {last}
                return (H, G, (last[1], last[2], owned)), notes
    if k in ("dtor", "tdtor"):
        gs = [g for g in G if g[0] == ev.lhs]
        for g in gs:
            release_owner(g[0]); G = G - {g}
        return (H, G, pend), notes
    if k in ("call", "icall"):
        rec = ev.rec or ""
        if rec in MRECS and ev.m in ("lock", "lock_shared", "try_lock", "try_lock_shared"):
            acquire(ev.obj, "s" if "shared" in ev.m else "x", "manual")
        elif rec in MRECS and ev.m in ("unlock", "unlock_shared"):
            hs = [h for h in H if h[0] == ev.obj]
            if not hs: notes.append(("notheld", ev.obj))
            for h in hs: H = H - {h}; notes.append(("release", h[0]))
        elif rec in GUARDS and ev.m in ("lock", "try_lock", "try_lock_for", "try_lock_until"):
            for g in G:
                if g[0] == ev.obj:
                    for m in g[1]: acquire(m, g[2], g[0])
        elif rec in GUARDS and ev.m == "unlock":
            if not any(h[2] == ev.obj for h in H): notes.append(("notheld", ev.obj))
            release_owner(ev.obj)
        elif rec in GUARDS and ev.m == "release":
            for h in [h for h in H if h[2] == ev.obj]: H = (H - {h}) | {(h[0], h[1], "manual")}
        elif ev.qn in ("std::lock",):
            for a in ev.args:
                g = [g for g in G if g[0] == a]
                if g:
                    for m in g[0][1]: acquire(m, g[0][2], a)
                else: acquire(a, "x", "manual")
        return (H, G, pend), notes
    return L, notes


def branch(t, pol, L):
    """Outcome of testing a guard made with try_to_lock."""
    g = None
    if t[0] == "conv": g = t[1]
    elif t[0] == "call" and t[1].endswith("::owns_lock"): g = t[2]
    if g is None: return L
    H, G, pend = L
    for x in G:
        if x[0] == g and pol and not any(h[2] == g for h in H):
            for m in x[1]: H = H | {(m, x[2], g)}
    return (H, G, pend)
