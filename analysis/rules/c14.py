"""
Abstract evaluation of TLS set-up over the finite domain of SSL modes (each member, none, and a value that is no member). The function
that creates contexts is evaluated for each mode: the returned context is identified by its creating call, and the assignments to its
verification settings that apply under the mode (on every interpreter version branch) are replayed in order to obtain the effective
settings. Each PostgreSQL and MySQL connection's open operation, with its helpers in place, is evaluated for each mode into the sequence
of attempts to connect, each with the value of the TLS argument and the exceptions on which it is made; the sequence must be the one the
mode promises. The mode in a connection string is followed to the connection parameters.
"""

from ..common import enum_members, hierarchy, implied, is_self_attr, pc_under, truth_under, value_under
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..terms import FALSE, NONE_T, TRUE, T, children, neg, show, walk
from .c05 import dialect_of

ASSUMPTIONS = [
    "truststore.SSLContext(PROTOCOL_TLS_CLIENT) and ssl.create_default_context(SERVER_AUTH) verify certificate and host name unless changed, against trusted authorities",
    "a driver given a context uses TLS with it (aiomysql continues in plaintext if the server does not offer TLS; asyncpg given None prefers TLS, given False does not use it)",
]
CONNECT = {"asyncpg.connect": "postgresql", "aiomysql.connect": "mysql", "asyncpg.create_pool": "postgresql", "aiomysql.create_pool": "mysql", "pymysql.connect": "mysql"}
CONNECTION_ERRORS = {"ConnectionError", "OperationalError"}
DENIED = {"InvalidAuthorizationSpecificationError"}
# checks certificate, checks host name
VERIFY = {"prefer": (False, False), "allow": (False, False), "require": (False, False), "verify_ca": (True, False), "verify_full": (True, True)}


def versions(terms) -> list[dict]:
    "Assignments of truth values to comparisons of the interpreter's version."
    atoms: list[T] = []
    for t in terms:
        for x in walk(t):
            if x.op == "cmp" and any(y.op == "extern" and str(y.args[0]).startswith("sys.version") for y in walk(x)) and x not in atoms:
                atoms.append(x)
    out = [{}]
    for a in atoms[:4]:
        out = [{**d, a: b} for d in out for b in (TRUE, FALSE)]
    return out


def settings(ctxt: T, evs: list[T], env: dict):
    "Effective verification settings of a TLS context: (checks certificate, checks host name, problem)."
    name = str(ctxt.args[0]) if ctxt.op == "call" else ""
    args = [v for _, v in ctxt.args[2]] if ctxt.op == "call" else []
    if name.endswith("create_default_context"):
        if any(v.op == "extern" and "CLIENT_AUTH" in str(v.args[0]) for v in args):
            cert, host = False, False
        else:
            cert, host = True, True
    elif name == "truststore.SSLContext" and any(v.op == "extern" and str(v.args[0]).endswith("PROTOCOL_TLS_CLIENT") for v in args):
        cert, host = True, True
    elif name.endswith("_create_unverified_context") or name.endswith("SSLContext") and not any(v.op == "extern" and str(v.args[0]).endswith("PROTOCOL_TLS_CLIENT") for v in args):
        cert, host = False, False
    elif name.endswith("ssl.SSLContext"):
        cert, host = True, True
    else:
        return None, None, f"not a TLS context: {show(ctxt)[:80]}"
    for e in evs:
        if e.op != "setattr" or value_under(e.args[0], env) != ctxt:
            continue
        on = pc_under([p for p in e.pc if p.op != "exc"], env)
        if on is False:
            continue
        if on is None:
            return None, None, "settings depend on something other than the mode"
        v = value_under(e.args[2], env)
        if e.args[1] == "check_hostname":
            b = truth_under(v, env)
            if b is None:
                return None, None, f"check_hostname is {show(v)[:60]}"
            host = b
            cert = cert or b
        elif e.args[1] == "verify_mode":
            n = str(v.args[0]).split(".")[-1] if v.op == "extern" else ""
            if n not in ("CERT_NONE", "CERT_OPTIONAL", "CERT_REQUIRED"):
                return None, None, f"verify_mode is {show(v)[:60]}"
            if n == "CERT_NONE" and host:
                return None, None, "verification is switched off while host names are checked (an error)"
            cert = n == "CERT_REQUIRED"
    return cert, host, ""


def plain(v: T) -> bool:
    return v.op == "const" and not v.args[0]


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    modes = prog.find_class("ConnectionSSLMode")
    members = enum_members(modes)
    for m in set(VERIFY) | {"disable"}:
        ctx.check(m in members, "mode-exists", m, modes.loc(), f"no SSL mode {m}")
    for m in members:
        v = modes.values[m]
        ctx.check(getattr(v, "value", None) == m.replace("_", "-"), "mode-name", m, modes.loc(), "the name of the mode in a connection string is not its own")
    cases = [(m, T("enum", (modes, m))) for m in members] + [("none", NONE_T), ("unknown", T("enum", (modes, "<unknown>")))]
    contexts(ctx, cases)
    connections(ctx, cases)
    parameters(ctx, modes)
    ctx.minimum("contexts", 8)
    ctx.minimum("connection modes", 16)


def contexts(ctx: Ctx, cases) -> None:
    prog = ctx.prog
    fs = [f for m in prog.modules.values() for f in m.functions.values() if f.name == "create_context"]
    if not fs:
        raise AnalysisError("no function create_context")
    for f in fs:
        r = ctx.run(f, None, inline=lambda g, recv: g.cls is None and g.module is f.module)
        evs = events(r)
        arg = T("param", (f.args.args[0].arg,))
        for m, v in cases:
            ctx.count("contexts")
            for ver in versions([x for x, _ in r.returns] + [p for e in evs for p in e.pc]):
                env = {arg: v, **ver}
                value = None
                undecided = False
                for x, pc in r.returns:
                    b = pc_under(pc, env)
                    if b is True:
                        value = value_under(x, env)
                    undecided = undecided or b is None
                raised = [o for o in r.raises if pc_under(o.state.pc, env) is True]
                who = f"{f.short}: {m}"
                if m == "unknown":
                    ctx.check(bool(raised) and value is None, "unknown-mode-refused", who, f.loc(), "a context is created for an unknown mode")
                    continue
                if undecided or raised or value is None:
                    ctx.bad("context-for-mode", who, f.loc(), "no context for the mode" if not undecided else "the result depends on something other than the mode")
                    continue
                verify(ctx, f, who, m, value, evs, env)


def verify(ctx: Ctx, f: FuncInfo, who: str, m: str, value: T, evs: list[T], env: dict) -> None:
    if m in ("none", "disable"):
        ctx.check(plain(value), "no-context-when-disabled", who, f.loc(), f"a context {show(value)[:80]} although SSL is disabled")
        return
    cert, host, problem = settings(value, evs, env)
    ctx.check(not problem, "context-settings", who, f.loc(), problem)
    if not problem:
        ctx.check((cert, host) == VERIFY[m], "context-verifies-as-promised", who, f.loc(),
                  f"the context {'checks' if cert else 'does not check'} certificates and {'checks' if host else 'does not check'} host names")


def connections(ctx: Ctx, cases) -> None:
    prog = ctx.prog
    done = set()
    for c in hierarchy(prog, "BaseConnection"):
        d = dialect_of(c)
        f = c.find_method("open")
        if not d or f is None:
            continue
        r = ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls.is_subclass_of("BaseConnection") and g.name != "close" or g.cls is None and (g.module is f.module or g.module.name.endswith(".connection")))
        evs = events(r)
        connects = [e for e in evs if e.op == "call" and str(e.args[0]) in CONNECT]
        if not connects:
            continue
        done.add(d)
        mode = T("attr", (T("attr", (T("param", ("self",)), "params")), "ssl"))
        for m, v in cases:
            ctx.count("connection modes")
            for ver in versions([x for e in connects for x in list(e.pc) + [e]]):
                env = {mode: v, **ver}
                attempts = []
                bad = ""
                for e in connects:
                    exc = [p for p in e.pc if p.op == "exc"]
                    on = pc_under([p for p in e.pc if p.op != "exc"], env)
                    if on is False:
                        continue
                    if on is None:
                        bad = f"whether a connection is attempted depends on {[show(p)[:60] for p in e.pc if p.op != 'exc' and truth_under(p, env) is None][:2]}"
                    args = dict(e.args[2])
                    s = args.get("ssl", NONE_T)
                    attempts.append((value_under(s, env), exc, e))
                attempts.sort(key=lambda a: len(a[1]))
                who = f"{c.short}: {m}"
                if bad:
                    ctx.bad("attempts-by-mode", who, f.loc(), bad)
                    continue
                sequence(ctx, c, d, f, r, who, m, attempts, evs, env)
    for d in ("postgresql", "mysql"):
        ctx.check(d in done, "connection-analysed", d, f"pysqlsync/dialect/{d}", "no call to the driver's connect function found")


def names_of(p: T) -> set[str]:
    ts = p.args[0]
    ts = ts if isinstance(ts, tuple) else (ts,)
    return {str(x).split(".")[-1] for x in ts}


def sequence(ctx: Ctx, c: ClassInfo, d: str, f: FuncInfo, r, who: str, m: str, attempts: list, evs: list, env: dict) -> None:
    loc = f.loc()
    off = [e for e in attempts if plain(e[0])]
    if m == "unknown":
        hit = [o for o in r.raises if pc_under([p for p in o.state.pc if p.op != "exc"], env) is True]
        ctx.check(not attempts and bool(hit), "unknown-mode-refused", who, loc, "a connection is opened in an unknown mode")
        return
    if m == "none":
        ctx.check(len(attempts) == 1 and bool(off), "no-context-when-disabled", who, loc, f"{len(attempts)} attempts, {len(off)} of them without a context")
        return
    if m == "disable":
        ok = len(attempts) == 1 and bool(off)
        ctx.check(ok, "no-context-when-disabled", who, loc, f"{len(attempts)} attempts, {len(off)} of them without a context")
        if ok and d == "postgresql":
            ctx.check(off[0][0].args[0] is False, "driver-default-not-used", who, attempts[0][2].loc or loc, "the driver prefers TLS when given no value")
        return
    for v, exc, e in attempts:
        if plain(v):
            continue
        cert, host, problem = settings(v, evs, env)
        ctx.check(not problem and (cert, host) == VERIFY[m], "connects-with-verifying-context", who, e.loc or loc,
                  problem or f"connects with a context that {'checks' if cert else 'does not check'} certificates and {'checks' if host else 'does not check'} host names")
    if m in ("require", "verify_ca", "verify_full"):
        ctx.check(bool(attempts) and not off, "no-plaintext-when-required", who, loc, "a connection is attempted without TLS" if off else "no attempt to connect")
        return
    order = ["plain" if plain(v) else "tls" for v, _, _ in attempts]
    want = ["tls", "plain"] if m == "prefer" else ["plain", "tls"]
    ctx.check(order == want, "fallback-order", who, loc, f"attempts are {order}, expected {want}")
    if order != want:
        return
    if m == "allow" and d == "postgresql":
        ctx.check(attempts[0][0].args[0] is False, "driver-default-not-used", who, attempts[0][2].loc or loc, "the driver prefers TLS when given no value")
    ctx.check(not attempts[0][1] and len(attempts[1][1]) == 1, "fallback-on-error", who, loc, "the second attempt is not made on failure of the first")
    if attempts[1][1]:
        ns = set().union(*(names_of(p) for p in attempts[1][1]))
        ok = CONNECTION_ERRORS | (DENIED if m == "allow" else set())
        ctx.check(bool(ns & CONNECTION_ERRORS) and ns <= ok, "fallback-on-connection-error", who, loc, f"falls back on {sorted(ns)}")


def parameters(ctx: Ctx, modes: ClassInfo) -> None:
    prog = ctx.prog
    f = next((f for m in prog.modules.values() for f in m.functions.values() if f.name == "get_parameters"), None)
    if f is None:
        raise AnalysisError("no function get_parameters")
    r = ctx.run(f, None, inline=lambda g, recv: g.cls is None and g.module is f.module)
    found = 0
    for value, pc in r.returns:
        for x in walk(value):
            if x.op == "new" and x.args[0].name == "ConnectionParameters":
                v = dict(x.args[1]).get("ssl")
                if v is None:
                    ctx.bad("mode-from-connection-string", f.short, f.loc(), "the SSL mode is not passed on")
                    continue
                for leaf, conds in leaves(v, pc):
                    found += 1
                    source(ctx, f, leaf, conds, modes)
    ctx.check(found >= 2, "mode-from-connection-string", f"{f.short}: cases", f.loc(), "no mode is taken from the connection string")


def leaves(v: T, pc: tuple):
    if v.op == "phi":
        yield from leaves(v.args[1], pc + (v.args[0],))
        yield from leaves(v.args[2], pc + (neg(v.args[0]),))
    elif v.op == "ornone":
        yield from leaves(v.args[0], pc)
    else:
        yield v, pc


def source(ctx: Ctx, f: FuncInfo, leaf: T, conds: tuple, modes: ClassInfo) -> None:
    text = lambda t: any(x.op == "const" and x.args[0] == "ssl" for x in walk(t))
    if leaf.op == "const" and leaf.args[0] is None:
        # only where no mode is given
        absent = any(not pol and (a.op == "in" and text(a.args[0]) or a.op == "attr" and a.args[1] == "query" or a.op == "call" and text(a)) or pol and a.op == "isnone" and text(a.args[0]) for a, pol in implied(conds))
        present = any(pol and a.op == "in" and text(a.args[0]) for a, pol in implied(conds))
        ctx.check(absent and not present, "mode-from-connection-string", f"{f.short}: no mode", f.loc(), "no SSL mode although the connection string may state one")
        return
    ok = False
    if leaf.op == "found":
        src, bv, cond, x = leaf.args
        ok = x == bv and any(y.op == "class" and y.args[0] is modes for y in walk(src)) | (src.op in ("enumof", "class")) and cond.op == "cmp" and cond.args[0] == "==" and T("attr", (bv, "value")) in cond.args[1:] and text(cond)
    elif leaf.op in ("enumof", "call", "new", "sub"):
        ok = any(y.op == "class" and y.args[0] is modes for y in walk(leaf)) or leaf.args[0] is modes
        ok = ok and text(leaf)
    ctx.check(ok, "mode-from-connection-string", f"{f.short}: mode stated", f.loc(), f"the SSL mode is {show(leaf)[:100]}")
