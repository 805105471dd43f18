"""Which obligations decide which property, and the evidence written for it."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PCACHE = {}
class Prop:
    def __init__(s, id, companion=None, level="proof", units=None):
        s.id, s.companion, s.level, s.units = id, companion, level, units
    def selects(s, u):
        if s.id in ("C02", "C03"): return u.contract.tracked
        return s.id in u.props
    def wants(s, u, tag):
        import units
        return units.concerns(s.id, u, tag)
PROPS = {}
for _id in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"): PROPS[_id] = Prop(_id, companion=True)

TRUSTED = ["clang 18 -O0 and opt mem2reg,simplifycfg (extraction of the verified LLVM IR from /repo's sources)",
           "the obligation generator /verif/vc (engine.py, ir.py) and its heap model (union fields of a cell kept apart, weak edges only on tree nodes)",
           "z3 (the only solver asked; unsat answers are not re-checked)"]
ASSUME = ["values are acyclic and finite; list spines updated in place by conc/sss/merge are not shared with another tracked value",
          "evaluating an expression does not change the value of a cell another caller holds (in-place update by <- and tail marking excepted)",
          "a value of the shape of a function carries a binding list as its captured environment",
          "reference counts stay below 2^31; the stack is deep enough for the recursion",
          "machine integers are exact bit vectors; signed wrap-around of + - * is treated as two's complement",
          "the contracts of libc functions in externs.py"]
def evidence(prop, P, tier, seed, rows, undecided, boundedfns, comp, notes, lines, rc, wall):
    proved = [r for r in rows if r["status"] == "proved"]
    ob = sum(r.get("n", 0) for r in rows)
    disc = sum(r.get("trivial", 0) + r.get("proved", 0) for r in rows if r["status"] in ("proved", "bounded"))
    assumed = sorted({a for r in rows for a in r.get("assumed", [])})
    cov = dict(obligations=ob, discharged=disc, checker_cmd="z3 (python bindings, %s) on %d obligations; vc/run.py %s" % (__import__("z3").get_version_string(), ob, prop), trusted_base=TRUSTED,
               functions_under_contract=[dict(function=r["function"], unit=r["unit"], file=r["file"], status=r["status"], obligations=r.get("n", 0), by_solver=r.get("proved", 0),
                    by_rewriting=r.get("trivial", 0), solver_s=round(r.get("solver", 0), 1), loop_invariants=r.get("inv", []), bounded=r.get("bounded", []), inlined=r.get("inlined", []), callee_contracts=r.get("used", []), note=r.get("note") or r.get("why") or "") for r in rows],
               functions_proved=len(proved), functions_bounded=boundedfns, functions_undecided=undecided,
               solver_time_s=round(sum(r.get("solver", 0) for r in rows), 1), generation_time_s=round(sum(r.get("gen", 0) for r in rows), 1),
               failed_obligations=[dict(unit=r["unit"], failed=r["failed"]) for r in rows if r["status"] == "failed"], notes=notes, printed=lines)
    if comp is not None and comp[0] == "ok":
        c = comp[1]
        cov.update(bounded_stand_in=dict(what=c.get("what"), evaluations=c.get("evaluations"), distinct_nontrivial=c.get("distinct"), rule=c.get("rule"), samples=c.get("samples", [])[:6]))
        if P.level != "proof":
            cov.update(evaluations=c.get("evaluations", 0), distinct_nontrivial=c.get("distinct", 0), rule=c.get("rule", ""), samples=c.get("samples", [])[:6])
    if P.level == "other": cov["explanation"] = "obligations discharged by the verifier over the real code, with bounded stand-ins where listed"
    return dict(property=prop, tier=tier, seed=seed, level=P.level, coverage=cov, assumptions=ASSUME + assumed, wall_s=round(wall, 1), violations=sum(1 for l in lines if l.startswith("VIOLATION")))
