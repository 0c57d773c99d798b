"""Merges the workers' results, writes the evidence and the replay files, prints the verdict.  No TensorFlow here."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


def _known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k["property"] == prop and k.get("status") == "known"]


def _union(parts, key):
    out = []
    for p in parts:
        for x in p[key]:
            if x not in out:
                out.append(x)
    return out


def _sum(parts, key):
    out = {}
    for p in parts:
        for k, v in p[key].items():
            out[k] = out.get(k, 0) + v
    return out


def _listing(prop, named, room=300000):
    """Every named obligation if they fit; otherwise one per case and kind, the rest in a text file beside the evidence."""
    if sum(len(x) + 10 for x in named) <= room:
        return named
    path = os.path.join(VERIF, "evidence", prop + "_obligations.txt")
    with open(path, "w") as f:
        f.write("\n".join(named) + "\n")
    count = {}
    for x in named:
        case = x.split("/", 1)[0]
        count[case] = count.get(case, 0) + 1
    out, size = ["%d named obligations, all of them in %s; per case:" % (len(named), os.path.basename(path))], 0
    for case in sorted(count):
        line = "%s: %d" % (case, count[case])
        size += len(line) + 10
        if size > room:
            out.append("... %d cases in all" % len(count))
            break
        out.append(line)
    return out


def report(prop, parts, crashes, t0):
    only = os.environ.get("VERIF_CASE")
    violations = sorted((v for p in parts for v in p["violations"]), key=lambda v: (not v["confirmed"], v["index"]))
    for case, why in crashes:
        violations.insert(0, dict(case=case, label="terminates-normally", detail="the real code " + why, inputs=None, confirmed=True,
                                  extra="", index=-1))
    total = sum(p["obligations"] for p in parts)
    discharged = sum(p["discharged"] for p in parts)
    undecided = [u for p in parts for u in p["undecided"]]
    bounded = [b for p in parts for b in p["bounded"]]
    functions = set(f for p in parts for f in p["functions"])
    concrete = sum(p["concrete_runs"] for p in parts)
    cases = sum(p["cases"] for p in parts)
    backends = _sum(parts, "backends")
    known_list = _known(prop)
    known, fresh = [], []
    for v in violations:
        k = next((k for k in known_list if k["case"] == v["case"] and k.get("label", v["label"]) == v["label"]), None)
        (known if k else fresh).append((v, k))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for i, (v, _) in enumerate(fresh):
        path = os.path.join(VERIF, "evidence", "%s_replay_%d.txt" % (prop, i))
        with open(path, "w") as f:
            f.write("property %s\nfailed obligation: %s / %s\n%s\n" % (prop, v["case"], v["label"], v["detail"]))
            f.write("confirmed on the real code: %s\n" % v["confirmed"])
            f.write("inputs (words, unsigned):\n%s\n" % json.dumps({k: str(x) for k, x in (v["inputs"] or {}).items()}, indent=1))
            f.write("\n%s\n" % v["extra"])
            f.write("\nre-run: VERIF_CASE='%s' bash check.sh %s\n" % (v["case"], prop))
        v["path"] = path
    for k in known_list:
        if any(kk is k for _, kk in known):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    status = 0 if not fresh else 1
    if status == 0 and not only and not total and not concrete:
        print("ERROR: no obligations were generated")
        status = 2
    named = sorted(set(x for p in parts for x in p["named"]))
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="proof",
              coverage=dict(
                  obligations=total, discharged=discharged,
                  checker_cmd="bash check.sh %s" % prop,
                  trusted_base=_union(parts, "trusted") + [
                      "CPython executing the real function objects of /repo/tf_encrypted (compiled from the working tree on this run)",
                      "engine/symtf.py: semantics of the TensorFlow operators on machine words (structural operators are executed by TensorFlow itself on element indices)",
                      "engine/term.py normal forms; z3; cvc5"],
                  cases=cases, backends=backends,
                  solver_seconds=round(sum(p["solver_seconds"] for p in parts), 2),
                  functions_under_contract=sorted(functions),
                  n_functions=len(functions), tf_ops=_sum(parts, "opset"),
                  named_obligations=_listing(prop, named),
                  concrete_runs_on_real_code=concrete,
                  callee_contracts_assumed_here=sorted(set(x for p in parts for x in p["stubs"])),
                  bounded=bounded, skipped=[s for p in parts for s in p["skipped"]], undecided=undecided),
              assumptions=_union(parts, "assumptions"), wall_s=round(time.time() - t0, 1), violations=len(fresh))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d obligations, %d discharged %s, %d undecided, %d bounded, %d concrete runs, %d functions, %.1fs" % (
        prop, cases, total, discharged, backends, len(undecided), len(bounded), concrete, len(functions), time.time() - t0))
    for b in bounded[:40]:
        print("  bounded:", b[:300])
    if len(bounded) > 40:
        print("  bounded: ... %d more" % (len(bounded) - 40))
    for v, _ in fresh:
        print("FAILED OBLIGATION %s/%s: %s" % (v["case"], v["label"], v["detail"][:400]))
    for v, _ in fresh:
        print("VIOLATION property=%s replay=%s%s" % (prop, v["path"], "" if v["confirmed"] else " no-failing-input-found"))
        break
    sys.stdout.flush()
    return status
