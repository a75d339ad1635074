"""Runs the run-time contracts of one property on the code in REPO (PYTHONPATH).

usage: run.py PROPERTY SEED N_RANDOM SECONDS [EXTRA_CASES.json] > result.json
       run.py --replay FILE
Runs under the project's interpreter.  Prints one JSON object.
"""
import json, os, random, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def registry():
    import p_control, p_predef, p_dds, p_misc
    reg = {}
    for m in (p_control, p_predef, p_dds, p_misc):
        reg.update(m.REG)
    return reg


def one(check, case, own=False):
    from common import Bad
    try:
        r = check(case)
        return None, r
    except Bad as b:
        return dict(clause=b.clause, text=b.text, case=case), None
    except (TypeError, ValueError, AttributeError, KeyError, IndexError) as e:
        if not own:
            raise
        # the case is well-formed and exceptions of the code are caught where it is called: what the code
        # returned cannot be read as what the statement says it is
        tb = e.__traceback__
        while tb.tb_next is not None and os.path.dirname(os.path.abspath(tb.tb_next.tb_frame.f_code.co_filename)) == HERE:
            tb = tb.tb_next
        return dict(clause="result-form", text="a result is not of the stated form: %s: %s (%s line %d)" % (
            type(e).__name__, str(e)[:200], os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno), case=case), None


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # nothing the code prints may mix with the result
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        reg = registry()
        fail, _ = one(reg[rec["property"]][2], rec["case"], rec.get("clause") == "result-form")
        if fail:
            out.write("reproduced: %s: %s\n" % (fail["clause"], fail["text"]))
        else:
            out.write("not reproduced\n")
        out.flush()
        os._exit(1 if fail else 0)
    prop, seed, nrand, secs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4])
    extra = json.load(open(sys.argv[5])) if len(sys.argv) > 5 else []
    bank, gen, check = registry()[prop]
    t0 = time.time()
    hints = bool(os.environ.get("RT_HINTS"))
    fails, known, n, distinct = [], {}, dict(bank=0, random=0, model=0), set()
    samples = []

    def go(case, kind):
        n[kind] += 1
        distinct.add(json.dumps(case, sort_keys=True, default=str))
        if len(samples) < 3 and kind == "random" or (kind == "model" and len(samples) < 5):
            samples.append(case)
        f, r = one(check, case, kind != "model" and not hints)
        if f:
            f["source"] = kind
            fails.append(f)
        elif isinstance(r, str) and r.startswith("KNOWN "):
            known.setdefault(r.split(":")[0][6:], dict(text=r[6:], case=case))
    for case in extra:
        if len(fails) < 5:
            try:
                go(case, "model")
            except Exception:
                traceback.print_exc()
                n["model"] -= 1
    for case in ([] if os.environ.get("RT_NOBANK") else bank()):
        if len(fails) < 5:
            go(case, "bank")
    rng = random.Random("%s/%d" % (prop, seed))
    for i in range(nrand):
        if len(fails) >= 5 or time.time() - t0 > secs:
            break
        case = gen(rng)
        try:
            go(case, "random")
        except Exception:
            if not hints:
                raise
            n["random"] -= 1
    json.dump(dict(property=prop, counts=n, distinct=len(distinct), fails=fails, known=known, samples=samples, wall=time.time() - t0), out)
    out.flush()


if __name__ == "__main__":
    main()
