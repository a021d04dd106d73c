import random

from common import *

ASSUMPTIONS = ["scopes that a foreign error passes through may or may not leave a trace under their enclosing scope"]


class Foreign(Exception):
    pass


class Interrupted(BaseException):
    pass


def play(ops, alike=False):
    """Runs a program with real with-statements; returns (finished roots, what happened outside)
    alike: all messages of a kind are the same"""
    res = load()["result"]
    R = res.AasTestResult
    done, out = [], []
    pos = [0]

    def text_or(prefix, i, l, plain):
        if alike:
            i = 1
        return f"{prefix}{i}" if l == plain else R(f"{prefix}{i}", level_of(l))

    def body(depth):
        """Executes ops until the scope of this level is left"""
        while pos[0] < len(ops):
            i = pos[0] + 1
            op = ops[pos[0]]
            pos[0] += 1
            o = op["o"]
            if o == "enter":
                scope(i, op, depth)
            elif o == "leave":
                return
            elif o == "write":
                res.write(text_or("w", i, op["l"], 0))
            elif o == "abort":
                res.abort(text_or("a", i, op["l"], 2))
                raise AssertionError("abort returned")
            elif o == "raise":
                raise (ValueError, Foreign, KeyError, AssertionError)[i % 4]("x1" if alike else f"x{i}")
            elif o == "interrupt":
                raise (KeyboardInterrupt, SystemExit, Interrupted)[i % 3]()

    def scope(i, op, depth):
        with res.start(text_or("s", i, op["l"], 0), op["g"]) as r:
            body(depth + 1)
        # reached unless an exception passes
        if depth == 0:
            done.append(r)

    while pos[0] < len(ops):
        try:
            i = pos[0] + 1
            op = ops[pos[0]]
            if op["o"] == "enter":
                pos[0] += 1
                scope(i, op, 0)
            else:
                # outside of all scopes
                pos[0] += 1
                if op["o"] == "write":
                    try:
                        res.write(text_or("w", i, op["l"], 0))
                        out.append("accepted")
                    except RuntimeError:
                        out.append("refused")
                elif op["o"] == "abort":
                    res.abort(text_or("a", i, op["l"], 2))
                    out.append("abort ignored")
                elif op["o"] == "raise":
                    out.append("escaped")
                elif op["o"] == "interrupt":
                    out.append("interrupted")
        except res.ResultException:
            out.append("aborted")
        except AssertionError as e:
            out.append("escaped" if str(e).startswith("x") else f"assertion {e}")
        except (ValueError, Foreign, KeyError):
            out.append("escaped")
        except (KeyboardInterrupt, SystemExit, Interrupted):
            out.append("interrupted")
    # the stack is as before: nothing is open, and a new scope records just what happens in it
    try:
        res.write("w0")
        out.append("scope left open")
    except RuntimeError:
        pass
    with res.start("fresh") as r:
        res.write("inside")
    if [i.message for i in r.sub_results] != ["inside"]:
        out.append("fresh scope disturbed")
    return done, out


def view(r, dropped):
    m = r.message
    k, i = m[:1], m[1:]
    kids = [view(s, dropped) for s in r.sub_results]
    removed = any(x["k"] == "s" and x["id"] in dropped for x in kids) or any(x["loose"] for x in kids)
    kids = [x for x in kids if not (x["k"] == "s" and x["id"] in dropped)]
    known = k in ("s", "w", "a") and i.isdigit()
    return {"k": k if known else "x", "id": int(i) if known else -1, "l": sev_of(r.level), "s": kids, "loose": removed}


def shape(r):
    return (r.message[:1] if r.message[1:].isdigit() else "x", sev_of(r.level), [shape(s) for s in r.sub_results])


def alike_differs(ops, roots, out):
    """The text of a message is opaque: programs which only differ in texts record the same"""
    st, r = guarded(play, ops, True)
    if st != "ok":
        return f"with equal messages: {st}: {r}"
    if r[1] != out or [shape(x) for x in r[0]] != [shape(x) for x in roots]:
        return "equal messages are recorded in another way than distinct ones"
    return None


def sev(e):
    return max([e["own"]] + [sev(i) for i in e["s"] or []])


def same(e, o):
    """Expected (spec node) against observed (view)"""
    if e["k"] != o["k"] or (e["k"] != "x" and e["id"] != o["id"]):
        return f"expected {e['k']}{e['id']}, got {o['k']}{o['id']}"
    kids = e["s"] or []
    if len(kids) != len(o["s"]):
        return f"{e['k']}{e['id']} contains {[i['k'] + str(i['id']) for i in o['s']]}, expected {[i['k'] + str(i['id']) for i in kids]}"
    if not o["loose"] and sev(e) != o["l"]:
        return f"{e['k']}{e['id']} has severity {o['l']}, expected {sev(e)}"
    for a, b in zip(kids, o["s"]):
        m = same(a, b)
        if m:
            return m
    return None


def dropped_scopes(ops, done):
    ids = set()

    def walk(n):
        ids.add(n["id"])
        for i in n["s"] or []:
            walk(i)

    for n in done:
        walk(n)
    return {i + 1 for i, o in enumerate(ops) if o["o"] == "enter"} - ids


def replay(case):
    ops = case["ops"]
    st, r = guarded(play, ops)
    if st != "ok":
        return f"{st}: {r}"
    roots, out = r
    if out != (case["out"] or []):
        return f"outside of all scopes: {out}, expected {case['out']}"
    done = case["done"] or []
    if len(roots) != len(done):
        return f"{len(roots)} outermost scopes ended, expected {len(done)}"
    drop = dropped_scopes(ops, done)
    for e, r in zip(done, roots):
        m = same(e, view(r, drop))
        if m:
            return m
    return alike_differs(ops, roots, out)


def wide_program(rnd, n):
    """Scopes with many entries, the worst of which comes late"""
    def op(o, g=False, l=0):
        return {"o": o, "g": g, "l": l}

    ops = [op("enter", rnd.random() < 0.5) for _ in range(rnd.randrange(1, 3))]
    depth = len(ops)
    for i in range(n):
        ops.append(op("write", l=rnd.choice([0, 0, 0, 1])))
        if rnd.random() < 0.1:
            ops += [op("enter", l=rnd.choice([0, 1])), op("leave")]
    how = rnd.randrange(4)
    if how == 0:
        ops.append(op("write", l=rnd.choice([2, 3])))
    elif how == 1:
        ops += [op("enter"), op("write", l=2), op("leave")]
    elif how == 2:
        ops += [op("enter"), op("abort", l=2)]
    else:
        ops += [op("enter", True), op("raise")]
    ops += [op("write")] * rnd.randrange(3)
    return ops + [op("leave")] * depth


def random_program(rnd, n):
    ops, depth = [], 0
    stack = []
    for _ in range(n):
        k = rnd.random()
        if depth < 8 and k < 0.35:
            g = rnd.random() < 0.4
            ops.append({"o": "enter", "g": g, "l": rnd.choice([0, 0, 0, 1, 2, 3])})
            stack.append(g)
        elif stack and k < 0.5:
            ops.append({"o": "leave", "g": False, "l": 0})
            stack.pop()
        elif k < 0.8:
            ops.append({"o": "write", "g": False, "l": rnd.choice([0, 0, 1, 2, 3])})
        elif k < 0.89:
            ops.append({"o": "abort", "g": False, "l": rnd.choice([2, 2, 0, 1, 3])})
            if stack:
                stack.pop()
        elif k < 0.98:
            ops.append({"o": "raise", "g": False, "l": 0})
            while stack and not stack[-1]:
                stack.pop()
            if stack:
                stack.pop()
        else:
            ops.append({"o": "interrupt", "g": False, "l": 0})
            stack.clear()
        depth = len(stack)
    ops += [{"o": "leave", "g": False, "l": 0}] * len(stack)
    return ops


def record(ops):
    """What the program recorded, in the terms of the specification"""
    st, r = guarded(play, ops)
    if st != "ok":
        return st, r
    roots, out = r
    own = {i + 1: (o["l"]) for i, o in enumerate(ops)}
    problems = []

    def conv(x):
        m = x.message
        k, i = m[:1], m[1:]
        if not (k in ("s", "w", "a") and i.isdigit()):
            if sev_of(x.level) != 3 or x.sub_results:
                problems.append("foreign error is no critical entry")
            return {"k": "x", "id": 0, "own": 3, "s": []}
        n = {"k": k, "id": int(i), "own": own.get(int(i), -1), "s": [conv(y) for y in x.sub_results]}
        lv = max([n["own"]] + [sev_of(y.level) for y in x.sub_results])
        if lv != sev_of(x.level):
            problems.append(f"severity of {m}")
        return n

    done = [conv(x) for x in roots]
    m = alike_differs(ops, roots, out)
    if m:
        problems.append(m)
    return "ok", {"ops": ops, "done": done, "out": out, "problems": problems}


def run(rep):
    r = rep.tlc("ResCtx", parse=False)
    replay_lines(rep, r.lines, replay)
    rnd = random.Random(f"{rep.seed}/scopes")
    progs = [random_program(rnd, rnd.randrange(5, 60)) for _ in range(6000 if rep.thorough else 1000)]
    progs += [wide_program(rnd, rnd.choice([20, 50, 90, 140])) for _ in range(200 if rep.thorough else 40)]
    recs = []
    for p, (st, x) in zip(progs, pmap(record, progs)):
        if st != "ok":
            rep.violation(f"{st}: {x}", {"ops": p})
        elif x["problems"]:
            rep.violation(f"scopes: {x['problems'][0]}", {"ops": p})
        else:
            recs.append(x)
    for rec, v in judge_traces(rep, "ResCtxTrace", recs, lambda r: len(r["ops"])):
        if not v["same"]:
            rep.violation("a program of nested scopes recorded something else than the machine", rec)
