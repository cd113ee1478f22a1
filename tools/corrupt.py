#!/usr/bin/env python3
"""corrupt.py [IDs...]: shows that the judges reject what the real code did not do.

Records the checks' real executions as the checks do (quick tier), changes one value in each of a
sample of them, has TLC judge those, and says how many were rejected, by the place of the change.
(A change of an input that does not matter, of a name, or within what a property leaves open is
rightly accepted.) Not a check; it writes nothing."""
import sys, os, json, random, re, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks

N = int(os.environ.get("N", "400"))
SKIP = {"i", "id", "k", "panic"}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if not path and k in SKIP:
                continue
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
        if x:
            yield path + ("drop",)
    else:
        yield path


def place(path):
    return ".".join(str(k) for k in path if not isinstance(k, int))[:40]


def change(r, rec):
    by = collections.defaultdict(list)
    for p in leaves(rec):
        by[place(p)].append(p)
    where = r.choice(sorted(by))
    path = r.choice(by[where])
    x = rec
    last = path[-1]
    if last == "drop":
        for k in path[:-1]:
            x = x[k]
        x.pop(r.randrange(len(x)))
        return where
    for k in path[:-1]:
        x = x[k]
    v = x[last]
    if isinstance(v, bool):
        x[last] = not v
    elif isinstance(v, int):
        x[last] = v + 1 if v < 255 else v - 1
    elif isinstance(v, str):
        other = {"ok": "err", "err": "ok", "i": "f", "f": "i", "s": "i", "o": "a", "a": "o", "n": "b", "b": "n"}
        x[last] = other.get(v, v + "x")
    return where


class Corrupting(vlib.Check):
    def validate(self, module, recs, name=None, **kw):
        lines = [x for x in open(recs, "rb").read().split(b"\n") if x and len(x) < 20000]
        r = random.Random(7)
        r.shuffle(lines)
        out, where = [], {}
        for n, x in enumerate(lines[:N]):
            rec = json.loads(x)
            rec["i"] = n + 1
            where[n + 1] = change(r, rec)
            out.append(rec)
        total = collections.Counter(where.values())
        bad, odd = collections.Counter(), 0
        path = recs + ".corrupted"
        todo = [out]
        while todo:
            part = todo.pop()
            open(path, "w").write("".join(json.dumps(x) + "\n" for x in part))
            t = self.tlc(module, "SPECIFICATION TraceSpec\nINVARIANT TraceOk\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  RecFile = \"%s\"\n  K = 64\n%s\n" % (path, kw.get("consts", "")))
            if t["rc"] == 0:
                for ln in t["lines"]:
                    if ln.startswith("MISMATCH "):
                        bad[where[json.loads(ln[9:])[0]]] += 1
                continue
            # a record that is no value of the specification
            at = re.findall(r"^(?:/\\ )?l = (\d+)", t["out"][t["out"].find("Error:"):], re.M)
            if at or len(part) == 1:
                odd += 1
                bad[where[part.pop(int(at[-1]) - 1 if at else 0)["i"]]] += 1
                todo += [part] if part else []
            else:
                todo += [part[: len(part) // 2], part[len(part) // 2:]]
        print("%s %s: %d changed, %d rejected (%d of them as no values of the specification)" % (self.pid, name or module, len(where), sum(bad.values()), odd))
        for w, n in sorted(total.items(), key=lambda p: bad[p[0]] / p[1]):
            if bad[w] < n:
                print("    %-40s %d of %d" % (w, bad[w], n))
        sys.stdout.flush()


for pid in sys.argv[1:] or sorted(checks.TABLE):
    c = Corrupting(pid, "quick", 1)
    try:
        checks.TABLE[pid](c)
    except vlib.CheckError as e:
        print(pid, "error", str(e)[:300])
    finally:
        c.close()
