"""Runs drivers against /repo and TLC against their records, and reports.

Exit codes of a check: 0 held on everything explored, 1 violation (with a
VIOLATION line), 2 the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, fnmatch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                             capture_output=True, env=env).stdout.decode(errors="replace")
        for kv in out.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    except OSError:
        pass
    env.setdefault("GOFLAGS", "-mod=mod")
    env.update(GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local", GOSUMDB="off")
    if shutil.which("go", path=env.get("PATH", "")) is None:
        env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "")
    return env


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.drv = {}
        self.violations = []      # dicts with clause, record, how
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.detail = {}
        self.assumptions = []
        self.known_entries = load_known(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, q, t):
        return t if self.thorough else q

    def note(self, **kw):
        self.detail.update(kw)

    # --- building and running the real code ------------------------------
    def build(self, race=False):
        if race in self.drv:
            return self.drv[race]
        src = os.path.join(self.tmp, "src")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            mod = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
            # the requirements of the code under test are those of the harness
            req = re.findall(r"^require \((.*?)^\)", open(os.path.join(REPO, "go.mod")).read(), re.S | re.M)
            mod += "".join("\nrequire (%s)\n" % r for r in req)
            open(os.path.join(src, "go.mod"), "w").write(mod)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(src, "go.sum"))
        out = os.path.join(self.tmp, "driver-race" if race else "driver")
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
        p = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("the harness does not build against the code:\n" + (p.stderr or p.stdout)[-3000:])
        self.drv[race] = out
        return out

    def drive(self, name=None, race=False, infile=None, timeout=600, limit=20, env=None, extra=()):
        """Runs a driver; returns the path of its records, or None after a crash that was reproduced."""
        name = name or self.pid
        drv = self.build(race)
        out = os.path.join(self.tmp, "recs-%s.ndjson" % name)
        prog = os.path.join(self.tmp, "progress-%s" % name)
        cmd = [drv, "-check", name, "-seed", str(self.seed), "-tier", self.tier, "-out", out, "-progress", prog]
        if infile:
            cmd += ["-in", infile]
        cmd += list(extra)
        e = dict(os.environ, **(env or {}))
        try:
            p = subprocess.run(cmd + ["-limit", "%ds" % limit], capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("driver %s ran out of time" % name)
        self.driver_stderr = p.stderr
        if p.returncode == 0:
            return out
        if p.returncode == 66 and race:
            return out
        if p.returncode == 5:
            raise CheckError("driver %s: %s" % (name, p.stderr[-2000:]))
        # the process died or hung while running a case: is it the case?
        try:
            idx = int(open(prog).read().split()[0])
        except (OSError, ValueError, IndexError):
            raise CheckError("driver %s died (%d): %s" % (name, p.returncode, p.stderr[-2000:]))
        again = None
        try:
            q = subprocess.run(cmd + ["-only", str(idx), "-limit", "60s"], capture_output=True, text=True, timeout=200, env=e, errors="replace")
            again = q.returncode
        except subprocess.TimeoutExpired:
            raise CheckError("driver %s: case %d ran out of time" % (name, idx))
        if again in (2, 3, 4):
            what = {2: "crash", 3: "hang", 4: "memory"}[again]
            head = [x for x in q.stderr.splitlines() if x.strip()][:4]
            self.violation(what, {"i": idx, "id": what, "stderr": head}, name)
            return None
        raise CheckError("driver %s died (%d) at case %d, not reproduced: %s" % (name, p.returncode, idx, p.stderr[-2000:]))

    # --- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, workers=8, timeout=800, extra=(), heap="6g", spec_dir=None, env=None):
        d = os.path.join(self.tmp, "tlc-%s-%d" % (module, len(os.listdir(self.tmp))))
        os.makedirs(d)
        cfgp = os.path.join(d, module + ".cfg")
        open(cfgp, "w").write(cfg)
        src = spec_dir or SPEC
        for f in os.listdir(src):
            if f.endswith(".tla"):
                os.symlink(os.path.join(src, f), os.path.join(d, f))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-Dtlc2.tool.impl.Tool.cdot=true", "-cp", JARS, "tlc2.TLC",
               "-config", cfgp, "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, errors="replace", env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s ran out of time" % module)
        out = p.stdout
        r = dict(rc=p.returncode, out=out, secs=time.time() - t)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        r["generated"], r["distinct"] = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        r["lines"] = [json.loads(x) for x in out.splitlines() if x.startswith('"') and x.endswith('"')]
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return r

    def said(self, r):
        """The errors in TLC's output."""
        lines = r["out"].splitlines()
        at = [i for i, x in enumerate(lines) if x.startswith("Error") or "xception" in x or "***" in x]
        return "\n".join(x[:1000] for i in at[:6] for x in lines[i:i + 4]) + "\n...\n" + r["out"][-1500:]

    def count(self, r):
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]

    def model(self, module, cfg, **kw):
        """Checks the specification itself; a failure is an error of the check."""
        r = self.tlc(module, cfg, **kw)
        if r["rc"] != 0:
            raise CheckError("the specification %s fails its own check:\n%s" % (module, self.said(r)))
        self.count(r)
        self.detail.setdefault("spec_models", []).append(dict(module=module, distinct_states=r["distinct"], generated=r["generated"], secs=round(r["secs"], 1)))
        return r

    def must_break(self, module, cfg, invs):
        """Checks that each invariant fails on a specification that is wrong on purpose."""
        for inv in invs:
            one = re.sub(r"^INVARIANTS? .*$", "INVARIANT " + inv, cfg, flags=re.M)
            r = self.tlc(module, one)
            if "Invariant %s is violated" % inv not in r["out"]:
                raise CheckError("%s: %s does not fail on the wrong specification\n%s" % (module, inv, self.said(r)))
        self.detail.setdefault("wrong_specifications_refuted", []).append(dict(module=module, invariants=invs))

    def validate(self, module, recs, name=None, **kw):
        """Has TLC judge every record of a file, a part of it at a time; mismatches become violations."""
        part, size, parts = [], 0, 0
        with open(recs, "rb") as f:
            for x in f:
                part.append(x)
                size += len(x)
                if size > 40 << 20:
                    parts += 1
                    self.validate_part(module, self.part_file(recs, parts, part), name=name, **kw)
                    os.remove("%s.part%d" % (recs, parts))
                    part, size = [], 0
        if part or not parts:
            self.validate_part(module, self.part_file(recs, parts + 1, part), name=name, **kw)

    def part_file(self, recs, k, lines):
        path = "%s.part%d" % (recs, k)
        with open(path, "wb") as f:
            f.writelines(lines)
        return path

    def validate_part(self, module, recs, consts="", name=None, workers=8, sample=2, judge_state=False, **kw):
        lines = [x for x in open(recs, "rb").read().split(b"\n") if x]
        n = len(lines)
        if n == 0:
            raise CheckError("no records for " + module)
        cfg = "SPECIFICATION TraceSpec\nINVARIANT TraceOk\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  RecFile = \"%s\"\n  K = 64\n%s\n" % (recs, consts)
        for attempt in range(5):
            r = self.tlc(module, cfg, workers=workers, **kw)
            if r["rc"] == 0:
                break
            # a record that is not a value the specification knows: set it aside as a mismatch, judge the others
            at = re.findall(r"^(?:/\\ )?l = (\d+)", r["out"][r["out"].find("Error:"):], re.M)
            if attempt == 4 or not at or "OutOfMemory" in r["out"] or "StackOverflow" in r["out"] or "Parsing or semantic analysis failed" in r["out"]:
                raise CheckError("TLC on %s:\n%s" % (module, self.said(r)))
            rec = lines.pop(int(at[-1]) - 1)
            n = len(lines)
            self.violation("not-a-value-of-the-specification", json.loads(rec), name or self.pid)
            with open(recs, "wb") as f:
                f.write(b"".join(x + b"\n" for x in lines))
        if not judge_state and r["distinct"] != n:
            raise CheckError("%s: %d records, but TLC visited %d" % (module, n, r["distinct"]))
        self.count(r)
        self.cov["traces_validated_against_impl"] += n
        self.detail.setdefault("validations", []).append(dict(module=module, records=n, distinct_states=r["distinct"], secs=round(r["secs"], 1)))
        for x in lines[:: max(1, n // sample)][:sample]:
            self.sample(x.decode()[:700])
        byi = None
        for ln in r["lines"]:
            if ln.startswith("MISMATCH "):
                if byi is None:
                    byi = {}
                    for x in lines:
                        rec = json.loads(x)
                        byi[rec["i"]] = rec
                i, bad = json.loads(ln[9:])
                self.violation(",".join(map(str, bad)), byi.get(i, {"i": i}), name or self.pid)
        return r

    def trie(self, tokens, maxlen, mode, label, workers=8):
        """Every text of up to maxlen tokens, judged in every state of the parser automaton."""
        inp = os.path.join(self.tmp, "trie-%s.json" % label)
        with open(inp, "w") as f:
            f.write(json.dumps(dict(Tokens=tokens, MaxLen=maxlen, Mode=mode)) + "\n")
        tok = os.path.join(self.tmp, "tokens-%s.ndjson" % label)
        with open(tok, "w") as f:
            for t in tokens:
                f.write(json.dumps(list(t.encode())) + "\n")
        shutil.rmtree(os.path.join(self.tmp, "recs-trie.ndjson"), ignore_errors=True)
        recs = self.drive("trie", infile=inp)
        if recs is None:
            return
        cfg = ("SPECIFICATION Spec\nINVARIANTS TypeOk RfcAccepted TrieOk\nPROPERTY Settled\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
               "  TokFile = \"%s\"\n  OutFile = \"%s\"\n  MaxLen = %d\n  Mode = \"%s\"\n" % (tok, recs, maxlen, mode))
        r = self.tlc("Trie", cfg, workers=workers)
        if r["rc"] != 0:
            raise CheckError("TLC on Trie:\n" + self.said(r))
        total = sum(len(tokens) ** i for i in range(maxlen + 1))
        if r["distinct"] != total:
            raise CheckError("Trie: %d texts, but TLC visited %d" % (total, r["distinct"]))
        self.count(r)
        self.cov["traces_validated_against_impl"] += total
        self.detail.setdefault("tries", []).append(dict(label=label, tokens=tokens, max_tokens=maxlen, texts=total, mode=mode, secs=round(r["secs"], 1)))
        outs = None
        for ln in r["lines"]:
            if ln.startswith("MISMATCH "):
                idx, bad = json.loads(ln[9:])
                if outs is None:
                    outs = open(recs).read().split("\n")
                toks, k = [], idx
                while k > 0:
                    toks.append(tokens[(k - 1) % len(tokens)])
                    k = (k - 1) // len(tokens)
                self.violation(",".join(bad), {"i": idx, "id": "trie-" + label, "text": "".join(reversed(toks)), "got": json.loads(outs[idx])}, "trie")

    def cases(self, module, cfg, name=None, **kw):
        """Model-checks a generator module and collects the cases it prints."""
        r = self.model(module, cfg, **kw)
        path = os.path.join(self.tmp, "cases-%s.ndjson" % (name or module))
        n = 0
        with open(path, "w") as f:
            for ln in sorted(x for x in r["lines"] if x.startswith("CASE ")):
                f.write(ln[5:] + "\n")
                n += 1
        if n == 0:
            raise CheckError("no cases from " + module)
        self.detail["cases_from_specification"] = self.detail.get("cases_from_specification", 0) + n
        return path

    def join(self, files):
        path = os.path.join(self.tmp, "joined.ndjson")
        with open(path, "w") as out:
            for f in files:
                out.write(open(f).read())
        return path

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    # --- verdict ------------------------------------------------------------
    def violation(self, clause, rec, driver):
        for e in self.known_entries:
            if e["id"] == rec.get("id") and any(fnmatch.fnmatch(clause, c) for c in e["clauses"].split("|")):
                self.known.append((e, rec))
                return
        self.violations.append(dict(clause=clause, record=rec, driver=driver))

    def finish(self):
        wall = time.time() - self.t0
        seen = set()
        for e, rec in self.known:
            if e["id"] not in seen:
                seen.add(e["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.cov.update(self.detail)
        self.cov["known_findings_met"] = sorted(seen)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(wall, 1), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, count=len(self.violations), violations=self.violations[:50]), f, indent=1)
                f.write("\n")
            for v in self.violations[:5]:
                rec = v["record"]
                print("  case %s (%s): %s %s" % (rec.get("i"), rec.get("id"), v["clause"], readable(rec)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s tier=%s seed=%d states=%d records=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, self.cov["states"], self.cov["traces_validated_against_impl"], wall))
        return 0

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.tmp)
        else:
            shutil.rmtree(self.tmp, ignore_errors=True)


def readable(x):
    """A record with its byte arrays turned back into text."""
    def conv(y):
        if isinstance(y, list):
            if y and all(isinstance(z, int) and not isinstance(z, bool) and 0 <= z < 256 for z in y):
                return bytes(y).decode("latin-1")
            return [conv(z) for z in y]
        if isinstance(y, dict):
            return {k: conv(v) for k, v in y.items()}
        return y
    return json.dumps(conv(x), ensure_ascii=True)


def load_known(pid):
    """Entries of known-findings.txt that are not repaired:
    known: property=ID id=PROBE clauses=GLOB|GLOB what fails ..."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) clauses=(\S+) (.*)", ln)
            if m and m.group(1) == pid:
                out.append(dict(id=m.group(2), clauses=m.group(3), what=m.group(4).strip()))
    return out
