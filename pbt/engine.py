"""Generated-input search engine: recorded random choices, parallel batches,
confirmation, and shrinking on the choice sequence.

Every random decision of a generator goes through Src, which records it.  A
case is therefore a pure function of its list of choices: replaying the list
rebuilds the case, and shrinking the list shrinks the case, whatever it is.
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Src:
    """Source of choices. 0 is always the simplest outcome of a draw."""

    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.pos = 0
        self.rec = []

    def draw(self, n, biased=None):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        else:
            v = biased(self.rng) if biased else self.rng.randrange(n)
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        """An integer in [lo, hi]; shrinks towards lo."""
        return lo + self.draw(hi - lo + 1)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, percent):
        """True in `percent` percent of cases; shrinks towards False."""
        return self.draw(100) >= 100 - percent

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def bits(self, n):
        return self.draw(1 << n)


class Discard(Exception):
    """The generator could not build a case from these choices."""


class Case:
    """What a generator returns. `key` identifies it (distinctness), `tags`
    classify it, `nontrivial` applies the property's rule."""

    def __init__(self, key, nontrivial=True, tags=(), sample=None, **kw):
        self.key = key
        self.nontrivial = nontrivial
        self.tags = list(tags)
        self.sample = sample if sample is not None else key
        self.__dict__.update(kw)


OK = None


class Fail(str):
    """Outcome of a case: the property does not hold on it."""


class Skip(str):
    """Outcome of a case: not decided (reason), e.g. the reference rejects it."""


class Property:
    """Base class. A property supplies gen() and run_batch()."""
    id = "?"
    rule = ""
    batch = 1
    quick_cases = 100
    thorough_factor = 10
    assumptions = []
    variants = ("lacc",)       # builds needed; see toolchain.Build
    soft_time = 420            # no batch is started after this many seconds

    def setup(self, ctx):
        """Called once in the parent before workers are forked."""

    def gen(self, src, index):
        raise NotImplementedError

    def run_batch(self, ctx, cases):
        """Returns a list of outcomes, one per case: OK, Fail or Skip. May
        return a single Fail to say that the batch as a whole fails."""
        raise NotImplementedError

    def render(self, ctx, cases):
        """Human-readable reproduction: {file name: text}."""
        return {"case.txt": "\n\n".join(str(c.sample) for c in cases)}

    def fixed(self, ctx):
        """Extra deterministic checks: yields (name, outcome)."""
        return ()


_P = None
_CTX = None
_SEED = 0


def _rng(seed, prop, index):
    return random.Random("%s/%s/%d" % (prop, seed, index))


def make_case(prop, seed, index):
    src = Src(rng=_rng(seed, prop.id, index))
    try:
        case = prop.gen(src, index)
    except Discard as e:
        return None, str(e), src.rec
    case.choices = src.rec
    case.index = index
    return case, None, src.rec


def replay_case(prop, choices, index):
    src = Src(replay=list(choices))
    try:
        case = prop.gen(src, index)
    except Discard:
        return None
    except Exception:
        # A shrunk sequence can lead a generator into a corner it never
        # reaches with random choices; such candidates are just skipped.
        return None
    case.choices = src.rec
    case.index = index
    return case


def run_cases(prop, ctx, cases):
    """Outcomes for cases, isolating failures of a batch. A failure that only
    shows with several cases together is reported as ('batch', Fail)."""
    out = prop.run_batch(ctx, cases)
    if isinstance(out, Fail):
        if len(cases) == 1:
            return [out], None
        singles = []
        for c in cases:
            o = prop.run_batch(ctx, [c])
            singles.append(o if isinstance(o, (Fail, Skip)) or o is OK else o[0])
        if any(isinstance(o, Fail) for o in singles):
            return singles, None
        # Cases that are not decided on their own take no part.
        sure = [c for c, o in zip(cases, singles) if not isinstance(o, Skip)]
        if len(sure) < len(cases):
            out = prop.run_batch(ctx, sure) if sure else None
            if not isinstance(out, Fail):
                return singles, None
        return singles, out
    return out, None


def _work(job):
    lo, hi = job
    prop, ctx, seed = _P, _CTX, _SEED
    res = {"n": 0, "discard": {}, "skip": {}, "tags": {}, "keys": [],
           "fails": [], "samples": [], "error": None}
    try:
        cases = []
        for i in range(lo, hi):
            case, why, _ = make_case(prop, seed, i)
            if case is None:
                res["discard"][why] = res["discard"].get(why, 0) + 1
            else:
                cases.append(case)
        if not cases:
            return res
        outs, whole = run_cases(prop, ctx, cases)
        for c, o in zip(cases, outs):
            if isinstance(o, Skip):
                res["skip"][str(o)] = res["skip"].get(str(o), 0) + 1
                continue
            res["n"] += 1
            for t in c.tags:
                res["tags"][t] = res["tags"].get(t, 0) + 1
            if c.nontrivial:
                res["keys"].append(
                    hashlib.sha1(str(c.key).encode()).hexdigest()[:16])
            if isinstance(o, Fail):
                res["fails"].append(([c.choices], [c.index], str(o)))
        if whole is not None and not res["fails"]:
            res["fails"].append(
                ([c.choices for c in cases], [c.index for c in cases], str(whole)))
        good = [c for c in cases if c.nontrivial]
        if good and lo % 7 == 0:
            res["samples"].append(str(good[-1].sample)[:1500])
    except Exception:
        res["error"] = traceback.format_exc()
    return res


def _try(cand):
    """Does this list of choice sequences still fail? Returns the message."""
    seqs, idx = cand
    prop, ctx = _P, _CTX
    try:
        cases = []
        for s, i in zip(seqs, idx):
            c = replay_case(prop, s, i)
            if c is None:
                return None
            cases.append(c)
        out, whole = run_cases(prop, ctx, cases)
        if whole:
            out = whole
    except Exception:
        return None
    if isinstance(out, Fail):
        return str(out), [c.choices for c in cases]
    if out is OK or isinstance(out, Skip):
        return None
    for o in out:
        if isinstance(o, Fail):
            return str(o), [c.choices for c in cases]
    return None


def _candidates(seq):
    """Simpler variants of one choice sequence, most aggressive first."""
    n = len(seq)
    size = max(n // 2, 1)
    while size >= 1:
        for i in range(0, n, size):
            yield seq[:i] + seq[i + size:]
        if size == 1:
            break
        size //= 2
    size = max(n // 4, 1)
    while size >= 1:
        for i in range(0, n, size):
            part = seq[i:i + size]
            if any(part):
                yield seq[:i] + [0] * len(part) + seq[i + size:]
        if size == 1:
            break
        size //= 2
    for i, v in enumerate(seq):
        if v > 1:
            yield seq[:i] + [v // 2] + seq[i + 1:]
            yield seq[:i] + [v - 1] + seq[i + 1:]


def _simpler(a, b):
    la, lb = sum(map(len, a)), sum(map(len, b))
    return (la, a) < (lb, b)


def shrink(pool, seqs, idx, msg, budget):
    end = time.monotonic() + budget
    # Fewer cases first.
    changed = True
    while changed and len(seqs) > 1 and time.monotonic() < end:
        changed = False
        size = max(len(seqs) // 2, 1)
        while size >= 1 and not changed:
            cands = [(seqs[:i] + seqs[i + size:], idx[:i] + idx[i + size:])
                     for i in range(0, len(seqs), size)]
            cands = [c for c in cands if c[0]]
            for c, r in zip(cands, pool.map(_try, cands, 1)):
                if r:
                    msg, seqs = r
                    idx = c[1]
                    changed = True
                    break
            if size == 1:
                break
            size //= 2
    # Then simpler cases.
    progress = True
    tried = set()
    while progress and time.monotonic() < end:
        progress = False
        for k in range(len(seqs)):
            gen = _candidates(seqs[k])
            while time.monotonic() < end:
                block = []
                for cand in gen:
                    key = (k, tuple(cand))
                    if key in tried:
                        continue
                    tried.add(key)
                    block.append(seqs[:k] + [cand] + seqs[k + 1:])
                    if len(block) == 16:
                        break
                if not block:
                    break
                hit = None
                for b, r in zip(block, pool.map(_try, [(b, idx) for b in block], 1)):
                    if r and _simpler(r[1], seqs):
                        if hit is None or _simpler(r[1], hit[1]):
                            hit = r
                if hit:
                    msg, seqs = hit
                    progress = True
                    gen = _candidates(seqs[k])
    return seqs, msg


def write_replay(prop, ctx, seqs, idx, msg, seed):
    cases = [replay_case(prop, s, i) for s, i in zip(seqs, idx)]
    digest = hashlib.sha1(json.dumps(seqs).encode()).hexdigest()[:10]
    d = os.path.join(VERIF, "replays", "%s-%s" % (prop.id, digest))
    os.makedirs(d, exist_ok=True)
    try:
        for name, text in prop.render(ctx, cases).items():
            mode = "wb" if isinstance(text, bytes) else "w"
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
            with open(os.path.join(d, name), mode) as f:
                f.write(text)
    except Exception:
        traceback.print_exc()
    path = os.path.join(d, "replay.json")
    with open(path, "w") as f:
        json.dump({"property": prop.id, "seed": seed, "choices": seqs,
                   "indexes": idx, "message": msg}, f, indent=1)
    return path


def group(msg):
    msg = re.sub(r"\(?/tmp/\S+( \d+\))?|^\[\S+\]|lacc -\S+( -\S+)* exits", "", msg)
    return re.sub(r"[0-9a-fx]*[0-9][0-9a-f]*", "N", msg)[:90]


def survey(prop, ctx, seed, n, first, budget, njobs):
    """Development aid: runs n cases, groups the failures, shrinks one each."""
    global _P, _CTX, _SEED
    _P, _CTX, _SEED = prop, ctx, seed
    prop.tier = "quick"
    prop.setup(ctx)
    groups, skips = {}, {}
    with mp.get_context("fork").Pool(njobs) as pool:
        jobs = [(i, min(i + prop.batch, first + n)) for i in range(first, first + n, prop.batch)]
        done = 0
        for r in pool.imap_unordered(_work, jobs):
            done += r["n"]
            if r["error"]:
                print(r["error"])
            for k, v in list(r["skip"].items()) + list(r["discard"].items()):
                skips[k[:70]] = skips.get(k[:70], 0) + v
            for f in r["fails"]:
                groups.setdefault(group(f[2]), []).append(f)
        print("%d cases; %d groups of failures; skips %s" % (done, len(groups), skips))
        for g, fs in sorted(groups.items(), key=lambda x: -len(x[1])):
            fs.sort(key=lambda f: (len(f[0]), sum(map(len, f[0]))))
            seqs, idx, msg = fs[0]
            seqs, msg = shrink(pool, seqs, idx, msg, budget)
            path = write_replay(prop, ctx, seqs, idx, msg, seed)
            print("== %d x %s\n   %s\n   %s" % (len(fs), fs[0][2][:200], msg[:300], path))
            sys.stdout.flush()


def main(prop, ctx, tier, seed, replay=None, scale=1.0, jobs=None):
    """Runs the property; returns the exit status."""
    global _P, _CTX, _SEED
    t0 = time.monotonic()
    _P, _CTX, _SEED = prop, ctx, seed
    prop.tier = tier
    prop.setup(ctx)
    violations = []

    if replay:
        with open(replay) as f:
            r = json.load(f)
        if "fixed" in r:
            for name, out in prop.fixed(ctx):
                if name == r["fixed"]:
                    print("%s: %s" % (name, out if out else "holds"))
                    return 1 if isinstance(out, Fail) else 0
            return 0
        res = _try((r["choices"], r["indexes"]))
        print(res[0] if res else "holds on this input")
        return 1 if res else 0

    known = load_known(prop.id)
    nknown = 0
    for k in known:
        if k.get("status") == "fixed":
            continue
        if prop.known_still_fails(ctx, k):
            nknown += 1
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))

    nfixed = 0
    for name, out in prop.fixed(ctx):
        nfixed += 1
        if isinstance(out, Fail):
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-fixed-%s.json" % (prop.id, name))
            with open(path, "w") as f:
                json.dump({"property": prop.id, "fixed": name,
                           "message": str(out)}, f, indent=1)
            violations.append((path, "%s: %s" % (name, out)))

    n = int(prop.quick_cases * scale)
    if tier == "thorough":
        n = int(n * prop.thorough_factor)
    soft = prop.soft_time if tier == "quick" else prop.soft_time * 20
    jobs_list = [(i, min(i + prop.batch, n)) for i in range(0, n, prop.batch)]
    tot = {"n": 0, "discard": {}, "skip": {}, "tags": {}, "keys": set(),
           "samples": []}
    fails, errors = [], []
    njobs = jobs or os.cpu_count() or 4
    started = 0
    with mp.get_context("fork").Pool(njobs) as pool:
        it = iter(jobs_list)
        pending = []
        stop = bool(violations)
        while True:
            while not stop and len(pending) < njobs * 2:
                j = next(it, None)
                if j is None or time.monotonic() - t0 > soft:
                    stop = True
                    break
                started += 1
                pending.append(pool.apply_async(_work, (j,)))
            if not pending:
                break
            r = pending.pop(0).get()
            tot["n"] += r["n"]
            for f in ("discard", "skip", "tags"):
                for k, v in r[f].items():
                    tot[f][k] = tot[f].get(k, 0) + v
            tot["keys"].update(r["keys"])
            if len(tot["samples"]) < 5:
                tot["samples"] += r["samples"]
            if r["error"]:
                errors.append(r["error"])
                stop = True
            if r["fails"]:
                fails += r["fails"]
                stop = True
        unconfirmed = 0
        # Confirm (3 replays), then shrink the simplest.
        fails.sort(key=lambda f: (len(f[0]), sum(map(len, f[0]))))
        for seqs, idx, msg in fails[:6]:
            reps = pool.map(_try, [(seqs, idx)] * 3, 1)
            if not all(reps):
                unconfirmed += 1
                print("unconfirmed (does not reproduce 3 times): %s" % msg[:300])
                continue
            seqs, msg = shrink(pool, reps[0][1], idx, reps[0][0],
                               120 if tier == "quick" else 600)
            path = write_replay(prop, ctx, seqs, idx, msg, seed)
            violations.append((path, msg))
            break

    wall = time.monotonic() - t0
    cov = {
        "evaluations": tot["n"] + nfixed,
        "distinct_nontrivial": len(tot["keys"]),
        "rule": prop.rule,
        "samples": tot["samples"] or ["(stopped before a sample was taken)"],
        "classes": dict(sorted(tot["tags"].items(), key=lambda x: -x[1])),
        "discarded_by_generator": tot["discard"],
        "not_decided": tot["skip"],
        "batches_started": started,
        "batches_planned": len(jobs_list),
        "fixed_checks": nfixed,
        "known_findings_reproduced": nknown,
        "unconfirmed": unconfirmed,
    }
    cov.update(prop.extra_coverage(ctx) if hasattr(prop, "extra_coverage") else {})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump({"property": prop.id, "tier": tier, "seed": seed,
                   "level": "exploration", "coverage": cov,
                   "assumptions": list(prop.assumptions),
                   "wall_s": round(wall, 2),
                   "violations": len(violations)}, f, indent=1)
    print("%s: %d cases (%d distinct non-trivial), %d fixed, %d skipped, %.1f s"
          % (prop.id, tot["n"], len(tot["keys"]), nfixed,
             sum(tot["skip"].values()), wall))
    for k, v in list(tot["skip"].items())[:4]:
        print("  not decided (%d): %s" % (v, k[:300]))
    if violations:
        for path, msg in violations:
            print(msg[:3000])
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    if errors:
        print(errors[0])
        return 2
    return 0


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]
