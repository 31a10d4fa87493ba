#!/usr/bin/env python3
"""C30 / C31: the TALP-Pages command line over generated trees of TALP files (Hypothesis), against an independent oracle.

Everything is observed from outside: the files the commands write, parsed.
"""
import argparse, builtins, contextlib, html, io, json, math, multiprocessing, os, random, re, shutil, sys, tempfile, time, traceback
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")  # hypothesis only; the tool's own packages come first
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, strategies as st
from html.parser import HTMLParser
from datetime import datetime, timedelta
import urllib.request

BADGES = []


class _Resp:
    def __init__(self, b): self.b = b
    def read(self): return self.b
    def __enter__(self): return self
    def __exit__(self, *a): pass


def fake_urlopen(req, *a, **k):
    url = req if isinstance(req, str) else req.full_url
    BADGES.append(url)
    return _Resp(("<svg>%s</svg>" % html.escape(url)).encode())


urllib.request.urlopen = fake_urlopen  # before the tool is imported: no network
REAL_WALK = os.walk
WALK_SEED = [0]


def shuffled_walk(top, *a, **k):
    """os.walk in another order: directory order is not specified."""
    r = random.Random(WALK_SEED[0])
    for root, dirs, files in REAL_WALK(top, *a, **k):
        dirs.sort(); files.sort(); r.shuffle(dirs); r.shuffle(files)
        yield root, dirs, files


os.walk = shuffled_walk


class Bad(AssertionError):
    pass


def need(c, msg, *a):
    STATS["checks"] += 1
    if not c:
        raise Bad(msg % a if a else msg)


STATS = {"checks": 0}

# ------------------------------------------------------------------ generators
FOLDERS = ["mesh_1/strong", "mesh_1/weak", "mesh_2/strong", "run", "a/b/c", "run/inner", "other"]
RES = [(1, 0), (1, 1), (2, 0), (4, 0), (2, 2), (4, 4), (4, 2), (8, 2), (8, 8), (16, 4), (112, 2), (6, 3)]
REGIONS = ["Global", "MPI Execution", "solver", "x<b>y", 'q"uote', "io & net", "année"]
EFF = ["parallelEfficiency", "mpiParallelEfficiency", "mpiCommunicationEfficiency", "mpiLoadBalance", "mpiLoadBalanceIn", "mpiLoadBalanceOut", "ompParallelEfficiency", "ompLoadBalance", "ompSchedulingEfficiency", "ompSerializationEfficiency"]
eff = st.integers(0, 100).map(lambda x: x / 100)
eff3 = st.one_of(eff, st.sampled_from([0.59, 0.595, 0.599, 0.6, 0.601, 0.79, 0.795, 0.7999, 0.8, 0.0, 1.0]))
word = st.text("abcdefghijklmnopqrstuvwxyzABCDEF0123456789-/_.", min_size=1, max_size=12)
T0 = datetime(2024, 1, 1)
stamp = st.one_of(st.integers(0, 40).map(lambda d: (T0 + timedelta(days=d)).isoformat()), st.integers(0, 10**8).map(lambda s: (T0 + timedelta(seconds=s)).isoformat()))


@st.composite
def region(draw, counters):
    r = {"numCpus": 1, "numMpiRanks": 0, "numNodes": 1, "avgCpus": 1.0,
         "cycles": float(draw(st.integers(10**6, 10**10))) if counters else draw(st.sampled_from([0.0, 0.0, -1.0])),
         "instructions": float(draw(st.integers(10**6, 10**10))) if counters else draw(st.sampled_from([0.0, 0.0, -1.0])),
         "numMeasurements": draw(st.integers(0, 9)), "numMpiCalls": draw(st.integers(0, 99)),
         "elapsedTime": draw(st.integers(10**6, 10**12)), "usefulTime": draw(st.integers(10**6, 10**12)), "mpiTime": draw(st.integers(0, 10**9))}
    for e in EFF:
        r[e] = draw(eff3)
    return r


@st.composite
def run(draw, regions, few_res):
    res = draw(st.sampled_from(few_res))
    counters = draw(st.booleans()) if draw(st.integers(0, 5)) == 0 else True
    rr = {}
    for n in regions:
        if n == "Global" or draw(st.integers(0, 3)):
            rr[n] = draw(region(counters))
            rr[n]["numCpus"], rr[n]["numMpiRanks"] = res
    order = draw(st.permutations(list(rr)))
    meta = None
    k = draw(st.integers(0, 3))
    if k:
        meta = {"gitCommit": draw(st.text("0123456789abcdef", min_size=7, max_size=40)), "gitBranch": draw(word), "defaultGitBranch": "main", "isMergeRequest": draw(st.booleans())}
        if k > 1: meta["gitTimestamp"] = draw(stamp)
        if draw(st.integers(0, 4)) == 0: meta["note"] = draw(st.sampled_from(["<i>", "a&b", "\u00e9"]))
        if draw(st.integers(0, 9)) == 0: del meta["gitCommit"]
    return {"version": draw(st.sampled_from(["3.5", "3.5.0", "3.5.1", "3.5.0+UNKNOWN"])), "timestamp": draw(stamp), "res": list(res), "metadata": meta, "regions": {n: rr[n] for n in order}}


@st.composite
def tree(draw, max_runs=5):
    folders = draw(st.lists(st.sampled_from(FOLDERS), min_size=1, max_size=3, unique=True))
    regions = ["Global"] + draw(st.lists(st.sampled_from(REGIONS[1:]), max_size=3, unique=True))
    few = draw(st.lists(st.sampled_from(RES), min_size=1, max_size=3, unique=True))
    out = {}
    for f in folders:
        runs = draw(st.lists(run(regions, few), min_size=1, max_size=max_runs))
        out[f] = {"talp_%d.json" % i: r for i, r in enumerate(runs)}
    return out


@st.composite
def case30(draw):
    t = draw(tree())
    names = sorted(set.intersection(*[{n for f in t.values() for r in f.values() for n in r["regions"]}]))
    # a region can be selected if every folder has it
    ok = [n for n in names if n != "Global" and all(any(n in r["regions"] for r in f.values()) for f in t.values())]
    sel = draw(st.lists(st.sampled_from(ok), unique=True)) if ok else []
    return {"tree": t, "regions": sel, "walk": draw(st.integers(0, 1000)), "root_json": draw(st.integers(0, 5)) == 0, "bad": draw(st.sampled_from([None] * 9 + ["syntax", "version", "noversion", "list"])), "badge": draw(st.booleans())}


@st.composite
def case31(draw):
    what = draw(st.sampled_from(["metadata", "metadata", "metadata", "badge", "badge", "cli"]))
    t = draw(tree(3))
    c = {"what": what, "tree": t, "walk": draw(st.integers(0, 1000))}
    if what == "metadata":
        for f in t.values():
            for r in f.values():
                k = draw(st.integers(0, 9))
                if k > 3: r["metadata"] = None
                elif k > 0: r["metadata"] = {"note": draw(word), "n": draw(st.integers(0, 5))}
        tok = st.text("0123456789abcdefXYZ ü\"'{}", min_size=1, max_size=12).map(lambda s: "g_" + s)
        ts = st.one_of(stamp, stamp.map(lambda s: s + "Z"), st.sampled_from(["2024-03-01T10:00:00+02:00", "2023-12-31T23:59:59-05:00"]))
        mode = draw(st.sampled_from(["cli", "cli", "mr", "gitlab", "ghpr", "gh", "none"]))
        env, args = {}, []
        if mode in ("mr", "gitlab"):
            env = {"CI_COMMIT_SHA": draw(tok), "CI_COMMIT_TIMESTAMP": draw(ts), "CI_DEFAULT_BRANCH": draw(tok)}
            if mode == "mr": env.update({"CI_MERGE_REQUEST_ID": "7", "CI_MERGE_REQUEST_SOURCE_BRANCH_NAME": draw(tok)})
            else: env["CI_COMMIT_BRANCH"] = draw(tok)
        elif mode in ("ghpr", "gh"):
            env = {"GITHUB_SHA": draw(tok), "GITHUB_REF_NAME": draw(tok)}
            if mode == "ghpr": env["GITHUB_HEAD_REF"] = draw(tok)
        elif mode == "cli":
            env = draw(st.sampled_from([{}, {}, {"CI_COMMIT_SHA": "g_env", "CI_COMMIT_TIMESTAMP": "2020-01-01T00:00:00Z"}]))
            f = draw(st.sets(st.sampled_from(["commit", "branch", "timestamp", "mr"]), min_size=1))
            if "commit" in f: args += ["--git-commit=" + draw(tok)]
            if "branch" in f: args += ["--git-branch=" + draw(tok)]
            if "timestamp" in f: args += ["--git-timestamp=" + draw(ts)]
            if "mr" in f: args += ["--is-merge-request"]
        c.update(mode=mode, env=env, args=args, other=draw(st.sampled_from(["{}", "[1]", "x"])))
    elif what == "badge":
        c["region"] = draw(st.sampled_from([None, "Global"] + REGIONS)); c["on"] = draw(st.integers(0, 4)) > 0
    else:
        c["bad"] = draw(st.sampled_from(["noinput", "nojson", "nonempty", "force", "region", "rootonly", "args", "ok"]))
    return c


# ------------------------------------------------------------------ running the tool
def write_tree(base, t):
    for f, runs in t.items():
        os.makedirs(os.path.join(base, f), exist_ok=True)
        for n, r in runs.items():
            d = {"dlbVersion": r["version"], "dlbGitVersion": "x", "timestamp": r["timestamp"], "resources": {"numCpus": r["res"][0], "numNodes": 1, "numMpiRanks": r["res"][1]}}
            if r["metadata"] is not None: d["metadata"] = r["metadata"]
            d["Application"] = r["regions"]
            with open(os.path.join(base, f, n), "w", encoding="utf-8") as fp: json.dump(d, fp, indent=2)
        with open(os.path.join(base, f, "notes.txt"), "w") as fp: fp.write("not json")


def talp(argv, walk=0):
    """Run the command line; returns None or the exception."""
    import talp_pages.talp as T
    WALK_SEED[0] = walk
    old = sys.argv; sys.argv = ["talp"] + argv
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            T.main()
        return None
    except SystemExit as e:
        return e if e.code else None
    except Exception as e:
        e.tb = traceback.format_exc(limit=-4)
        return e
    finally:
        sys.argv = old


def snapshot(d):
    s = {}
    for root, _, files in REAL_WALK(d):
        for f in files:
            p = os.path.join(root, f)
            s[os.path.relpath(p, d)] = open(p, "rb").read()
    return s


# ------------------------------------------------------------------ oracle
def label(r):
    c, k = r["res"]
    if c == 1: return "Serial"
    if k == 0: return "%dxOpenMP" % c
    if c == k: return "%dxMPI" % c
    return "%dxMPI %dxOpenMP" % (k, c // k)


def mode(r):
    c, k = r["res"]
    return "Serial" if c == 1 else "OpenMP" if k == 0 else "MPI" if c == k else "Hybrid MPI+OpenMP"


def when(r):
    m = r["metadata"]
    return m["gitTimestamp"] if m and "gitTimestamp" in m else r["timestamp"]


def commit(r):
    m = r["metadata"]
    return m.get("gitCommit", "")[:7] if m else ""


def derived(x):
    cyc, ins = max(0.0, x["cycles"]), max(0.0, x["instructions"])
    return {"elapsedTime": x["elapsedTime"] * 1e-9, "IPC": ins / cyc if cyc else math.inf, "instructions": ins, "cycles": cyc, "frequency": cyc / x["usefulTime"], **{e: x[e] for e in EFF}}


NAMES = {"globalEfficiency": "Global Effiency", "parallelEfficiency": "Parallel efficiency", "computationScalability": "Computation Scalability", "instructions": "Useful Instructions", "IPC": "Useful IPC", "frequency": "Frequency [GHz]", "mpiParallelEfficiency": "MPI Parallel efficiency", "mpiCommunicationEfficiency": "MPI Communication efficiency", "mpiLoadBalance": "MPI Load balance", "mpiLoadBalanceIn": "MPI In-node load balance", "mpiLoadBalanceOut": "MPI Inter-node load balance", "ompParallelEfficiency": "OpenMP Parallel efficiency", "ompLoadBalance": "OpenMP Load balance", "ompSchedulingEfficiency": "OpenMP Scheduling efficiency", "ompSerializationEfficiency": "OpenMP Serialization efficiency", "instructionScaling": "Instructions scaling", "ipcScaling": "IPC scaling", "frequencyScaling": "Frequency scaling", "elapsedTime": "Elapsed time [s]"}
MPI_EFF, OMP_EFF = ["mpiParallelEfficiency", "mpiCommunicationEfficiency", "mpiLoadBalance", "mpiLoadBalanceIn", "mpiLoadBalanceOut"], ["ompParallelEfficiency", "ompLoadBalance", "ompSchedulingEfficiency", "ompSerializationEfficiency"]


def figures(text):
    out = []
    for m in re.finditer(r"Plotly\.newPlot\(\s*\"[^\"]*\",\s*", text):
        data, end = json.JSONDecoder().raw_decode(text, m.end())
        m2 = re.compile(r"\s*,\s*").match(text, end)
        layout, _ = json.JSONDecoder().raw_decode(text, m2.end())
        out.append((data, layout))
    return out


class Page(HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.hrefs, self.rows, self.cur, self.cell, self.text, self.skip, self.h, self.heads = [], [], None, None, [], 0, None, []
        self.feed(text)
    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag in ("script", "style"): self.skip += 1
        if tag == "a" and a.get("href"): self.hrefs.append(a["href"])
        if tag == "tr": self.cur = []
        if tag in ("td", "th"): self.cell = []
        if tag in ("h3", "h5", "h6"): self.h = []
    def handle_endtag(self, tag):
        if tag in ("script", "style"): self.skip -= 1
        if tag in ("td", "th") and self.cell is not None: self.cur.append("".join(self.cell)); self.cell = None
        if tag == "tr" and self.cur is not None: self.rows.append(self.cur); self.cur = None
        if tag in ("h3", "h5", "h6") and self.h is not None: self.heads.append(" ".join("".join(self.h).split())); self.h = None
    def handle_data(self, d):
        if self.skip: return
        if self.cell is not None: self.cell.append(d)
        if self.h is not None: self.h.append(d)
        self.text.append(d)


def close(a, b, tol=1e-6):
    if a is None: return b is None or math.isinf(b) or math.isnan(b)
    if b is None: return False
    return a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))


def check_links(out, page, text):
    for h in Page(text).hrefs:
        if h.startswith(("http:", "https:", "#")): continue
        p = os.path.normpath(os.path.join(out, os.path.dirname(page), urllib.request.unquote(h)))
        need(os.path.isfile(p), "page %s links to %s, which does not exist", page, h)


def latest(rows):
    m = max(when(r) for _, r in rows)
    return m, [(n, r) for n, r in rows if when(r) == m]


def check_report(out, base, c):
    t = c["tree"]; sel = ["Global"] + c["regions"]; tables = 0
    need(os.path.isfile(os.path.join(out, "index.html")), "no index.html")
    idx = open(os.path.join(out, "index.html"), encoding="utf-8").read(); ip = Page(idx); check_links(out, "index.html", idx)
    seen = [h for h in ip.heads if h.startswith("Available reports for folder:")]
    need(sorted(seen) == sorted("Available reports for folder: " + f for f in t), "the index lists %s, the folders are %s", seen, sorted(t))
    for f, runs in t.items():
        rows = list(runs.items()); labels = sorted({label(r) for r in runs.values()})
        # last change shown in the index
        i = ip.heads.index("Available reports for folder: " + f); m, cand = latest(rows); shown = ip.heads[i + 1]
        need(any(shown == " ".join(("Last updated at: %s @%s" % (m.replace("T", " "), commit(r))).split()) for _, r in cand), "index: folder %s shows %r; its latest change is %s of %s", f, shown, m, sorted({commit(r) for _, r in cand}))
        # evolution pages
        pages = {"evolution_%s.html" % l.replace(" ", "_"): l for l in labels}
        got = {n for n in os.listdir(os.path.join(out, f)) if n.startswith("evolution_")}
        need(got == set(pages), "folder %s: evolution pages %s, resource configurations %s", f, sorted(got), labels)
        for pg, l in pages.items():
            need(f + "/" + pg in ip.hrefs, "the index has no link to %s/%s", f, pg)
            text = open(os.path.join(out, f, pg), encoding="utf-8").read(); check_links(out, f + "/" + pg, text)
            figs = figures(text); need(len(figs) == 1, "%s/%s has %d figures", f, pg, len(figs)); data, layout = figs[0]
            mine = [r for r in runs.values() if label(r) == l]; md = mode(mine[0]); names = [a["text"] for a in layout["annotations"]]
            want = ["elapsedTime", "IPC", "instructions", "frequency"] + (["parallelEfficiency"] if md != "Serial" else []) + (["mpiParallelEfficiency", "mpiCommunicationEfficiency", "mpiLoadBalance"] if "MPI" in md else []) + (OMP_EFF if "OpenMP" in md else [])
            have = {}
            for tr in data:
                k = int((tr.get("yaxis") or "y")[1:] or 1) - 1
                need(k < len(names), "%s/%s: a trace in plot %d of %d", f, pg, k + 1, len(names)); have.setdefault((names[k], tr["name"]), []).append(tr)
            regs = sorted({n for r in mine for n in r["regions"]})
            for w in want:
                for reg in regs:
                    trs = have.pop((NAMES[w], reg), [])
                    need(len(trs) == 1, "%s/%s: %d lines for region %r in plot %r", f, pg, len(trs), reg, NAMES[w])
                    pts = sorted(((x[:19], y) for x, y in zip(trs[0]["x"], trs[0]["y"])), key=lambda p: (p[0], p[1] is None, p[1] or 0)); exp = sorted(((when(r), derived(r["regions"][reg])[w]) for r in mine if reg in r["regions"]), key=lambda p: (p[0], math.isinf(p[1]), p[1]))
                    need(len(pts) == len(exp) and all(a[0] == b[0] and close(a[1], b[1]) for a, b in zip(pts, exp)), "%s/%s: region %r, plot %r shows %s, the files say %s", f, pg, reg, NAMES[w], pts, exp)
            need(not have, "%s/%s: unexpected lines %s", f, pg, sorted(have)[:3])
        # scaling page
        text = open(os.path.join(out, f, "scaling.html"), encoding="utf-8").read(); check_links(out, f + "/scaling.html", text); figs = figures(text); pg = Page(text)
        need(len(figs) == len(sel), "%s/scaling.html has %d tables for regions %s", f, len(figs), sel)
        need([h for h in pg.heads if h.startswith("Region:")] == ["Region: " + s for s in sel], "%s/scaling.html shows %s for regions %s", f, [h for h in pg.heads if h.startswith("Region:")], sel)
        raw = [r for r in pg.rows if len(r) == 4 and r[0] != "Ressource Configuration"]; pos = 0
        for reg, (data, layout) in zip(sel, figs):
            tables += 1
            have = [(n, r) for n, r in rows if reg in r["regions"]]; labs = sorted({label(r) for _, r in have}); heads = [re.sub("</?b>", "", h) for h in data[0]["header"]["values"]]
            need(sorted(heads[1:]) == labs, "%s/scaling.html: region %r has columns %s, configurations %s", f, reg, heads[1:], labs)
            cpus = {label(r): r["res"][0] for _, r in have}; order = [cpus[l] for l in heads[1:]]
            need(order == sorted(order), "%s/scaling.html: columns %s are not in order of CPUs", f, heads[1:])
            chosen = []
            for l in heads[1:]:
                m, cand = latest([(n, r) for n, r in have if label(r) == l]); row = raw[pos]; pos += 1
                need(row[0] == l, "%s/scaling.html: raw data row %s, expected configuration %s", f, row, l)
                pick = [(n, r) for n, r in cand if row[1] == os.path.join(base, f, n)]
                need(pick, "%s/scaling.html: region %r, %s uses %s; the latest run (%s) is %s", f, reg, l, row[1], m, [n for n, _ in cand])
                need(row[2][:19] == m, "%s/scaling.html: timestamp %s of %s is %s", f, row[2], l, m)
                need(json.loads(row[3]) == (pick[0][1]["metadata"] or {}), "%s/scaling.html: metadata %s of %s", f, row[3], pick[0][0])
                chosen.append(pick[0][1])
            cells = data[0]["cells"]["values"]; metrics = [x.lstrip("- ") for x in cells[0]]; ds = [derived(r["regions"][reg]) for r in chosen]; ref = ds[0]; rc = chosen[0]["res"][0]
            md = {mode(r) for r in chosen}; top = next(x for x in ["Hybrid MPI+OpenMP", "MPI", "OpenMP", "Serial"] if x in md)
            for w in ["globalEfficiency", "computationScalability", "instructionScaling", "ipcScaling", "frequencyScaling", "IPC", "frequency", "elapsedTime"] + (["parallelEfficiency"] if top != "Serial" else []) + (MPI_EFF if "MPI" in top else []) + (OMP_EFF if "OpenMP" in top else []):
                need(metrics.count(NAMES[w]) == 1, "%s/scaling.html: metric %r appears %d times in the table of %r", f, NAMES[w], metrics.count(NAMES[w]), reg)
            good = all(d["cycles"] > 0 and d["instructions"] > 0 for d in ds)
            ratios = [(d["instructions"] / ref["instructions"]) / (r["res"][0] / rc) for d, r in zip(ds, chosen)] if good else []
            strong = any(x < 0.75 for x in ratios); edge = any(abs(x - 0.75) < 1e-9 for x in ratios)
            for k, (d, r) in enumerate(zip(ds, chosen)):
                exp = {w: d[w] for w in EFF + ["IPC", "frequency", "elapsedTime"]}
                if good and not edge:
                    exp["instructionScaling"] = ref["instructions"] / d["instructions"] * (1 if strong else r["res"][0] / rc)
                    exp["ipcScaling"] = d["IPC"] / ref["IPC"]; exp["frequencyScaling"] = d["frequency"] / ref["frequency"]
                    exp["computationScalability"] = exp["instructionScaling"] * exp["ipcScaling"] * exp["frequencyScaling"]; exp["globalEfficiency"] = d["parallelEfficiency"] * exp["computationScalability"]
                col = cells[k + 1]
                for w, v in exp.items():
                    if NAMES[w] not in metrics: continue
                    g = col[metrics.index(NAMES[w])]
                    need((g is None and math.isinf(v)) or (g is not None and abs(float(g) - v) <= 0.00501 + 1e-9 * abs(v)), "%s/scaling.html: region %r, %s of %s is %s, it should be %.6g (reference %s, %s scaling)", f, reg, NAMES[w], heads[k + 1], g, v, heads[1], "strong" if strong else "weak")
            if good and not edge and len(sel) == 1: need(("Strong Scaling" if strong else "Weak Scaling") in text, "%s/scaling.html does not say %s", f, "Strong Scaling" if strong else "Weak Scaling")
        need(pos == len(raw), "%s/scaling.html: %d raw data rows, expected %d", f, len(raw), pos)
    return tables


def check_badges(out, c, reg):
    n = 0
    for f, runs in c["tree"].items():
        labs = sorted({label(r) for r in runs.values()})
        got = {x for x in os.listdir(os.path.join(out, f)) if x.endswith(".svg")}
        want = {"badge_%s.svg" % l.replace(" ", "_"): l for l in labs}
        need(got == set(want), "folder %s: badges %s, configurations %s", f, sorted(got), labs)
        for fn, l in want.items():
            body = html.unescape(open(os.path.join(out, f, fn)).read()); rows = [(k, r) for k, r in runs.items() if label(r) == l and reg in r["regions"]]
            if not rows: continue  # the tool warns and writes an "erroneous badge"
            _, cand = latest(rows); es = [r["regions"][reg]["parallelEfficiency"] for _, r in cand]
            m = re.search(r"-([0-9.]+)-(red|orange|green)<", body)
            need(m and any(abs(float(m[1]) - e) <= 0.0051 and m[2] == ("red" if e < 0.6 else "orange" if e < 0.8 else "green") for e in es), "folder %s, %s: badge %s, the latest run of region %r has efficiency %s", f, l, body, reg, es); n += 1
    return n


def one30(c, tmp):
    base, out = os.path.join(tmp, "in"), os.path.join(tmp, "out"); t = c["tree"]; write_tree(base, t)
    if c["root_json"]: open(os.path.join(base, "root.json"), "w").write("{}")
    if c["bad"]:
        f = sorted(t)[0]; body = {"syntax": '{"dlbVersion": "3.5",', "version": '{"dlbVersion": "3.4", "Application": {}}', "noversion": '{"Application": {}}', "list": "[]"}[c["bad"]]
        open(os.path.join(base, f, "zz.json"), "w").write(body)
    argv = ["ci-report", "-i", base, "-o", out] + ([] if c["badge"] else ["--no-badge"]) + (["--regions"] + c["regions"] if c["regions"] else [])
    before = snapshot(base); e = talp(argv, c["walk"])
    need(snapshot(base) == before, "ci-report changed its input")
    if c["bad"]:
        need(e is not None, "ci-report succeeds although %s/zz.json is not a TALP file it can read (%s)", sorted(t)[0], c["bad"]); return 0, False
    need(e is None, "ci-report failed: %r\n%s", e, getattr(e, "tb", ""))
    n = check_report(out, base, c); runs = [r for f in t.values() for r in f.values()]
    return n, len(runs) >= 3 and len({label(r) for r in runs}) >= 2


def one31(c, tmp):
    base, out = os.path.join(tmp, "in"), os.path.join(tmp, "out"); t = c["tree"]; write_tree(base, t)
    if c["what"] == "metadata":
        saved = dict(os.environ)
        for k in list(os.environ):
            if k.startswith(("CI_", "GITHUB_")): del os.environ[k]
        try:
            os.environ.update(c["env"]); before = snapshot(base); e = talp(["metadata", "-i", base] + c["args"], c["walk"]); after = snapshot(base); e2 = talp(["metadata", "-i", base] + c["args"], c["walk"]); after2 = snapshot(base)
        finally:
            os.environ.clear(); os.environ.update(saved)
        clash = any(k in (r["metadata"] or {}) for f in t.values() for r in f.values() for k in ("gitCommit", "gitBranch", "gitTimestamp", "defaultGitBranch", "isMergeRequest"))
        if clash:
            need(e is not None, "metadata already present was not refused")
        else:
            need(e is None, "metadata failed: %r\n%s", e, getattr(e, "tb", "")); need(e2 is not None and after2 == after, "adding metadata twice is not refused, or changes a file")
        env, want = c["env"], {}
        opt = dict(a[2:].split("=", 1) if "=" in a else (a[2:], True) for a in c["args"])
        if c["mode"] == "cli": want = {"gitCommit": opt.get("git-commit"), "gitBranch": opt.get("git-branch"), "gitTimestamp": opt.get("git-timestamp"), "isMergeRequest": bool(opt.get("is-merge-request"))}
        elif c["mode"] == "mr": want = {"gitCommit": env["CI_COMMIT_SHA"], "gitBranch": env["CI_MERGE_REQUEST_SOURCE_BRANCH_NAME"], "gitTimestamp": env["CI_COMMIT_TIMESTAMP"], "defaultGitBranch": env["CI_DEFAULT_BRANCH"], "isMergeRequest": True}
        elif c["mode"] == "gitlab": want = {"gitCommit": env["CI_COMMIT_SHA"], "gitBranch": env["CI_COMMIT_BRANCH"], "gitTimestamp": env["CI_COMMIT_TIMESTAMP"], "isMergeRequest": False}
        elif c["mode"] == "ghpr": want = {"gitCommit": env["GITHUB_SHA"], "gitBranch": env["GITHUB_HEAD_REF"], "isMergeRequest": True, "gitTimestamp": None}
        elif c["mode"] == "gh": want = {"gitCommit": env["GITHUB_SHA"], "gitBranch": env["GITHUB_REF_NAME"], "isMergeRequest": False, "gitTimestamp": None}
        else: want = {"gitCommit": None, "gitBranch": None, "gitTimestamp": None, "isMergeRequest": False}
        for p in before:
            if not p.endswith(".json"): need(after[p] == before[p], "metadata changed %s", p); continue
            b, a = json.loads(before[p]), json.loads(after[p]); bm, am = b.pop("metadata", None) or {}, a.pop("metadata", None) or {}
            need(a == b, "metadata changed other values of %s", p)
            if clash and after[p] == before[p]: continue
            for k, v in bm.items(): need(am.get(k) == v, "metadata %s of %s was %r, now %r", k, p, v, am.get(k))
            for k, v in want.items():
                g = am.get(k)
                if v is None: need(g is None or not str(g).startswith("g_"), "metadata %s of %s is %r, nothing was given", k, p, g); need(k != "gitTimestamp" or k not in am or bool(g), "no timestamp was given, it is %r", g)
                elif k == "gitTimestamp": need(g and datetime.fromisoformat(g) == datetime.fromisoformat(v.rstrip("Z")).replace(tzinfo=None), "metadata gitTimestamp of %s is %r, %r was given", p, g, v)
                else: need(g == v, "metadata %s of %s is %r, %r was given", k, p, g, v)
            if "defaultGitBranch" not in want: need(not str(am.get("defaultGitBranch")).startswith("g_") or c["mode"] == "gitlab", "metadata defaultGitBranch of %s is %r, nothing was given", p, am.get("defaultGitBranch"))
        if not clash:  # the result can be reported
            e = talp(["ci-report", "-i", base, "-o", out, "--no-badge"], c["walk"]); need(e is None, "ci-report after metadata failed: %r\n%s", e, getattr(e, "tb", ""))
        return len(before), not clash and c["mode"] != "none"
    if c["what"] == "badge":
        BADGES.clear(); e = talp(["ci-report", "-i", base, "-o", out] + ([] if c["on"] else ["--no-badge"]) + (["--region-for-badge", c["region"]] if c["region"] else []), c["walk"])
        need(e is None, "ci-report failed: %r\n%s", e, getattr(e, "tb", ""))
        if not c["on"]:
            need(not BADGES and not [p for p in snapshot(out) if p.endswith(".svg")], "badges although --no-badge was given"); return 1, False
        n = check_badges(out, c, c["region"] or "Global"); return n, n >= 2
    b = c["bad"]; os.makedirs(out); open(os.path.join(out, "old.txt"), "w").write("keep")
    if b == "noinput": argv = ["-i", os.path.join(tmp, "missing"), "-o", out]
    elif b == "nojson": os.makedirs(os.path.join(tmp, "empty")); argv = ["-i", os.path.join(tmp, "empty"), "-o", out]
    elif b == "rootonly": os.makedirs(os.path.join(tmp, "empty")); open(os.path.join(tmp, "empty", "a.json"), "w").write("{}"); argv = ["-i", os.path.join(tmp, "empty"), "-o", os.path.join(tmp, "out2")]
    elif b == "region": argv = ["-i", base, "-o", os.path.join(tmp, "out2"), "--regions", "no such region"]
    elif b == "args": argv = ["-i", base, "-o", out, "--log-level", "nonsense"]
    elif b == "force": argv = ["-i", base, "-o", out, "-f"]
    elif b == "nonempty": argv = ["-i", base, "-o", out]
    else: argv = ["-i", base, "-o", os.path.join(tmp, "out2")]
    ib = snapshot(base); e = talp(["ci-report", "--no-badge"] + argv, c["walk"]); need(snapshot(base) == ib, "ci-report changed its input")
    if b in ("force", "ok"):
        need(e is None, "ci-report failed: %r\n%s", e, getattr(e, "tb", "")); o = out if b == "force" else os.path.join(tmp, "out2")
        need(os.path.isfile(os.path.join(o, "index.html")) and not os.path.exists(os.path.join(o, "old.txt")), "no report, or old files are left, in the forced output folder"); return 1, True
    need(e is not None, "ci-report succeeded with %s", b); need(snapshot(out) == {"old.txt": b"keep"}, "ci-report with %s changed the output folder", b)
    return 1, False


def run_one(prop, spec):
    tmp = tempfile.mkdtemp(prefix="talp-pages-")
    try:
        return (one30 if prop == "C30" else one31)(spec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ driver
def silence():
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    try:
        import plotly.io._html as ph
        ph.get_plotlyjs = lambda: ""
    except Exception:
        pass
    os.environ["TQDM_DISABLE"] = "1"


def worker(prop, seed, cases, cap, q):
    silence(); t0 = time.time(); st_ = {"n": 0, "checks": 0, "nontrivial": set(), "samples": [], "failure": None, "spec": None, "labels": {}}
    state = {"fail": None}
    strat = case30() if prop == "C30" else case31()

    @hseed(seed)
    @settings(max_examples=max(1, cases), database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
    @given(strat)
    def prop_fn(spec):
        if time.time() - t0 > cap and state["fail"] is None: return
        if state["fail"] is not None and time.time() - state["t"] > 60 and json.dumps(spec, sort_keys=True) != state["fail"][0]: return  # enough shrinking
        s = json.dumps(spec, sort_keys=True)
        try:
            k, nt = run_one(prop, spec)
        except Bad as e:
            state["fail"] = (s, str(e)); state.setdefault("t", time.time()); raise
        except Exception as e:  # an output the harness cannot even parse
            state["fail"] = (s, "the output cannot be checked: " + traceback.format_exc(limit=-3)); state.setdefault("t", time.time()); raise Bad("unreadable output")
        st_["n"] += 1; l = spec.get("what") or ("malformed file" if spec.get("bad") else "report"); st_["labels"][l] = st_["labels"].get(l, 0) + 1
        if nt:
            st_["nontrivial"].add(hash(s))
            if len(st_["samples"]) < 1: st_["samples"].append(s[:1500])
    try:
        prop_fn()
    except BaseException as e:
        if state["fail"] is None:
            state["fail"] = None; st_["error"] = traceback.format_exc()
    if state["fail"]: st_["spec"], st_["failure"] = state["fail"]
    st_["checks"] = STATS["checks"]; q.put(st_)


def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--prop", default="C30"); ap.add_argument("--repo", required=True); ap.add_argument("--out"); ap.add_argument("--replay"); ap.add_argument("--replay-dir", default="replays"); ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--cases", type=int, default=0); ap.add_argument("--cap", type=int, default=0); ap.add_argument("--workers", type=int, default=8); ap.add_argument("--variant", default="")
    a = ap.parse_args(); sys.path.insert(0, os.path.join(a.repo, "talp-pages")); sys.dont_write_bytecode = True
    if a.replay:
        silence(); d = json.load(open(a.replay))
        try:
            run_one(a.prop, d["spec"]); print("replay: held"); return 0
        except Exception as e:
            print("replay: %s" % e); return 1
    silence(); import talp_pages.talp  # import once, then fork
    cases = a.cases or (640 if a.tier == "quick" else 20000); cap = a.cap or (150 if a.tier == "quick" else 3000); t0 = time.time(); q = multiprocessing.get_context("fork").Queue(); ps = []
    for i in range(a.workers):
        p = multiprocessing.get_context("fork").Process(target=worker, args=(a.prop, a.seed * 1000 + i, (cases + a.workers - 1) // a.workers, cap, q)); p.start(); ps.append(p)
    rs = [q.get(timeout=cap + 600) for _ in ps]
    for p in ps: p.join()
    err = [r["error"] for r in rs if r.get("error")]
    if err: print("harness error:\n" + err[0]); return 2
    fails = [r for r in rs if r["failure"]]; labels = {}; nt = set()
    for r in rs:
        nt |= r["nontrivial"]
        for k, v in r["labels"].items(): labels[k] = labels.get(k, 0) + v
    st_ = {"variant": a.variant, "evaluations": sum(r["n"] for r in rs), "planned": cases, "discarded": 0, "inconclusive": 0, "nontrivial": len(nt), "distinct": len(nt), "elementary_checks": sum(r["checks"] for r in rs), "max_choices": 0, "wall_s": round(time.time() - t0, 2), "labels": labels, "samples": [s for r in rs for s in r["samples"]][:3], "assumptions": ["timestamps as written by TALP and by talp metadata: ISO 8601 without time zone", "every run has the Global region", "network access replaced by a recorder"], "failed": bool(fails), "failure": "", "replay": "", "flaky": ""}
    if fails:
        f = min(fails, key=lambda r: len(r["spec"])); os.makedirs(a.replay_dir, exist_ok=True); rp = os.path.abspath(os.path.join(a.replay_dir, "%s-%d-%s.json" % (a.prop, a.seed, a.variant or "talp"))); json.dump({"property": a.prop, "spec": json.loads(f["spec"]), "failure": f["failure"]}, open(rp, "w"), indent=1, ensure_ascii=False)
        st_["failure"], st_["replay"] = f["failure"], rp; print("failure: %s\ninput: %s" % (f["failure"], f["spec"][:3000]))
    print("%s[%s]: %d/%d cases, %d nontrivial (%d distinct), %d checks, %.1f s" % (a.prop, a.variant, st_["evaluations"], cases, len(nt), len(nt), st_["elementary_checks"], st_["wall_s"]))
    if a.out: json.dump(st_, open(a.out, "w"))
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
