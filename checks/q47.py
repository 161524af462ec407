"""Q47: text reports, comparison tables and network graphs show the numbers they are about."""
import io
import math
import os
import re
import sys
import tempfile
import numpy as np
from mq.core import sut
from mq.tape import Tapes
from mq.fam import logu
from mq.api import headless
from checks import q06

PROPERTY = "Q47"
RULE = "distinct (kind of report, simulator configuration or shape of the table, state) shown and read back"
NEED = {"reports": 400, "values_read": 8000, "busy_servers": 200, "tables": 200, "complex_moments": 30, "graphs": 60, "paper": 30, "short": 100, "plots": 40, "scripts": 1}
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def near(t, key, token, want, msg, g=None):
    """A printed token shows a number: as many decimals as printed (fixed format), or g significant digits."""
    x = float(token)
    t.count("values_read")
    t.ev()
    want = float(want)
    if math.isinf(want) or math.isnan(want):
        ok = x == want
    elif g is None:
        d = len(token.split(".")[1]) if "." in token else 0
        ok = abs(x - want) <= .51 * 10 ** -d + 1e-9 * abs(want)
    else:
        ok = abs(x - want) <= .51 * 10 ** (1 - g) * abs(want) + 1e-300
    if not ok:
        t.fail(key, f"{msg}: shown {token}, the value is {want!r}")
    return ok


def after(t, key, text, heading, k=1, lines=3):
    """The k numbers that follow a heading."""
    m = re.search(heading + r"\s*:?", text)
    if not m:
        t.fail(key, f"no heading {heading!r} in the report", text=text[:600])
        return None
    rest = text[m.end():]
    got = re.findall(NUM, "\n".join(rest.split("\n")[:lines]))[:k]
    if len(got) < k:
        t.fail(key, f"{len(got)} numbers under {heading!r}, expected {k}", text=rest[:300])
        return None
    return got


def shown(t, key, text, heading, values, what, g=None, lines=3):
    got = after(t, key, text, heading, len(values), lines)
    if got:
        for i, (x, v) in enumerate(zip(got, values)):
            if not near(t, key, x, v, f"{what}[{i}]", g):
                return


def one_queue(t, kind, s, text, short):
    P = [x / s.ttek for x in s.p[:10]]
    shown(t, "time", text, "Current Time", [s.ttek], "clock", lines=1)
    shown(t, "sojourn", text, "Sojourn moments", s.v[:3], "sojourn moments")
    if kind in ("base", "batch", "impatient", "finite"):
        shown(t, "load", text, "Load", [s.calc_load()], "load", lines=1)
        shown(t, "wait", text, "Wait moments", s.w[:3], "wait moments")
    if kind == "finite":
        for i, a in enumerate(s.arrival_times):
            shown(t, "arrival-time", text, rf"Arrival Time of Source {i + 1}", [a], f"arrival time of source {i + 1}", lines=1)
    else:
        shown(t, "arrival-time", text, "Arrival Time", [s.arrival_time], "arrival time", lines=1)
    head = text.split("\n")[0]
    t.require("name", f"/{s.n}" in head and (s.buffer is None or f"/{s.n}/{s.buffer}" in head), f"kind of system shown as {head!r}")
    if short:
        return
    shown(t, "probabilities", text, "Stationary prob", P, "state probabilities")
    counts = [("Arrived", s.arrived), ("Served", s.served), ("In System", s.in_sys), ("Queue Count", s.queue.size())]
    if kind in ("base", "batch", "impatient", "finite"):
        counts.append(("Taken", s.taked))
        shown(t, "busy", text, "PPNZ moments", s.ppnz[:3], "busy period moments")
    if s.buffer is not None:
        counts.append(("Dropped", s.dropped))
    for h, v in counts:
        shown(t, h, text, h, [v], h, lines=1)
    parts = re.split(r"\nServer # ?", text)[1:]
    if t.require("servers", len(parts) == s.n, f"{len(parts)} servers shown of {s.n}"):
        for part, x in zip(parts, s.servers):
            body = part.split("\nQueue Count")[0]
            t.require("server-state", ("Free" in body) == bool(x.is_free), f"server shown as {body[:60]!r}, free is {x.is_free}")
            if not x.is_free:
                t.count("busy_servers")
                shown(t, "server-end", body, "Time to end", [x.time_to_end_service], "end of service", lines=1)
    if kind == "impatient" and len(s.queue.queue):
        left = [x.moment_to_leave for x in s.queue.queue]
        i = min(range(len(left)), key=lambda j: left[j])
        m = re.search(rf"Task (\d+) is earlier to leave at\s*({NUM})", text)
        if t.require("leaver", m, "the first job to leave is not shown"):
            t.require("leaver", int(m.group(1)) == i, f"first to leave shown as {m.group(1)}, is {i}")
            near(t, "leaver", m.group(2), left[i], "moment to leave")


def classes(t, s, text, short):
    head = text.split("\n")[0]
    t.require("name", str(s.n) in head and (s.buffer is None or f"/{s.buffer}" in head) and (s.prty_type == "No" or head.rstrip().endswith(s.prty_type)), f"kind of system shown as {head!r}")
    shown(t, "load", text, "Load", [s.calc_load()], "load", lines=1)
    if not short:
        shown(t, "time", text, "Current Time", [s.ttek], "clock", lines=1)
    parts = re.split(r"\nClass (\d+)\n", text)[1:]
    if not t.require("classes", [int(x) for x in parts[::2]] == list(range(1, s.k + 1)), f"classes shown: {parts[::2]}"):
        return
    for k, part in enumerate(parts[1::2]):
        part = re.split(r"\nServer #?", part)[0]
        shown(t, "sojourn", part, "Sojourn moments", s.v[k][:3], f"sojourn moments of class {k + 1}", 4)
        shown(t, "wait", part, "Wait moments", s.w[k][:3], f"wait moments of class {k + 1}", 4)
        if short:
            continue
        shown(t, "arrival-time", part, "Arrival time", [s.arrival_time[k]], f"arrival time of class {k + 1}", lines=1)
        shown(t, "probabilities", part, "Stationary prob", [x / s.ttek for x in s.p[k][:10]], f"state probabilities of class {k + 1}", 4)
        shown(t, "busy", part, "PPNZ moments", s.ppnz[k][:3], f"busy period moments of class {k + 1}", 4)
        counts = [("Arrived", s.arrived[k]), ("Taken", s.taked[k]), ("Served", s.served[k]), ("In System", s.in_sys[k])]
        if s.buffer is not None:
            counts.append(("Dropped", s.dropped[k]))
        for h, v in counts:
            shown(t, h, part, h, [v], f"{h} of class {k + 1}", lines=1)
    rows = re.findall(r"\nServer #?(\d+)", text)
    t.require("servers", len(rows) == s.n, f"{len(rows)} servers shown of {s.n}")
    t.require("server-state", len(re.findall(r"Server \d+: Free", text)) == sum(bool(x.is_free) for x in s.servers), "number of free servers")
    for x in s.servers:
        if not x.is_free:
            t.count("busy_servers")
            part = text[re.search(rf"\nServer #{x.id}\n", text).end():] if re.search(rf"\nServer #{x.id}\n", text) else ""
            shown(t, "server-class", part, r"Class", [x.tsk_on_service.k + 1], "class in service", lines=1)
            shown(t, "server-arrival", part, "Arrival moment", [x.tsk_on_service.arr_time], "arrival moment of the job in service", lines=1)
            shown(t, "server-end", part, "End service moment", [x.tsk_on_service.time_to_end_service], "end of service", lines=1)
    if s.prty_type != "No":
        for k in range(s.k):
            for x in re.findall(rf"Queue # {k + 1} count (\d+)", text):
                near(t, "queue-count", x, len(s.queue[k]), f"queue of class {k + 1}")
    else:
        for x in re.findall(r"Queue count (\d+)", text):
            near(t, "queue-count", x, len(s.queue), "queue")


def reports(t):
    kind = q06.KINDS[t.idx % len(q06.KINDS)]
    c = q06.recipe(t.rng, kind)
    t.params(**c)
    T_ = Tapes(t.rng, units=False)
    build = q06.make(T_, c)
    marks = sorted(int(x) for x in t.rng.integers(3, 400, 4))
    with T_, sut(t, kind):
        s = build()
        for n in range(1, marks[-1] + 1):
            s.run_one_step()
            if n in marks and s.ttek > 0:
                text = ANSI.sub("", str(s))
                (classes if kind == "priority" else lambda t, s, x, sh: one_queue(t, kind, s, x, sh))(t, s, text, False)
                t.count("reports")
                t.sig("report", kind, s.n, s.buffer is None, c["K"], tuple(bool(x.is_free) for x in s.servers), n)
                if kind != "delta" or True:
                    text = ANSI.sub("", s.__str__(True))
                    if kind == "impatient":
                        text = ANSI.sub("", str(s))
                    (classes if kind == "priority" else lambda t, s, x, sh: one_queue(t, kind, s, x, sh))(t, s, text, kind != "impatient")
                    t.count("short")
    t.sample(kind=kind, clock=getattr(s, "ttek", None))


# ---------------------------------------------------------------- tables

def caught(f, *a, **k):
    keep = sys.stdout
    sys.stdout = out = io.StringIO()
    try:
        f(*a, **k)
    finally:
        sys.stdout = keep
    return ANSI.sub("", out.getvalue()).replace("\r", "")


def real(x):
    return x.real if isinstance(x, complex) else x


def numbers(rng, k, cplx=False, lo=1e-4, hi=1e5):
    out = []
    for _ in range(k):
        x = logu(rng, lo, hi)
        kind = int(rng.integers(0, 4))
        if cplx and kind == 0:
            x = complex(x, 1e-9 * x)
        elif cplx and kind == 1:
            x = np.complex128(complex(x, -1e-9 * x))
        elif kind == 2:
            x = np.float64(x)
        elif kind == 3:
            x = float(int(x))
        out.append(x)
    return out


def columns(t, text, names):
    """Order of the columns, from the heading."""
    for line in text.split("\n"):
        at = [line.find(n) for n in names]
        if min(at) >= 0:
            return [n for _, n in sorted(zip(at, names))]
    t.fail("heading", f"no heading with {names}", text=text[:400])
    return None


def rows(text):
    return re.findall(rf"^\s*(\d+)\s*\|\s*({NUM})\s*\|\s*({NUM})\s*$", text, re.M)


def two_columns(t, key, text, names, want, first, g):
    cols = columns(t, text, list(names))
    if cols is None:
        return
    got = rows(text)
    if not t.require(key, [int(r[0]) for r in got] == list(range(first, first + len(want))), f"rows shown: {[r[0] for r in got]}, expected {len(want)} from {first}", text=text[:500]):
        return
    for r, pair in zip(got, want):
        for x, name in zip(r[1:], cols):
            near(t, key, x, pair[name], f"{name} in row {r[0]}", g)


def tables(t):
    from most_queue.general_utils import tables as tb
    rng = t.rng
    a, b = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    which = ("times", "single", "probs", "classes")[t.idx % 4]
    t.params(which=which, a=a, b=b)
    t.sig(which, a, b, t.idx % 97)
    with sut(t, which):
        if which == "times":
            sim, calc = numbers(rng, a, True), numbers(rng, b, True)
            t.count("complex_moments", sum(isinstance(x, complex) for x in sim + calc))
            keep = list(sim), list(calc)
            w = bool(rng.integers(0, 2))
            text = caught(tb.times_print, sim, calc, w) if rng.random() < .7 else caught(tb.times_print, sim_moments=sim, calc_moments=calc, is_w=w)
            t.require("title", ("ожидания" in text) == w and ("пребывания" in text) == (not w), "table named after the other time", text=text[:120])
            two_columns(t, "times", text, ("Числ", "ИМ"), [{"Числ": real(y), "ИМ": real(x)} for x, y in zip(sim, calc)], 1, 5)
            t.require("kept", keep == (sim, calc), "the lists handed over are changed")
        elif which == "single":
            sim, calc = numbers(rng, 1, True)[0], numbers(rng, 1, True)[0]
            t.count("complex_moments", sum(isinstance(x, complex) for x in (sim, calc)))
            two_columns(t, "single", caught(tb.times_print, sim, calc), ("Числ", "ИМ"), [{"Числ": real(calc), "ИМ": real(sim)}], 1, 5)
        elif which == "probs":
            n, m = int(rng.integers(1, 30)), int(rng.integers(1, 30))
            sim, calc = numbers(rng, n, lo=1e-9, hi=1), numbers(rng, m, lo=1e-9, hi=1)
            size = int(rng.integers(1, 25)) if rng.random() < .7 else None
            text = caught(tb.probs_print, sim, calc, size) if size else caught(tb.probs_print, sim, calc)
            k = min(n, m, size or 10)
            two_columns(t, "probs", text, ("Числ", "ИМ"), [{"Числ": calc[i], "ИМ": sim[i]} for i in range(k)], 0, 5)
        else:
            k, j = int(rng.integers(1, 7)), int(rng.integers(1, 5))
            sim, calc = [numbers(rng, j) for _ in range(k)], [numbers(rng, j) for _ in range(k)]
            text = caught(tb.times_print_with_classes, sim, calc, bool(rng.integers(0, 2)))
            got = {lab: re.findall(rf"\|[ ]*{lab}[ ]*\|((?:[ ]*{NUM}[ ]*\|)+)", text) for lab in ("ИМ", "Р")}
            for lab, want in (("ИМ", sim), ("Р", calc)):
                if t.require("classes", len(got[lab]) == k, f"{len(got[lab])} rows {lab} for {k} classes", text=text[:600]):
                    for i, line in enumerate(got[lab]):
                        vals = re.findall(NUM, line)
                        if t.require("classes", len(vals) == j, f"{len(vals)} moments shown of {j}"):
                            for x, v in zip(vals, want[i]):
                                near(t, "classes", x, v, f"class {i + 1}, {lab}", 3)
            t.require("classes", [int(x) for x in re.findall(r"^\s*(\d+)\s*\|-", text, re.M)] == list(range(1, k + 1)), "numbers of the classes")
    t.count("tables")
    t.sample(which=which)


def paper(t):
    vp = headless(lambda n: __import__(n, fromlist=["x"]), "most_queue.general_utils.vacations_paper_utils")
    rng = t.rng
    mean, cv = logu(rng, .01, 100), float(rng.uniform(.2, 4))
    t.params(mean=mean, cv=cv)
    t.sig("paper", round(math.log2(mean)), round(cv, 1))
    with sut(t, "paper"):
        a = 1 / cv ** 2
        b = vp.calc_moments_by_mean_and_coev(mean, cv)
        # moments of the Gamma law with this mean and coefficient of variation
        t.closev("moments", b, [mean, mean ** 2 * (1 + 1 / a), mean ** 3 * (1 + 1 / a) * (1 + 2 / a)], rtol=1e-9, msg="moment by mean and variation")
        stats = []
        for _ in range(int(rng.integers(1, 4))):
            st = {k: float(rng.uniform(0, 3)) for k in ("ro", "coev_service", "coev_warm", "coev_cold", "coev_cold_delay", "sim_warm_prob", "tt_warm_prob", "sim_cold_prob", "tt_cold_prob",
                                                         "sim_cold_delay_prob", "tt_cold_delay_prob", "tt_time", "sim_time")}
            st.update(n=int(rng.integers(1, 30)), tt_num_of_iter=int(rng.integers(1, 300)), p_tt=numbers(rng, 12, lo=1e-6, hi=1), p_sim=numbers(rng, 12, lo=1e-6, hi=1),
                      w_tt=numbers(rng, 3), w_sim=numbers(rng, 3))
            stats.append(st)
        d = tempfile.mkdtemp(prefix="mq47_")
        f = os.path.join(d, "s.json")
        try:
            vp.dump_stat(stats, f)
            back = vp.load_stat(f)
        finally:
            os.path.exists(f) and os.remove(f)
            os.rmdir(d)
        t.require("stored", back == stats, "the stored results read back differently")
        text = caught(vp.print_table, stats)
        parts = text.split("Comparison of calculation results")[1:]
        if t.require("experiments", len(parts) == len(stats), f"{len(parts)} experiments shown of {len(stats)}"):
            for part, st in zip(parts, stats):
                shown(t, "paper", part, "Utilization factor", [st["ro"]], "load", lines=1)
                for h, k in (("Service time coefficient of variation", "coev_service"), ("Warm-up time coefficient of variation", "coev_warm"), ("Cooling time coefficient of variation", "coev_cold"),
                             ("Cooling delay coefficient of variation", "coev_cold_delay"), ("iterations of the Takahashi-Takami algorithm", "tt_num_of_iter"),
                             ("Running time of the Takahashi-Takami algorithm", "tt_time"), ("Simulation time", "sim_time")):
                    shown(t, "paper", part, h, [st[k]], h, lines=1)
                for h, k in (("being in a warm-up state", "warm"), ("being in a cooling state", "cold"), ("being in a cooling delay state", "cold_delay")):
                    sec = part[part.find(h):]
                    shown(t, "paper", sec, "ИМ", [st[f"sim_{k}_prob"]], h + " (simulation)", lines=1)
                    shown(t, "paper", sec, "Числ", [st[f"tt_{k}_prob"]], h + " (numerical)", lines=1)
                i = part.find("Initial waiting times")
                two_columns(t, "paper-p", part[:i], ("Numerical", "Sim"), [{"Numerical": st["p_tt"][j], "Sim": st["p_sim"][j]} for j in range(11)], 0, 3)
                two_columns(t, "paper-w", part[i:], ("Numerical", "Sim"), [{"Numerical": st["w_tt"][j], "Sim": st["w_sim"][j]} for j in range(3)], 1, 3)
    t.count("paper")
    t.sample(experiments=len(stats))


def graphs(t):
    nv = headless(lambda n: __import__(n, fromlist=["x"]), "most_queue.theory.network_viewer")
    rng = t.rng
    N = int(rng.integers(1, 9))
    X = np.array([rng.dirichlet(np.ones(N + 1)) for _ in range(N + 1)])
    X[rng.random(X.shape) < .4] = 0
    for i in range(N + 1):
        if X[i].sum() == 0:
            X[i, int(rng.integers(0, N + 1))] = 1
    X /= X.sum(1, keepdims=True)
    if rng.random() < .5:
        X = np.array([[round(float(v), 3) for v in r] for r in X])
    R = np.matrix(X) if rng.random() < .5 else X
    keep = np.array(X)
    want = {(i, j + 1): float(X[i, j]) for i in range(N + 1) for j in range(N + 1) if X[i, j] != 0}
    t.params(N=N, edges=len(want))
    t.sig("graph", N, len(want), t.idx % 50)
    with sut(t, "graph"):
        g = nv.create_DG(R) if rng.random() < .5 else nv.create_DG(R, engine="networkx")
        got = {(a, b): float(d["weight"]) for a, b, d in g.edges(data=True)}
        t.require("edges", got == want, f"edges differ: {sorted(set(got.items()) ^ set(want.items()))[:4]}")
        col = bool(rng.integers(0, 2))
        src = nv.create_DG(R, engine="graphviz", colorize_source_and_drain=col).source
        edges = {(int(a), int(b)): float(x) for a, b, x in re.findall(rf"^\s*(\d+) -> (\d+) \[label=\"?({NUM})\"?", src, re.M)}
        t.require("drawn-edges", set(edges) == set(want) and all(abs(edges[k] - want[k]) < 1e-12 for k in want), f"drawn edges differ: {sorted(set(edges.items()) ^ set(want.items()))[:4]}")
        nodes = sorted(int(x) for x in re.findall(r"^\s*(\d+) \[", src, re.M))
        t.require("nodes", nodes == list(range(N + 2)), f"nodes drawn: {nodes}")
        filled = sorted(int(x) for x in re.findall(r"^\s*(\d+) \[.*filled", src, re.M))
        t.require("marked", filled == ([0, N + 1] if col else []), f"marked nodes: {filled}")
        t.require("kept", np.array_equal(keep, np.asarray(R)), "the transition matrix is changed")
    t.count("graphs")
    t.sample(N=N)


def plots(t):
    """The curves of the vacation studies carry the stored results."""
    vp = headless(lambda n: __import__(n, fromlist=["x"]), "most_queue.general_utils.vacations_paper_utils")
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    rng = t.rng
    k, m = int(rng.integers(1, 12)), int(rng.integers(0, 3))
    par = str(rng.choice(["ro", "n", "coev", "delay_mean"]))
    mode = str(rng.choice(["error", "abs"]))
    stats = [{"ro": float(rng.uniform(0, 1)), "n": int(rng.integers(1, 30)), "coev": float(rng.uniform(.2, 3)), "b_d": numbers(rng, 3), "w_sim": numbers(rng, 3), "w_tt": [x or 1.0 for x in numbers(rng, 3)]} for _ in range(k)]
    xs = [x["b_d"][0] if par == "delay_mean" else x[par] for x in stats]
    t.params(experiments=k, moment=m, param=par, mode=mode)
    t.sig("plot", k, m, par, mode)
    plt.close("all")
    with sut(t, "plot"):
        vp.make_plot(stats, w_moments_num=m, param_name=par, mode=mode)
        curves = {str(c.get_label()): (list(map(float, c.get_xdata())), list(map(float, c.get_ydata()))) for c in plt.gcf().axes[0].lines}
        if mode == "error":
            if t.require("curves", len(curves) == 1, f"{len(curves)} curves drawn, expected one"):
                x, y = list(curves.values())[0]
                t.closev("plot-x", x, xs, msg="argument of the curve")
                t.closev("plot-error", y, [100 * (z["w_sim"][m] - z["w_tt"][m]) / z["w_tt"][m] for z in stats], msg="relative error in per cent")
        elif t.require("curves", set(curves) == {"ИМ", "Числ"}, f"curves drawn: {sorted(curves)}"):
            for lab, key in (("ИМ", "w_sim"), ("Числ", "w_tt")):
                t.closev("plot-x", curves[lab][0], xs, msg=f"argument of the curve {lab}")
                t.closev("plot-y", curves[lab][1], [z[key][m] for z in stats], msg=f"values of the curve {lab}")
    plt.close("all")
    t.count("plots")


def script(t):
    """The demonstration of the two approximations: mean 3, coefficient of variation 1.2, asymmetry 4."""
    import runpy
    import matplotlib
    matplotlib.use("Agg")
    from mq.core import REPO
    here, d = os.getcwd(), tempfile.mkdtemp(prefix="mq47_")
    out, keep, err = io.StringIO(), sys.stdout, sys.stderr
    t.sig("script")
    try:
        os.chdir(d)
        sys.stdout, sys.stderr = out, io.StringIO()
        runpy.run_path(os.path.join(REPO, "most_queue/general_utils/approx_cdf_make.py"))
    except Exception as e:
        t.fail("script:exception", f"{type(e).__name__}: {e}")
        return
    finally:
        sys.stdout, sys.stderr = keep, err
        os.chdir(here)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
    text = ANSI.sub("", out.getvalue())
    s = 3 * 1.2
    want = [3, 9 + s ** 2, 4 * s ** 3 + 3 * 3 * s ** 2 + 27]
    a = 1 / 1.2 ** 2
    gam = [3, 9 * (1 + 1 / a), 27 * (1 + 1 / a) * (1 + 2 / a)]
    rows = re.findall(rf"^\s*(\d)\s*\|\s*({NUM})\s*\|\s*({NUM})\s*\|\s*({NUM})\s*$", text, re.M)
    if t.require("script", [r[0] for r in rows] == ["1", "2", "3"], f"moments shown: {rows}"):
        for i, (_, x, y, z) in enumerate(rows):
            near(t, "script", x, want[i], f"moment {i + 1} of the law", 3)
            t.close("script", float(y), gam[i], rtol=(.03, .08, .3)[i], msg=f"moment {i + 1} of the sampled Gamma approximation")
            t.close("script", float(z), want[i], rtol=(.04, .12, .5)[i], msg=f"moment {i + 1} of the sampled H2 approximation")
    t.count("scripts")


GROUPS = {"script": (script, 1, 3), "plots": (plots, 60, 600), "reports": (reports, 400, 6000), "tables": (tables, 400, 6000), "paper": (paper, 80, 1000), "graphs": (graphs, 150, 2500)}
