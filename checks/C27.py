"""C27: timers and progress bars report the true elapsed time and share of work done."""
import re
from symex.harness_common import Case

FUNCTIONS = ["pyEdgeEval.utils.timer: Timer (start, since_start, since_last_check, "
             "is_running, with statement), check_time",
             "pyEdgeEval.utils.progressbar: ProgressBar, track_progress, "
             "track_iter_progress, track_parallel_progress (what they display)"]
OUTSIDE = ("clocks that run backwards (C21 shows that they do not disturb results); the "
           "exact width of the bar; more operations than the case lists")
ASSUMPTIONS = ["time passes between the calls of a harness, not during them",
               "formatting a number with n decimals prints a decimal within half a unit "
               "of the n-th place"]
EPS = 1e-6


class Clock:
    """advances only when the harness says so"""

    def __init__(self, ctx, n):
        self.ctx = ctx
        self.now = ctx.real("start", 0, 2e9)
        self.steps = [ctx.real(f"step{i}", 0, 1e6) for i in range(n)]
        self.k = 0
        ctx.set_clock(lambda: self.now)

    def tick(self):
        self.now = self.now + self.steps[self.k]
        self.k += 1


class Screen:
    def __init__(self):
        self.parts, self.flushed = [], 0

    def write(self, x):
        self.parts.append(x)

    def flush(self):
        self.flushed = len(self.parts)


def near(ctx, got, want, tol, label):
    ctx.check(ctx.And(got - want <= tol, want - got <= tol), label)


def timer_module(ctx):
    import importlib
    U = ctx.mod("pyEdgeEval.utils.timer")
    return U


OPS = ["total", "lap", "again", "running"]


def operations(ctx, n, auto):
    """any sequence of n operations on a timer"""
    U = timer_module(ctx)
    c = Clock(ctx, n + 2)
    t = U.Timer() if auto else U.Timer(start=False)
    start = last = c.now
    c.tick()
    if not auto:
        ctx.check(not t.is_running, "not started yet")
        for f in ("since_start", "since_last_check"):
            ctx.check(isinstance(ctx.raises(getattr(t, f), Exception), U.TimerError),
                      "a stopped timer measures nothing")
        t.start()
        start = last = c.now
    for i in range(n):
        c.tick()
        op = ctx.pick(f"op{i}", OPS)
        if op == "total":
            near(ctx, t.since_start(), c.now - start, EPS, "time since the start")
            last = c.now
        elif op == "lap":
            near(ctx, t.since_last_check(), c.now - last, EPS,
                 "time since the last check")
            last = c.now
        elif op == "again":
            t.start()
            last = c.now            # the start itself is kept
        else:
            ctx.check(t.is_running, "running")


def block(ctx, tmpl):
    """with statements print how long the block took, and can be repeated"""
    U = timer_module(ctx)
    c = Clock(ctx, 8)
    t = U.Timer(start=False, print_tmpl=tmpl)
    n = 3 if tmpl is None else 1
    prev = 0
    for rnd in range(2):
        with t as inner:
            ctx.check(inner is t and t.is_running, "the timer itself, running")
            last = start = c.now
            c.tick()
            if ctx.pick(f"check{rnd}", [False, True]):
                near(ctx, t.since_start(), c.now - start, EPS, "time since the start")
                last = c.now
            c.tick()
        ctx.check(not t.is_running, "stopped behind the block")
        ctx.check(isinstance(ctx.raises(t.since_start, Exception), U.TimerError),
                  "a stopped timer measures nothing")
        out = ctx.log_text().strip().split("\n")
        ctx.check(len(out) == rnd + 1, "one line per block")
        m = re.fullmatch(r"(\S+)" if tmpl is None else r"took (\S+) s", out[-1].strip())
        ctx.check(m is not None, "the given text")
        near(ctx, ctx.number(m.group(1)), c.now - last, 0.5 * 10 ** -n + EPS,
             "how long the block took")
        c.tick()


def named(ctx, n):
    """check points of several names do not disturb each other"""
    U = timer_module(ctx)
    c = Clock(ctx, n)
    last = {}
    for i in range(n):
        k = ctx.pick(f"id{i}", ["a", "b"])
        r = U.check_time(k)
        if k in last:
            near(ctx, r, c.now - last[k], EPS, "time since this name's last check")
        else:
            ctx.check(r == 0, "zero at the first call")
        last[k] = c.now
        c.tick()


FULL = re.compile(r"\r\[([^\]]*)\] (\S+)/(\S+), (\S+) task/s, elapsed: (\S+)s, "
                  r"ETA:\s*(\S+)s")
OPEN = re.compile(r"completed: (\S+), elapsed: (\S+)s, (\S+) tasks/s")


def shown(ctx, text, total, done, elapsed):
    """a line of the bar"""
    m = (FULL if total > 0 else OPEN).fullmatch(text)
    ctx.check(m is not None, "the parts of a progress line")
    g = m.groups()
    if total > 0:
        bar, d, n, fps, el, eta = g
        ctx.check(ctx.number(n) == total, "the number of tasks")
        runs = ctx.runs(bar)
        ctx.check("".join(c for c, _ in runs) in ("> ", ">", " ", ""),
                  "marks from the left")
        marks = sum(k for c, k in runs if c == ">")
        width = sum(k for _, k in runs)
        if done <= total:
            w = width * done
            ctx.check(ctx.And(width >= 2, w - total - EPS < marks * total,
                              marks * total <= w + EPS),
                      "the marked part of the bar is the share done")
            near(ctx, ctx.number(eta) * done, elapsed * (total - done),
                 0.5 * done + EPS * total, "the time that is left at this speed")
    else:
        d, el, fps = g
    ctx.check(ctx.number(d) == done, "the number of completed tasks")
    near(ctx, ctx.number(el), elapsed, 0.5 + EPS, "the elapsed time in seconds")
    if ctx.fork(elapsed > 0):
        if ctx.fork(elapsed > 1e-3):
            near(ctx, ctx.number(fps) * elapsed, done, (0.05 + EPS) * elapsed + EPS,
                 "completed tasks per second")
    else:
        ctx.check(fps == "inf", "no speed without time")


def begun(ctx, text, total):
    if total > 0:
        m = re.fullmatch(r"\[ *\] 0/(\S+), elapsed: 0s, ETA:", text)
        ctx.check(m is not None and ctx.number(m.group(1)) == total, "nothing done yet")
    else:
        ctx.check(text == "completed: 0, elapsed: 0s", "nothing done yet")


def bar(ctx, total, steps, width, term):
    """a bar updated by hand"""
    U = ctx.mod("pyEdgeEval.utils.progressbar")
    c = Clock(ctx, len(steps) + 3)
    ctx.set_term(lambda: (term, 24))
    f = Screen()
    late = ctx.pick("late", [False, True])
    p = U.ProgressBar(total, width, start=not late, file=f)
    if late:
        ctx.check(f.parts == [], "nothing shown before the start")
        c.tick()
        p.start()
    start = c.now
    begun(ctx, "".join(f.parts), total)
    done = 0
    for s in steps:
        c.tick()
        del f.parts[:]
        p.update(s) if s != 1 else p.update()
        done += s
        shown(ctx, "".join(f.parts), total, done, c.now - start)
        ctx.check(f.flushed == len(f.parts), "shown at once")


def tracked(ctx, n, form, which):
    """what the trackers display"""
    U = ctx.mod("pyEdgeEval.utils.progressbar")
    c = Clock(ctx, n + 1)
    ctx.set_term(lambda: (80, 24))
    f = Screen()
    ends = []
    start = c.now
    total = {"list": n, "counted": n, "uncounted": 0}[form]
    tasks = list(range(n))
    given = tasks if form == "list" else (iter(tasks), total)

    def work(x):
        c.tick()
        ends.append(c.now)
        return x * 2
    if which == "loop":
        r = U.track_progress(work, given, bar_width=10, file=f)
        ctx.check(list(r) == [x * 2 for x in tasks], "the results")
    else:
        for x in U.track_iter_progress(given, bar_width=10, file=f):
            work(x)
    text = "".join(f.parts)
    ctx.check(text.endswith("\n"), "the line is ended")
    text = text[:-1]
    if total > 0:
        ls = text.split("\r")
        ls[1:] = ["\r" + x for x in ls[1:]]
    else:
        ls = re.split("(?=completed:)", text)[1:]
    ctx.check(len(ls) == n + 1, "a line per finished task")
    begun(ctx, ls[0], total)
    for i, x in enumerate(ls[1:]):
        shown(ctx, x, total, i + 1, ends[i] - start)


class G:
    pass


def twice(x):
    return x * 2


def pooled(ctx, n, nproc, chunk, skip):
    """the count a parallel run displays"""
    U = ctx.mod("pyEdgeEval.utils.progressbar")
    ctx.schedule("any")
    Clock(ctx, 1)
    ctx.set_term(lambda: (80, 24))
    f = Screen()
    r = U.track_parallel_progress(twice, list(range(n)), nproc, bar_width=10,
                                  chunksize=chunk, skip_first=skip, file=f,
                                  keep_order=ctx.pick("keep", [True, False]))
    ctx.check(sorted(r) == [x * 2 for x in range(n)], "the results")
    total = n - (nproc * chunk if skip else 0)
    ls = "".join(f.parts)[:-1].split("\r")
    ctx.check("".join(f.parts).endswith("\n"), "the line is ended")
    begun(ctx, ls[0], total)
    ctx.check(len(ls) == total + 1, "a line per counted task")
    for i, x in enumerate(ls[1:]):
        shown(ctx, "\r" + x, total, i + 1, 0)


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, fn, bounds="all times", **k):
        out.append(Case(name, fn, bounds, **k))
    for n in (1, 2, 3, 4) + ((5,) if thorough else ()):
        for auto in (True, False):
            add(f"timer {n} operations auto={auto}", operations,
                f"every sequence of {n} operations, all times", n=n, auto=auto)
    for tmpl in (None, "took {:.1f} s"):
        add(f"timed block {tmpl}", block, tmpl=tmpl)
    for n in (2, 4, 6) + ((8,) if thorough else ()):
        add(f"check points {n}", named, f"{n} calls with two names, all times", n=n)
    for total in (0, 1, 2, 3, 7, 10):
        for steps in ([1], [1, 1], [2, 1], [1, 1, 1], [3, 4]) + (
                ([1] * 5, [10]) if thorough else ()):
            if total and sum(steps) > total + 1:
                continue
            for width, term in ((10, 80), (50, 20), (50, 300)):
                add(f"bar {total} {steps} {width} {term}", bar, total=total, steps=steps,
                    width=width, term=term)
    for which in ("loop", "iterate"):
        for form in ("list", "counted", "uncounted"):
            for n in (1, 2, 3) + ((4,) if thorough else ()):
                add(f"{which} {form} {n}", tracked, n=n, form=form, which=which)
    for n, nproc, chunk, skip in ((3, 2, 1, False), (3, 1, 2, False), (4, 2, 1, True),
                                  (3, 1, 1, True), (5, 2, 2, True)):
        add(f"parallel {n} {nproc} {chunk} {skip}", pooled, "every schedule", n=n,
            nproc=nproc, chunk=chunk, skip=skip)
    return out
