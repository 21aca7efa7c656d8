from vlib import *
import vlib


def th():
    return vlib.TIER == "thorough"


def jobs(*rows):
    """rows: (scenario, number of jobs, executions per job)"""
    js = []
    for s, n, k in rows:
        for i in range(n):
            j = ["--scenario", s, "--seed", SEED * 100 + i, "--count", k]
            if s.endswith("sweep"):
                j += ["--part", i, "--of", n]
            js.append(j)
    return js


def geom(c, label, rows):
    exe = build("geom", [], controlled="seq")
    c.conform("TraceGeometry", exe, jobs(*rows), label=label)


def c27(c):
    c.design("RangeModel", f"SPECIFICATION Spec\nCONSTANT N = {4 if th() else 3}\nINVARIANT AlwaysOrdered Symmetric PointSets Clamps Maps\nPROPERTY SetterSets\nCHECK_DEADLOCK FALSE\n", "range algebra against sets of numbers")
    k = 20 if th() else 1
    geom(c, "range histories", [("range", 8, 16 * k)])
    geom(c, "all small ranges", [("range_sweep", 8, 1 if not th() else 4)])
    c.assumptions += ["the length is asked for only where it is representable in the value type"]


def c28(c):
    c.design("RectModel", f"SPECIFICATION Spec\nCONSTANT N = {3 if th() else 2}\nINVARIANT PointSets Symmetric Translations\nCHECK_DEADLOCK FALSE\n", "rectangle algebra against sets of points")
    k = 20 if th() else 1
    geom(c, "rectangle histories", [("rect", 8, 16 * k)])
    geom(c, "all small rectangles", [("rect_sweep", 8, 1)])
    c.assumptions += ["coordinates and sums of coordinates are representable in the coordinate type; rectangles have two positive dimensions or none"]


def c29(c):
    c.design("SegModel", f"SPECIFICATION Spec\nCONSTANT N = {3 if th() else 2}\nINVARIANT Agrees OrderFree BigAgrees SharedEnd\nCHECK_DEADLOCK FALSE\n", "parametric against topological intersection")
    k = 20 if th() else 1
    geom(c, "segments", [("seg", 8, 10 * k), ("segrect", 4, 8 * k)])
    geom(c, "all small segments", [("seg_sweep", 8, 1 if not th() else 6), ("segrect_sweep", 4, 1)])
    c.assumptions += ["coordinates are whole multiples of 1/4 up to one million, so that all products are exact in double precision"]


def c30(c):
    k = 20 if th() else 1
    geom(c, "points, sizes, min/max", [("pt", 8, 12 * k)])


def c33(c):
    exe = build("geomtext", [], controlled="seq")
    k = 20 if th() else 1
    t = lambda x: bytes(x).decode(errors="replace")
    d = lambda ev, tr, at: f"GeometryText: the text of a {tr['p']['kind']} is not that of its coordinates: {t(ev['s'])!r}, streamed {t(ev['o'])!r}" if ev.get("e") == "text" else "GeometryText: not explained: " + json.dumps(ev)
    c.conform("TraceGeometryText", exe, jobs(("texts", 8, 40 * k)), label="texts", describe=d)
    c.assumptions += ["fractions are multiples of 1/64, which six decimals show exactly"]


def c35(c):
    exe = build("task", [], controlled="seq")
    k = 20 if th() else 1
    c.conform("TraceTaskWrapper", exe, jobs(("task", 8, 30 * k)), label="histories of tasks")


def c36(c):
    exe = build("watch", [], controlled="seq")
    k = 20 if th() else 1
    c.conform("TraceStopwatch", exe, jobs(("watch", 8, 30 * k)), label="histories of stopwatches")
    c.assumptions += ["time is read through clock_gettime, gettimeofday or time"]


def c22(c):
    laws(c, "UuidTextModel", "RoundTrip Edits Order", ["Bytes1 <- AllBytes", "Bytes2 = {0, 1, 127, 128, 255}"] if th() else ["Bytes1 <- FewBytes", "Bytes2 = {0, 255}"],
         "texts of uuids: round trip, single edits, order")
    exe = build("uuidtext", ["uuid.cpp", "uuid_generator.cpp"], controlled="seq")
    k = 20 if th() else 1
    t = lambda x: bytes(x).decode(errors="replace")
    d = lambda ev, tr, at: "UuidText: not explained: " + (f"text {t(ev['s'])!r} valid={ev['valid']} from_string={ev['r']}" if ev.get("e") == "parse" else json.dumps(ev))
    c.conform("TraceUuidText", exe, jobs(("history", 8, 6 * k)), label="texts", describe=d)
    c.conform("TraceUuidText", exe, jobs(("edits_sweep", 8, 1 if not th() else 8), ("shorts_sweep", 4, 1)), label="all single edits and short texts", describe=d)


def dt(c, primary):
    exe = build("dtime", ["datetime/date.cpp", "datetime/datetime.cpp", "datetime/time.cpp", "datetime/timedelta.cpp"], controlled="seq")
    k = 20 if th() else 1
    f = lambda s: 8 * k if s == primary else 2 * k
    c.conform("TraceDateTime", exe, jobs(*[(s, 8, f(s)) for s in ("dates", "arith", "texts")]), label="histories")
    return exe


def c24(c):
    c.design("CalendarModel", f"SPECIFICATION Spec\nCONSTANT From = {-400 if th() else 1600}\nCONSTANT Years = {2000 if th() else 400}\nINVARIANT Formula Shift Known\nPROPERTY Week Later\nCHECK_DEADLOCK FALSE\n", "day numbers by rule against the closed formula")
    exe = dt(c, "dates")
    c.conform("TraceDateTime", exe, jobs(("calendar_sweep", 8, 1 if not th() else 7)), label="calendar facts of every month")
    c.assumptions += ["years from -32000 to 32000; differences of dates up to 106751 days (the range of a timedelta)"]


def laws(c, module, inv, consts, label):
    c.design(module, f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT {inv}\nCONSTANTS\n" + "".join(x + "\n" for x in consts), label, workers=8, timeout=1500)


def c25(c):
    laws(c, "NanosModel", "Group Ordered Multiples Quotients Totals Rounding Day Integers", ["Wide = TRUE" if th() else "Wide = FALSE"], "laws of the arithmetic in parts")
    dt(c, "arith")
    c.assumptions += ["results representable in 64-bit nanoseconds: instants from 1677-09-22 to 2262-04-11, durations up to 292 years"]


def c26(c):
    laws(c, "DateTextModel", "DateRead TimeRead InstantRead Length Sorted Delta Marred",
         ["Dates <- OneDate", "Secs <- ManySecs"] if th() else ["Dates <- DefDates", "Secs <- DefSecs"], "what is written is read as the value, texts sort like values")
    exe = dt(c, "texts")
    c.conform("TraceDateTime", exe, jobs(("clock_sweep", 8, 1), ("edits_sweep", 8, 1 if not th() else 4)), label="every second of a day; texts one edit away")
    c.assumptions += ["formats made of %Y %m %d %H %M %S %F %T and literal characters"]


CHECKS = {"C24": c24, "C25": c25, "C26": c26, "C22": c22, "C27": c27, "C28": c28, "C29": c29, "C30": c30, "C33": c33, "C35": c35, "C36": c36}
