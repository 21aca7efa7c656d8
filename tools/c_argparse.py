from vlib import *
import vlib


def describe(ev, tr, at):
    t = lambda c: bytes(c).decode(errors="replace")
    if ev.get("e") == "parse":
        return "Argparse: no run of the parser machine ends like this: tokens " + json.dumps([t(x) for x in ev["toks"]]) + " env " + json.dumps([t(x[0]) if x else None for x in ev["env"]]) + \
               f" gave {ev['r']} pos={ev['pos']} opt={ev['opt']} flag={ev['flag']}"
    return f"Argparse: {json.dumps(ev)} (after {at} parses) is no behaviour of the parser machine"


def argparse_check(main):
    def run(c):
        exe = build("argp", ["argparse/argument_parser.cpp"], controlled="seq")
        th = vlib.TIER == "thorough"
        n = 250 if th else 40
        if main == "lines":
            c.design("ArgparseModel", f"SPECIFICATION Spec\nCONSTANT N = {3 if not th else 4}\nINVARIANT Decided Values Untouched\nPROPERTY Stopped\nCHECK_DEADLOCK FALSE\n",
                     "parser machine against the roles of the tokens", workers=8, timeout=1500)
        js = []
        for i in range(8):
            for s in ("lines", "full"):
                k = n if s == main else n // 3
                js.append(["--scenario", s, "--seed", SEED * 100 + i, "--count", k])
        c.conform("TraceArgparse", exe, js, describe=describe, label="random command lines")
        js = [["--scenario", "convert", "--seed", SEED + i, "--count", 30 if th else 15] for i in range(2)]
        c.conform("TraceArgparse", exe, js, describe=describe, label="conversions")
        of = 8
        js = [["--scenario", "sweep4" if th else "sweep3", "--seed", SEED, "--count", 6, "--part", i, "--of", of] for i in range(of)]
        c.conform("TraceArgparse", exe, js, describe=describe, label="all short command lines")
        c.assumptions += ["the C locale is in force", "decimal texts used for float and double are exact in units of 1/10000",
                          "a parser object is used for one parse; every argument is bound to a variable of its own"]
    return run


def output(c):
    exe = build("argp", ["argparse/argument_parser.cpp"], controlled="seq")
    k = 20 if vlib.TIER == "thorough" else 1
    t = lambda x: bytes(x).decode(errors="replace")
    d = lambda ev, tr, at: f"HelpText: tokens {json.dumps([t(x) for x in ev['toks']])} ({ev['r']}) printed {t(ev['out'])!r} and on stderr {t(ev['err'])!r}" if ev.get("e") == "parse" else "HelpText: not explained: " + json.dumps(ev)
    c.conform("TraceHelpText", exe, [["--scenario", "output", "--seed", SEED * 100 + i, "--count", 20 * k] for i in range(8)], describe=d, label="what is printed")
    c.assumptions += ["descriptions are of one line"]


CHECKS = {"C34": output, "C20": argparse_check("lines"), "C21": argparse_check("full")}
