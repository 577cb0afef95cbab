import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, cases, typecheck, audit, sem
from common import Report, Broken

TYPE_RULE = ("every forbidden program in the family is rejected by the compiler's type, borrow, privacy or trait checker, "
             "and its accepted twin, which differs only by the marked lines, type-checks")


def types(rep, build, fn, good, bad):
    rep.rule(TYPE_RULE)
    typecheck.run_cases(rep, fn(), build)
    rep.floor("accepted twins", good)
    rep.floor("forbidden programs", bad)


def run(prop):
    rep = Report(prop)
    try:
        build = common.Build()
        CHECKS[prop](rep, build)
    except Broken as e:
        rep.bad("build", str(e))
    except Exception as e:
        # The analysis itself failed: nothing is known about the property, so nothing is claimed about it either.
        traceback.print_exc()
        rep.undecided("engine", "%s: %s" % (type(e).__name__, e))
    return rep.finish()


# property -> (fewest client roots, fewest obligations) expected of the abstract interpreter
SEM = {"C01": (320, 1500), "C02": (50, 60), "C03": (430, 1500), "C04": (290, 900), "C05": (390, 1200), "C06": (240, 500),
       "C07": (190, 600), "C08": (120, 300), "C09": (75, 250), "C10": (80, 300), "C11": (120, 300), "C12": (40, 100),
       "C13": (40, 100), "C14": (55, 60), "C16": (40, 150), "C17": (16, 30), "C18": (38, 60), "C20": (130, 300),
       "C19": (30, 60), "C24": (24, 30), "C28": (60, 150),
       "C29": (120, 400), "C30": (80, 300)}


def semantic(rep, b):
    sem.run(rep, b, *SEM[rep.prop])


for _p in SEM:
    globals()[_p.lower()] = semantic


def c15(rep, b):
    audit.mut_outputs(rep, b)
    types(rep, b, cases.c15, 20, 100)


def both(fn, good, bad, *audits):
    def f(rep, b):
        semantic(rep, b)
        for a in audits:
            a(rep, b)
        types(rep, b, fn, good, bad)
    return f


c16 = both(cases.c16, 6, 20)
c17 = both(cases.c17, 5, 20, audit.texts)
c18 = both(cases.c18, 5, 25)
c19 = both(cases.c19, 6, 55)
c24 = both(cases.c24, 2, 6)


def c21(rep, b):
    audit.borrows(rep, b)
    types(rep, b, cases.c21, 30, 130)


def c22(rep, b):
    audit.raw_inputs(rep, b)
    audit.owners(rep, b)
    types(rep, b, cases.c22, 32, 95)


def c23(rep, b):
    audit.auto_impls(rep, b)
    types(rep, b, cases.c23, 10, 200)


def c25(rep, b):
    types(rep, b, cases.c25, 15, 50)


def c26(rep, b):
    types(rep, b, cases.c26, 60, 290)


def c27(rep, b):
    audit.no_std(rep, b)
    rep.rule("client code generated by every macro type-checks in a no_std crate with no prelude, inside a module that shadows every "
             "name the macros use")
    typecheck.run_cases(rep, cases.c27(), b)
    rep.floor("accepted twins", 6)


def c31(rep, b):
    sem.builds(rep, b, common.Build(debug=True), 1000, 5000)


CHECKS = {k.upper(): v for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit()}

if __name__ == "__main__":
    sys.exit(run(sys.argv[1]))
