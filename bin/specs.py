"""What each check runs: one entry per harness function, with its engine mode, bounds and the labels it has to reach."""
import glob, os
ASSUME = [
    'real mode: floating-point operations are exact real arithmetic, so rounding is outside the claim; fp mode: IEEE-754 binary32/64, round to nearest, exactly',
    'container sizes and enumerated choices are explored one by one within the stated bounds; every other input value is an unconstrained SMT variable subject to the stated assumptions',
    'ROS 2, tf2, message_filters, nanoflann and fmt are stand-ins in /verif/stubs (not installed here); PCL and Eigen are the real headers, compiled to LLVM IR and executed symbolically',
    'sqrt, sin, cos, acos, atan2 are axiomatised (real mode) or uninterpreted with range axioms (fp mode); a violation is reported only after it fails in a native run of the real code',
    'an assertion the solver cannot decide in its time limit is counted as inconclusive, never as held',
]
LIB = 'lib/src/**/*.cpp'
UNITS = {}
PROPS = {}


def unit(name, *src, **kw):
    UNITS[name] = dict(harness=name + '.cpp', src=list(src), **kw)


def E(unit, name, mode, reach=(), bounds='', **kw):
    d = dict(unit=unit, name=name, mode=mode, reach=list(reach), bounds=bounds)
    d.update(kw)
    return d


def P(pid, title, statement, over, text, why, files, mech, entries, assumptions=(), note='', budget=None, na=None):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, entries=entries,
                      assumptions=list(assumptions), note=note, budget=budget or {}, na=na)


for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), 'props_*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
