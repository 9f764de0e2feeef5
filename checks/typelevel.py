"""Type-level witnesses: the interface must accept and reject the documented uses at compile time."""
import os
import re
import subprocess

from .core import Problem, Result

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(path, hard):
    """(name, text, first line, last line) of the cases of one half of the witness file"""
    out = []
    inside = not hard
    for n, l in enumerate(open(path), 1):
        if l.startswith('#else'):
            if out and out[-1][3] is None:
                out[-1][3] = n - 1
            inside = hard
        if l.startswith('#endif'):
            if out and out[-1][3] is None:
                out[-1][3] = n - 1
            inside = False
        m = re.match(r'// CASE ([\w-]+): (.*)', l)
        if m and inside:
            if out and out[-1][3] is None:
                out[-1][3] = n - 1
            out.append([m.group(1), m.group(2).strip(), n, None])
    return out


def diagnose(A, path, hard):
    """error groups: list of (message, file, line, witness lines it is attributed to)"""
    cmd = [A.cxx] + A.cxxflags + ['-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', '-ftemplate-backtrace-limit=0', '-I' + os.path.join(A.repo, 'sources'), path]
    if hard:
        cmd.append('-DVT_HARD')
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    groups = []
    for l in (r.stderr + r.stdout).split('\n'):
        m = re.match(r'(.+?):(\d+):\d+: (fatal error|error|note): (.*)', l)
        if not m:
            continue
        f, n, k, t = m.group(1), int(m.group(2)), m.group(3), m.group(4)
        if k != 'note':
            groups.append([t, f, n, []])
        if groups and os.path.basename(f) == os.path.basename(path):
            groups[-1][3].append(n)
    return r.returncode, groups


class TypeLevel:
    name = 'type-level witnesses'
    needs_program = False

    def __init__(self, only=''):
        self.only = only

    def run(self, A):
        res = Result()
        path = os.path.join(HERE, 'frontend', 'witness.cpp')
        for hard in (False, True):
            cs = cases(path, hard)
            rc, groups = diagnose(A, path, hard)
            used = set()
            for nm, text, lo, hi in cs:
                if self.only not in nm:
                    continue
                res.outcomes += 1
                res.obligations += 1
                mine = [i for i, g in enumerate(groups) if any(lo <= n <= hi for n in g[3])]
                used |= set(mine)
                if hard:
                    if mine:
                        res.discharged += 1
                    else:
                        res.problems.append(Problem(('C26',), 'is accepted by the compiler: %s' % text, nm, ('witness.cpp', lo + 1), 'compile-fail witness %s in frontend/witness.cpp line %d' % (nm, lo + 1)))
                elif not mine:
                    res.discharged += 1
                else:
                    g = groups[mine[0]]
                    p = 'C28' if nm in ('tuple-constexpr', 'tuple-types') else 'C26'
                    res.problems.append(Problem(('C26',) if p == 'C26' else ('C26', 'C28'), 'witness rejected by the compiler (%s): %s' % (text, g[0]), nm, (os.path.basename(g[1]), g[2]), 'frontend/witness.cpp line %d' % g[3][0]))
            if not hard and not self.only:
                for i, g in enumerate(groups):
                    if i not in used:
                        res.problems.append(Problem(('C26',), 'the public headers do not compile: %s' % g[0], 'headers', (os.path.basename(g[1]), g[2]), 'clang -fsyntax-only frontend/witness.cpp'))
        return res
