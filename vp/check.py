"""Runs one check: loads the program, applies the rules of a property, writes the evidence and reports.

Exit status: 0 the property held on everything analysed, 1 a violation (VIOLATION line), 2 no answer.
"""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import facts as factsmod
from .engine import Engine, StepLimit, walk
from .facts import AnalysisError, VERIF

PREFIX = 'src/pyinterp/core/'
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Obligation:
    """One instance of a rule at one construct of the source."""
    __slots__ = ('rule', 'where', 'key', 'what', 'ok', 'detail')

    def __init__(self, rule, where, key, what, ok, detail=''):
        self.rule = rule
        self.where = where
        self.key = key
        self.what = what
        self.ok = ok
        self.detail = detail

    def astuple(self):
        return (self.rule, self.where, self.key, self.what, self.ok, self.detail)


class Ctx:

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obs: dict = {}
        self.functions: set = set()
        self.calls = 0
        self.notes: list[str] = []
        self.assumptions: list[str] = []
        self.roots = 0
        self.notes = []
        self._facts = None
        self.rules: dict[str, str] = {}
        self.minimum: dict[str, int] = {}

    @property
    def facts(self):
        if self._facts is None:
            self._facts = factsmod.load()
        return self._facts

    def rule(self, name, text, minimum=1):
        """Declares a rule; fewer than `minimum` instances means that the check has lost its subject."""
        self.rules[name] = text
        self.minimum[name] = minimum

    def add(self, rule, where, key, what, ok, detail=''):
        if rule not in self.rules:
            raise AnalysisError('undeclared rule ' + rule)
        k = (rule, where, key)
        o = self.obs.get(k)
        if o is None:
            self.obs[k] = Obligation(rule, where, key, what, ok, detail)
        elif o.ok and not ok:
            o.ok = False
            o.what = what
            o.detail = detail

    def merge(self, res):
        obs, functions, calls = res
        for o in obs:
            if o[0].startswith('_'):
                self.notes.append(o)  # an intermediate result of the analysis
            else:
                self.add(*o)
        self.functions |= functions
        self.calls += calls

    def unvisited(self, wanted):
        """Functions that the runs so far have not gone through and whose body has a wanted construct, callers first."""
        seen = {(f, l) for _, f, l in self.functions}
        out = {}
        for fid, fs in self.facts.funcs.items():
            for f in fs:
                if f.get('body') and (f['file'], f['l']) not in seen and any(wanted(n) for n in walk(f['body'])):
                    out.setdefault(fid, []).append(f)
        called = {n['fid'] for fs in out.values() for f in fs for n in walk(f['body']) if n.get('k') == 'Call' and n.get('fid') in out
                  and n['fid'] != f.get('id')}
        return [f for fid, fs in out.items() if fid not in called for f in fs]

    def run(self, make_rule, roots, procs=None):
        """Runs the engine with a fresh rule on every root (in parallel)."""
        roots = list(roots)
        self.roots += len(roots)
        global _JOB
        _JOB = (self.facts, make_rule, roots)
        n = min(procs or os.cpu_count() or 4, max(1, len(roots)))
        if n == 1:
            res = [_work(range(len(roots)))]
        else:
            chunks = [range(i, len(roots), n * 4) for i in range(n * 4)]
            with multiprocessing.get_context('fork').Pool(n) as pool:
                res = pool.map(_work, chunks, chunksize=1)
        for r in res:
            if isinstance(r, str):
                raise AnalysisError(r)
            self.merge(r)


_JOB: tuple = ()


def _work(idx):
    facts, make_rule, roots = _JOB
    obs = []
    functions = set()
    calls = 0
    for i in idx:
        fn = roots[i]
        rule = make_rule()
        rule.obs = []
        eng = Engine(facts, rule)
        try:
            if hasattr(rule, 'start'):
                rule.start(eng, fn)
            else:
                eng.run(fn)
        except StepLimit:
            return f'{fn["q"]}: the analysis does not terminate within its step limit'
        except AnalysisError as e:
            return str(e)
        except Exception:  # noqa: BLE001
            return f'{fn["q"]} ({fn["file"]}:{fn["l"]}): analysis failed\n' + traceback.format_exc()[-1500:]
        functions.add((fn['q'], fn['file'], fn['l']))
        for f in eng.inlined:
            v = facts.funcs.get(f)
            if v:
                functions.add((v[0]['q'], v[0]['file'], v[0]['l']))
        calls += eng.ncalls
        obs.extend(rule.obs)
    return list({(o[0], o[1], o[2], o[4]): o for o in obs}.values()), functions, calls


def known_findings(pid):
    """Keys of the recorded findings of a property: lines `property=<id> rule=<rule> key=<key> | text`."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line or line.startswith('#') or line.startswith('fixed:'):
            continue
        head, _, text = line.partition(' | ')
        parts = dict(p.split('=', 1) for p in head.split(' ', 2) if '=' in p)
        if parts.get('property') == pid:
            out[(parts['rule'], parts['key'])] = text
    return out


def main(argv=None) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--list', action='store_true', help='print every obligation')
    a = ap.parse_args(argv)
    t0 = time.time()
    pid = a.property
    ctx = Ctx(pid, a.tier)
    short = ''
    try:
        mod = importlib.import_module('vp.rules.' + pid.lower())
        mod.check(ctx)
        for r, n in ctx.minimum.items():
            got = sum(1 for o in ctx.obs.values() if o.rule == r)
            if got < n:
                short = (f'rule {r}: {got} instances found, at least {n} expected: the constructs it is about are '
                         'no longer recognised')
        if short and all(o.ok or (o.rule, o.key) in known_findings(pid) for o in ctx.obs.values()):
            raise AnalysisError(short)
    except AnalysisError as e:
        print(f'ERROR property={pid}: {e}')
        return 2
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f'ERROR property={pid}: internal error')
        return 2
    if a.list:
        for o in sorted(ctx.obs.values(), key=lambda o: (o.rule, o.where)):
            print(('ok  ' if o.ok else 'BAD ') + f'{o.rule} {o.where} {o.key}: {o.what} {o.detail}')
    bad = [o for o in ctx.obs.values() if not o.ok]
    known = known_findings(pid)
    new, old = [], {}
    for o in bad:
        k = (o.rule, o.key)
        if k in known:
            old.setdefault(k, o)
        else:
            new.append(o)
    for k, o in old.items():
        print(f'KNOWN-FINDING: property={pid} {known[k]} ({o.where})')
    evid = os.path.join(VERIF, 'evidence')
    os.makedirs(evid, exist_ok=True)
    per_rule = {}
    for o in ctx.obs.values():
        d = per_rule.setdefault(o.rule, {'instances': 0, 'discharged': 0})
        d['instances'] += 1
        d['discharged'] += 1 if o.ok else 0
    samples = {}
    for o in sorted(ctx.obs.values(), key=lambda o: (o.rule, o.where)):
        s = samples.setdefault(o.rule, [])
        if len(s) < 60:
            s.append(f'{o.where} {o.what}'[:220])
    import_counts = getattr(ctx, 'extra', {})
    nf = len(ctx.functions)
    ev = {
        'property': pid,
        'tier': a.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source (resolved C++ program from libTooling for every '
                           'translation unit, Python and stub syntax trees), nothing is executed. Each rule below is '
                           'an obligation decided at every construct of the source it applies to.',
            'rules': ctx.rules,
            'obligations': len(ctx.obs),
            'discharged': len(ctx.obs) - len(bad),
            'per_rule': per_rule,
            'functions_analysed': nf,
            'roots_analysed': ctx.roots,
            'call_sites_evaluated': ctx.calls,
            'instances': samples,
            'known_findings': len(old),
            **import_counts,
        },
        'assumptions': ctx.assumptions or ['Library headers (Eigen, Boost, pybind11, libstdc++) behave as documented.'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    with open(os.path.join(evid, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: {len(ctx.obs)} obligations of {len(ctx.rules)} rules, {len(ctx.obs) - len(bad)} discharged, '
          f'{nf} functions, {time.time() - t0:.1f} s')
    for r, d in sorted(per_rule.items()):
        print(f'  {r}: {d["discharged"]}/{d["instances"]} {ctx.rules[r]}')
    if new:
        rp = os.path.join(evid, pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump([{
                'rule': o.rule, 'rule_text': ctx.rules[o.rule], 'where': o.where, 'key': o.key, 'what': o.what,
                'detail': o.detail
            } for o in new], f, indent=1)
        for o in new:
            print(f'VIOLATION property={pid} replay={rp} rule={o.rule} at {o.where}: {o.what} {o.detail} [key={o.key}]')
        return 1
    rp = os.path.join(evid, pid + '.violations.json')
    if os.path.exists(rp):
        os.unlink(rp)
    return 0


if __name__ == '__main__':
    sys.exit(main())
