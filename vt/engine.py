"""
The check engine. A check consists of

  * models    finite TLA+ models, explored exhaustively by TLC: the properties
              are invariants / action properties of the specification, and the
              behaviours TLC finds (printed as @@CASE@@ lines) become cases
  * parts     a set of cases that are run on the real code; every observation
              is turned into a trace and TLC decides whether that trace is a
              behaviour of the specification

A failing trace is a VIOLATION unless the known-findings file lists it.
"""

import argparse
import json
import os
import random
import re
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from vt import core
from vt.core import MachineryError, SPEC


class Model:
    def __init__(self, module, cfg=None, *, quick=True, actions=(), min_states=2, args=(), env=None, timeout=700,
                 must=()):
        self.module = module
        self.cfg = cfg or module
        self.quick = quick
        self.actions = actions
        self.min_states = min_states
        self.args = args
        self.env = env
        self.timeout = timeout
        # (name, predicate on one CASE value): some explored behaviour has to satisfy it
        self.must = must


class Part:
    """
    cases(ctx)       -> list of cases; a case has at least 'driver' and 'tag'
    trace(case, obs) -> list of events (dicts), or {'ev': events, ...}
    """

    def __init__(self, name, module, cases, trace, *, env=None):
        self.name = name
        self.module = module
        self.cases = cases
        self.trace = trace
        self.env = env


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.quick = tier == 'quick'
        self.seed = seed
        self.mc = {}             # printed CASE values per model

    def rng(self, *salt):
        return random.Random(f'{self.seed}/{self.prop}/' + '/'.join(map(str, salt)))

    def pick(self, n_quick, n_thorough):
        return n_quick if self.quick else n_thorough


def run_models(check, ctx, stats):
    for m in check.models:
        if ctx.quick and not m.quick:
            continue
        cfg = (SPEC / f'{m.cfg}.cfg').read_text()
        # one worker wherever the order of exploration shows in what is printed
        workers = 1 if '-simulate' in m.args or m.cfg.endswith('_gen') else None
        r = core.cached(lambda: core.tlc(m.module, cfg, coverage=bool(m.actions), args=m.args, env=m.env, workers=workers, timeout=m.timeout),
                        m.module, cfg, m.args, m.env)
        if not r.ok:
            raise MachineryError(f'the model {m.cfg} does not satisfy its properties (rc={r.rc}):\n' + r.out[-4000:])
        if r.distinct < m.min_states:
            raise MachineryError(f'the model {m.cfg} has only {r.distinct} states')
        missing = [a for a in m.actions if not r.actions.get(a)]
        if missing:
            raise MachineryError(f'actions never taken in {m.cfg}: {missing} (have {r.actions})')
        stats['states'] += r.distinct
        stats['transitions'] += r.generated
        stats['models'].append({'model': m.cfg, 'distinct': r.distinct, 'generated': r.generated,
                                'depth': r.depth, 'wall_s': round(r.wall, 1),
                                'actions': r.actions})
        for name, pred in m.must:
            if not any(pred(x) for x in r.tagged('CASE')):
                raise MachineryError(f'no behaviour of {m.cfg} shows "{name}"')
        ctx.mc[m.cfg] = sorted(r.tagged('CASE'), key=lambda x: json.dumps(x, sort_keys=True))


def known(findings, part, case, clauses):
    for k in findings:
        if k.get('part') == part and re.fullmatch(k['tag'], case['tag']) and set(clauses) <= set(k['clauses']):
            return k
    return None


def main(check):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--part')
    ap.add_argument('--no-models', action='store_true')
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = check.prop
    t0 = time.time()
    try:
        rc = _main(check, args, seed, prop, t0)
    except MachineryError as e:
        print(f'ERROR: {e}', file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


def _main(check, args, seed, prop, t0):
    build = core.Build()
    classes = ThreadPoolExecutor(1).submit(core.java_classes)
    ctx = Ctx(prop, args.tier, seed)
    stats = {'states': 0, 'transitions': 0, 'models': []}
    classes.result()

    parts = [p for p in check.parts if not args.part or p.name == args.part]
    if args.replay:
        rep = json.loads(open(args.replay).read())
        ctx.tier = rep.get('tier', ctx.tier)
        parts = [p for p in check.parts if p.name == rep['part']]
        work = [(parts[0], [rep['case']])]
    else:
        if not args.no_models:
            run_models(check, ctx, stats)
        work = [(p, p.cases(ctx)) for p in parts]

    for p, cases in work:
        if not cases:
            raise MachineryError(f'part {p.name} has no cases')
    t1 = time.time()
    flat = [c for _, cases in work for c in cases]
    obs = core.run_cases(build, flat)
    t2 = time.time()

    jobs = []
    k = 0
    for p, cases in work:
        o = obs[k:k+len(cases)]
        k += len(cases)
        traces = []
        for c, x in zip(cases, o):
            t = p.trace(c, x)
            # a list of events, or a dictionary with further fields the specification reads
            traces.append({'id': core.sha(c), 'tag': c['tag'], **(t if isinstance(t, dict) else {'ev': t})})
        jobs.append((p, cases, o, traces))
    with ThreadPoolExecutor(3) as ex:
        res = list(ex.map(lambda j: core.validate(j[0].module, j[3], env=j[0].env, label=j[0].name), jobs))
    t3 = time.time()

    findings = core.known_findings(prop)
    accepted = events = violations = 0
    seen_known = {}
    printed = 0
    part_stats = []
    for (p, cases, o, traces), v in zip(jobs, res):
        accepted += v.accepted
        events += v.events
        stats['states'] += v.states
        stats['transitions'] += v.generated
        nknown = 0
        for i, line, clauses, detail in v.failures:
            kf = known(findings, p.name, cases[i], clauses)
            if kf:
                nknown += 1
                seen_known.setdefault(kf['what'], 0)
                seen_known[kf['what']] += 1
                continue
            violations += 1
            d = core.OUT / 'replays'
            d.mkdir(parents=True, exist_ok=True)
            path = d / f'{prop}_{p.name}_{core.sha(cases[i])}.json'
            path.write_text(json.dumps({'property': prop, 'part': p.name, 'tier': args.tier, 'seed': seed,
                                        'case': cases[i], 'event': line, 'clauses': clauses, 'detail': detail,
                                        'observation': o[i] if len(json.dumps(o[i])) < 200000 else None},
                                       indent=1))
            if printed < 6:
                printed += 1
                print(f'VIOLATION property={prop} replay={path}')
                print(f'  part={p.name} case="{cases[i]["tag"]}" event={line} clauses={",".join(map(str, clauses))} '
                      f'detail={json.dumps(detail)[:300]}')
                if isinstance(o[i], dict) and o[i].get('kind') in ('raise', 'crash', 'hang'):
                    print('  ' + json.dumps({k: o[i].get(k) for k in ('kind', 'type', 'msg')})[:500])
        part_stats.append({'part': p.name, 'spec': p.module, 'traces': len(traces), 'accepted': v.accepted,
                           'events': v.events, 'known': nknown})
    for what, n in seen_known.items():
        print(f'KNOWN-FINDING: property={prop} {what} ({n} case(s))')

    if args.replay or args.part:
        print(f'{prop}: {len(flat)} case(s), {violations} violation(s)')
        return 1 if violations else 0

    # Fewer accepted traces than cases without any report would be a vacuous pass
    if not violations and accepted + sum(s['known'] for s in part_stats) < len(flat):
        raise MachineryError(f'only {accepted} of {len(flat)} traces were decided')
    samples = []
    for (p, cases, o, traces) in jobs:
        for c in cases[:2]:
            s = {'part': p.name, 'case': c}
            if len(json.dumps(s)) > 4000:
                s = {'part': p.name, 'tag': c['tag'], 'driver': c['driver']}
            samples.append(s)
    cov = {
        'states': stats['states'], 'transitions': stats['transitions'],
        'traces_validated_against_impl': accepted,
        'trace_events': events,
        'models': stats['models'], 'parts': part_stats,
        'samples': samples[:8],
        'timing_s': {'models': round(t1-t0, 1), 'code': round(t2-t1, 1), 'validation': round(t3-t2, 1)},
    }
    core.write_evidence(prop, args.tier, seed, check.level, cov, check.assumptions, time.time()-t0, violations)
    print(f'{prop} [{args.tier}]: {stats["states"]} states, {accepted}/{len(flat)} traces accepted, '
          f'{violations} violation(s), {time.time()-t0:.1f} s '
          f'(models {t1-t0:.1f}, code {t2-t1:.1f}, validation {t3-t2:.1f})')
    return 1 if violations else 0


class Check:
    prop = None
    level = 'model_checking'
    models = ()
    parts = ()
    assumptions = ()
