"""Runner: python3 -m qa.run <property id>

Decides one property from the source of /repo, writes evidence/<id>.json and
prints a VIOLATION line (exit 1) for each unlisted violation.
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


class Check:
    def __init__(self, pid, model, tier):
        self.pid = pid
        self.model = model
        self.tier = tier
        self.obligations = {}       # rule -> list of constructs
        self.violations = []        # dicts
        self.undecided = []
        self.units = {}
        self.samples = []
        self.assumptions = []
        self._floors = []

    def ob(self, rule, construct, ok=True, msg='', where=''):
        """Register an obligation; ok False reports a violation."""
        self.obligations.setdefault(rule, []).append(construct)
        if not ok:
            self.violate(rule, construct, msg, where)
        elif len(self.samples) < 12 and len(self.obligations[rule]) <= 2:
            self.samples.append('{}: {}'.format(rule, construct))
        return ok

    def violate(self, rule, construct, msg, where=''):
        v = dict(rule=rule, construct=construct, message=msg, where=where)
        if not any(x['rule'] == rule and x['construct'] == construct for x in self.violations):
            self.violations.append(v)

    def unknown(self, rule, construct, why):
        self.obligations.setdefault(rule, []).append(construct)
        self.undecided.append(dict(rule=rule, construct=construct, why=why))

    def unit(self, kind, n=1):
        self.units[kind] = self.units.get(kind, 0) + n

    def floor(self, rule, n):
        """At least n obligations of this rule must exist (else analysis broken)."""
        self._floors.append((rule, n))

    def guard(self, rule, construct, fn):
        """Run fn(); an internal limit makes the obligation undecided."""
        from .gvf import Budget
        from .model import AnalysisBroken
        try:
            return fn()
        except AnalysisBroken:
            raise
        except (Budget, RecursionError) as e:
            self.unknown(rule, construct, 'analysis limit: {}'.format(type(e).__name__))
        except Exception as e:
            if os.environ.get('QA_DEBUG'):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unknown(rule, construct, 'internal: {} {} at {}:{}'.format(
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))


def load_known():
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:'):
                    # finding: property=<id> rule=<rule> construct=<construct> :: text
                    head, _, text = line[8:].partition(' :: ')
                    head, _, construct = head.partition(' construct=')
                    d = dict(x.split('=', 1) for x in head.split() if '=' in x)
                    d['construct'] = construct.strip()
                    d['text'] = text.strip()
                    out.append(d)
    return out


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    pid = argv[0]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, HERE)
    from qa.model import Model, AnalysisBroken
    try:
        model = Model()
        mod = importlib.import_module('qa.checks.' + pid)
        c = Check(pid, model, tier)
        mod.check(c)
        for rule, n in c._floors:
            have = len(c.obligations.get(rule, ()))
            if have < n and not c.violations and not c.undecided:
                raise AnalysisBroken('rule {} has {} instances, expected at least {}'.format(rule, have, n))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property={} {}'.format(pid, e))
        return 2
    known = [k for k in load_known() if k.get('property') == pid]
    new, listed = [], []
    for v in c.violations:
        k = [k for k in known if k.get('rule') == v['rule'] and k.get('construct') == v['construct']]
        (listed if k else new).append(v)
    nob = sum(len(v) for v in c.obligations.values())
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    quiet = bool(os.environ.get('QA_NOEVIDENCE'))
    ev = dict(
        property=pid, tier=tier, seed=seed, level='other',
        coverage=dict(
            explanation=(mod.__doc__ or '').strip(),
            modules=len(model.own_modules),
            classes=sum(1 for _ in model.all_classes()),
            functions=sum(1 for _ in model.all_funcs()),
            analysed=c.units,
            obligations=nob,
            discharged=nob - len(c.undecided) - len(c.violations),
            per_rule={k: len(v) for k, v in sorted(c.obligations.items())},
            undecided=c.undecided,
            samples=c.samples,
        ),
        assumptions=c.assumptions,
        wall_s=round(time.time() - t0, 3),
        violations=len(new),
    )
    with open(os.devnull if quiet else os.path.join(HERE, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for v in listed:
        print('KNOWN-FINDING: property={} {} [{} {}] {}'.format(pid, v['message'], v['rule'], v['construct'], v['where']))
    print('{}: {} obligations in {} rules, {} undecided, {} violations, {:.1f}s'.format(
        pid, nob, len(c.obligations), len(c.undecided), len(new), time.time() - t0))
    for u in c.undecided:
        print('  undecided {rule} {construct}: {why}'.format(**u))
    if new:
        path = os.path.join('evidence', pid + '-violations.json')
        with open(os.devnull if quiet else os.path.join(HERE, path), 'w', encoding='utf-8') as f:
            json.dump(new, f, indent=1, ensure_ascii=False)
        for v in new:
            print('  {rule}: {construct}: {message} at {where}'.format(**v))
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
