"""Check runner: facts -> rule -> evidence, known findings, verdict."""
import importlib, json, os, subprocess, sys, time, traceback
from .facts import Facts

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known-findings.txt')


class NoAnswer(Exception):
    pass


class Cx:
    def __init__(s, pid, tier):
        s.pid, s.tier = pid, tier
        s.obs = []          # (key, ok, msg, where)
        s.keys = set()
        s.fnset = set()
        s.extra = {}
        s._F = {}
        s.notes = []
        s.undecided = []

    def facts(s, conf='default'):
        if conf not in s._F:
            d = os.environ.get('VERIF_FACTS_' + conf.upper())
            if not d:
                p = subprocess.run([os.path.join(HERE, 'extract.sh'), conf], stdout=subprocess.PIPE, text=True)
                if p.returncode != 0:
                    raise NoAnswer('fact extraction failed (does /repo build?)')
                d = p.stdout.strip().split('\n')[-1]
            s._F[conf] = Facts(d)
        return s._F[conf]

    @property
    def F(s):
        return s.facts('default')

    @property
    def NF(s):
        return s.facts('nodefault')

    def ob(s, key, ok, msg, where=''):
        """one obligation.  key: stable identity of the construct judged"""
        k = key
        n = 2
        while k in s.keys:
            k = '%s#%d' % (key, n)
            n += 1
        s.keys.add(k)
        s.obs.append((k, bool(ok), msg, where))
        return ok

    def undec(s, key, msg, where=''):
        """an obligation this analysis cannot settle on the tree at hand (reported, not judged)"""
        s.undecided.append((key, msg, where))

    def analysed(s, fn):
        s.fnset.add(fn.name if hasattr(fn, 'name') else str(fn))

    def note(s, m):
        s.notes.append(m)


def known_findings(pid):
    out = {}
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, desc = rest.partition(' :: ')
                out[key.strip()[len('key='):]] = desc.strip()
    except FileNotFoundError:
        pass
    return out


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    cx = Cx(pid, tier)
    try:
        mod = importlib.import_module('va.rules.' + pid.lower())
        mod.run(cx)
    except NoAnswer as e:
        print('NO ANSWER: %s' % e)
        return 3
    except Exception:
        traceback.print_exc()
        print('NO ANSWER: internal error of the check')
        return 4
    kn = known_findings(pid)
    bad = [o for o in cx.obs if not o[1]]
    new = [o for o in bad if o[0] not in kn]
    old = [o for o in bad if o[0] in kn]
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLAIN.strip(),
            'obligations': len(cx.obs),
            'discharged': len(cx.obs) - len(bad),
            'undecided': [{'obligation': o[0], 'detail': o[1], 'at': o[2]} for o in cx.undecided[:40]],
            'known_findings': [o[0] for o in old],
            'functions_analysed': len(cx.fnset),
            'functions_sample': sorted(cx.fnset)[:60],
            'samples': [{'obligation': o[0], 'holds': o[1], 'detail': o[2], 'at': o[3]} for o in cx.obs[:40]],
            'notes': cx.notes[:60],
            **cx.extra,
        },
        'assumptions': getattr(mod, 'ASSUME', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for o in cx.undecided[:20]:
        print('UNDECIDED %s at %s: %s' % (o[0], o[2], o[1]))
    for o in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, o[0], kn[o[0]] or o[2]))
    print('%s: %d obligations, %d hold, %d known findings, %d functions, %.1fs' % (pid, len(cx.obs), len(cx.obs) - len(bad), len(old), len(cx.fnset), time.time() - t0))
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for o in new:
                f.write('%s\n  at %s\n  %s\n' % (o[0], o[3], o[2]))
        for o in new[:25]:
            print('  %s at %s: %s' % (o[0], o[3], o[2]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
