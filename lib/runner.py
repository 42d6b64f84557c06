"""Child process: runs sub-checks of one property (see check.py)."""
import collections, errno, hashlib, importlib, json, os, signal, sys, time, traceback, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')
import pv
import numpy as np
import hypothesis
from hypothesis import settings, HealthCheck, Phase, given, seed as hseed
import hypothesis.errors as herr
import hypothesis.internal.conjecture.engine as _eng

SHRINK_S = 25
if hasattr(_eng, 'MAX_SHRINKING_SECONDS'):
    _eng.MAX_SHRINKING_SECONDS = SHRINK_S
CASE_LIMIT = 100
HISTORY = collections.deque(maxlen=12)      # what this process did before


class Environment(BaseException):
    pass


class BudgetOver(BaseException):
    pass


def load(pid):
    m = importlib.import_module('props.' + pid.lower())
    return m, pv.SUBS


def on_alarm(sig, frm):
    raise pv.Violation('the call did not finish within the case limit (%d s)' % CASE_LIMIT)


def run_case(s, case):
    t = pv.T()
    pv._tmp['n'] = 0
    signal.alarm(CASE_LIMIT)
    try:
        with np.errstate(all='ignore'):
            s.func(json.loads(json.dumps(case)), t)
    except pv.Skip:
        t.labels.append('outside-domain')
        t.nt = False
    except MemoryError as e:
        raise Environment(repr(e))
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT, errno.EAGAIN):
            raise Environment(repr(e))
        raise
    finally:
        signal.alarm(0)
        os.chdir(WORK)
    return t


def fmt_exc(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3500:]


def run_sub(s, tier, seed, statusfd, shard=0):
    """one shard of a sub-check: its own seed, the same number of cases"""
    res = dict(sub=s.name, shard=shard, evaluations=0, distinct_nontrivial=0, samples=[], labels={}, known=[])
    t0 = time.time()
    # seconds of CPU (own and of the programs it starts), so that a busy machine doesn't mean fewer cases; the wall time is limited, too
    budget = s.budget[0 if tier == 'quick' else 1]
    wall = min(2.5 * budget, max(150 if tier == 'quick' else 1200, budget))
    cpu = lambda: sum(os.times()[:4])
    c0 = cpu()
    seen, nts = set(), set()
    state = dict(fail=None, over=False, first=None)
    samples = []

    def one(case):
        js = json.dumps(case, sort_keys=True)
        st = json.dumps(dict(sub=s.name, case=case, t=time.time())).encode()
        os.ftruncate(statusfd, 0)
        os.pwrite(statusfd, st, 0)
        res['evaluations'] += 1
        before = list(HISTORY)
        HISTORY.append([s.name, case])
        try:
            t = run_case(s, case)
        except Exception as e:
            if state['first'] is None:
                state['first'] = [case, before]
            state['fail'] = dict(sub=s.name, case=case, error=fmt_exc(e), first=state['first'])
            raise
        for l in t.labels:
            res['labels'][l] = res['labels'].get(l, 0) + 1
        if t.nt:
            h = hashlib.md5(js.encode()).digest()
            if h not in nts:
                nts.add(h)
                if len(samples) < 3 or (len(samples) < 6 and len(nts) % 37 == 0):
                    samples.append(case)

    try:
        for ex in s.examples if shard == 0 else ():
            one(ex)
        n = 3 * s.quick if tier == "quick" else s.thorough * 4
        dig = hashlib.sha256(('%d:%s%s' % (seed, s.name, '#%d' % shard if shard else '')).encode()).digest()
        hs = int.from_bytes(dig[:8], 'big')

        @hseed(hs)
        @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), print_blob=False,
                  phases=[Phase.generate, Phase.shrink])
        @given(s.strategy)
        def prop(case):
            # out of time: stop generating, but let a shrink in progress finish
            if state['fail'] is None and (cpu() - c0 > budget or time.time() - t0 > wall):
                state['over'] = True
                return
            one(case)
        prop()
    except (Environment, MemoryError) as e:
        res['harness_error'] = repr(e)
    except (herr.Flaky,) as e:
        if state['fail']:
            state['fail']['error'] = 'FLAKY (depends on what ran before)\n' + state['fail']['error']
            res['violation'] = state['fail']
        else:
            res['harness_error'] = fmt_exc(e)
    except herr.HypothesisException as e:
        res['harness_error'] = fmt_exc(e)
    except Exception as e:
        if state['fail']:
            res['violation'] = state['fail']
        else:
            res['harness_error'] = fmt_exc(e)
    res['distinct_nontrivial'] = len(nts)
    res['nt'] = sorted(h.hex() for h in nts)
    res['samples'] = samples
    res['stopped'] = state['over']
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def main():
    global WORK
    WORK = os.getcwd()
    pid, mode = sys.argv[1:3]
    mod, subs = load(pid)
    if mode == 'names':
        print(json.dumps(dict(subs=list(subs), rule=mod.RULE, assumptions=getattr(mod, 'ASSUMPTIONS', []))))
        return 0
    if mode == 'list':
        for s in subs.values():
            print('%-30s quick=%d thorough=%d' % (s.name, s.quick, s.thorough))
        return 0
    signal.signal(signal.SIGALRM, on_alarm)
    if mode == 'replay':
        d = json.load(open(sys.argv[3]))
        for name, case in d.get('before') or []:
            try:
                run_case(subs[name], case)
            except Exception:
                pass
        try:
            run_case(subs[d['sub']], d['case'])
        except Exception as e:
            print(fmt_exc(e))
            return 1
        print('held for this case')
        return 0
    tier, seed, outdir, idx, names = mode, int(sys.argv[3]), sys.argv[4], sys.argv[5], sys.argv[6].split(',')
    WORK = os.path.join(WORK, 'w' + idx)
    os.makedirs(WORK, exist_ok=True)
    os.chdir(WORK)
    fd = os.open(os.path.join(outdir, 'status.' + idx), os.O_RDWR | os.O_CREAT)
    for name in names:
        try:
            os.close(os.open(os.path.join(outdir, 'claim.' + name), os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            continue
        sname, shard = name.split('@')
        res = run_sub(subs[sname], tier, seed, fd, int(shard))
        with open(os.path.join(outdir, 'tmp.' + idx), 'w') as f:
            json.dump(res, f)
        os.rename(os.path.join(outdir, 'tmp.' + idx), os.path.join(outdir, 'sub.' + name))
        os.ftruncate(fd, 0)
    # known findings are probed once
    try:
        os.close(os.open(os.path.join(outdir, 'claim.__known__'), os.O_CREAT | os.O_EXCL))
    except FileExistsError:
        return 0
    known = []
    kf = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl')
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if not line or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d.get('property') != pid:
                continue
            probe = getattr(mod, d['probe'])
            with np.errstate(all='ignore'):
                still = probe()
            if still:
                known.append(d['what'])
    with open(os.path.join(outdir, 'sub.__known__'), 'w') as f:
        json.dump(dict(sub='__known__', known=known), f)
    return 0


if __name__ == '__main__':
    sys.exit(main())
