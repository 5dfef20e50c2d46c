#!/usr/bin/env python3
"""check.py PROP TIER: run the deductive check of one property on /repo's working tree, write its evidence, report."""
import json, os, re, subprocess, sys, time, tempfile, shutil, datetime

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def goenv():
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             GOROOT='/opt/veriftools/go1.24.13', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='', GOWORK=REPO + '/go.work',
             GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', TMPDIR='/tmp')
    return e


def run_harness(prop, conf, mode, seed, tier):
    """Runs the contract-directed search of a property against the real code. Returns (found, stats, text)."""
    found, stats, text = [], {}, ''
    for h in conf.get('harness', []):
        pkgdir = os.path.normpath(os.path.join(REPO, h['pkg']))
        rep = {}
        for f in h['files']:
            rep[os.path.join(pkgdir, os.path.basename(f).replace('.go.txt', '_test.go'))] = os.path.join(V, 'replay', f)
        with tempfile.TemporaryDirectory(prefix='vharness') as td:
            for f in h['files']:
                if f.startswith('common/'):  # shared helpers, compiled into the package under test
                    g = os.path.join(td, os.path.basename(f))
                    open(g, 'w').write(open(os.path.join(V, 'replay', f)).read().replace('package PKG', 'package ' + h['package'], 1))
                    rep[os.path.join(pkgdir, os.path.basename(f).replace('.go.txt', '_test.go'))] = g
            ov = os.path.join(td, 'overlay.json')
            json.dump({'Replace': rep}, open(ov, 'w'))
            e = goenv()
            e['VERIF_MODE'], e['VERIF_SEED'], e['VERIF_TIER'] = mode, str(seed), tier
            e['VERIF_SCRATCH'] = td
            lim = h.get('timeout', 150)
            cmd = ['go', 'test', '-vet=off', '-overlay', ov, '-run', h['run'], '-count=1', '-timeout', '%ds' % lim, '-v', '.']
            try:
                p = subprocess.run(cmd, cwd=pkgdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=lim + 90, text=True, errors='replace')
                out, rc = p.stdout, p.returncode
            except subprocess.TimeoutExpired as x:
                out, rc = (x.stdout or b'').decode('utf8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'
        text += '$ (cd %s; %s)\n%s\n' % (pkgdir, ' '.join(cmd), out[-20000:])
        for l in out.splitlines():
            m = re.search(r'FAILING-INPUT: (.*)', l)
            if m and len(found) < 20:
                found.append(m.group(1))
            m = re.search(r'HARNESS-STATS: (\w+)=(\d+)', l)
            if m:
                stats[m.group(1)] = stats.get(m.group(1), 0) + int(m.group(2))
        if rc not in (0, 1) or (rc == 1 and not found):
            stats['harness_error'] = '%s: rc=%s' % (h['run'], rc)
            if rc == 1 and re.search(r'panic: test timed out', out):
                stats['harness_error'] += ' (timed out)'
    return found, stats, text


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    conf = json.load(open(os.path.join(V, 'props.json'))).get(prop, {})
    r = subprocess.run([os.path.join(V, 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print('cannot build the verifier:\n' + r.stdout)
        return 2
    ev = os.path.join(V, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    out = os.path.join(ev, 'replay', prop + '.obligations.json')
    args = [os.path.join(V, '.build', 'govc'), '-repo', REPO, '-specs', os.path.join(V, 'contracts'), '-prop', prop, '-tier', tier, '-seed', str(seed), '-out', out]
    if tier == 'thorough':
        args += ['-timeout', '60', '-budget', '600', '-maxfails', '20', '-smoke']
    else:
        args += ['-timeout', str(conf.get('timeout', 15)), '-budget', str(conf.get('budget', 240))]
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.run(args, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(p.stdout, end='')
    if not os.path.exists(out):
        print('the verifier gave no report (exit %d)' % p.returncode)
        return 2
    rep = json.load(open(out))
    known = json.load(open(os.path.join(V, 'known-findings.json')))
    failures = list(rep.get('failures') or [])
    kf = []
    rest = []
    for f in failures:
        m = [k for k in known['findings'] if k['property'] == prop and k.get('function') == f['Function'] and k.get('kind') == f['Kind']
             and re.search(k.get('desc', ''), f['Desc'])]
        (kf if m else rest).append((f, m))
    for k in known['findings']:
        if k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    failures = [f for f, _ in rest]
    # bounded stand-ins always run; the search for a failing input runs only when an obligation failed
    hres = None
    bounded = conf.get('bounded')
    if failures or bounded:
        hres = run_harness(prop, conf, 'search' if failures else 'bounded', seed, tier)
    if failures and not (hres and hres[0]) and tier != 'thorough' and time.time() - t0 < 330:
        # no failing input: let the solvers try the whole proof once more with larger limits before it is called a violation
        args2 = list(args)
        args2[args2.index('-timeout') + 1] = '45'
        args2[args2.index('-budget') + 1] = '350'
        left = 830 - (time.time() - t0)
        try:
            os.unlink(out)
            p = subprocess.run(args2, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left)
            rep2 = json.load(open(out))
            if not rep2.get('failures'):
                print('second attempt with larger solver limits:\n' + p.stdout, end='')
                rep, args, failures = rep2, args2, []
        except (subprocess.TimeoutExpired, OSError, ValueError):
            json.dump(rep, open(out, 'w'))
    violation = bool(failures) or bool(hres and hres[0])
    obl, dis = rep['obligations'], rep['discharged']
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': ' '.join(args),
        'trusted_base': ['govc (this VC generator: Go SSA semantics, memory model, SMT encoding)', 'golang.org/x/tools/go/ssa', 'z3 5.3.2 / cvc5 1.1.2', 'the Go 1.24 compiler and runtime'],
        'functions_under_contract': [{k: f[k] for k in ('function', 'source', 'obligations', 'discharged', 'paths', 'solver_queries', 'solver_s', 'status') if k in f} for f in rep['functions'] or []],
        'obligations_by_backend': rep['by_backend'], 'obligations_by_kind': rep['by_kind'],
        'functions_inlined_into_callers': rep.get('functions_inlined') or [],
        'solver_seconds': rep['solver_s'],
        'helper_contracts_not_used': rep.get('helper_contracts_not_used') or [],
    }
    if rep.get('smoke'):
        cov['vacuity_checks'] = rep['smoke']
    if bounded and hres:
        cov['bounded_stand_ins'] = {'what': bounded, 'counts': hres[1], 'label': 'bounded: not counted as proved'}
    assumptions = list(conf.get('assumptions', [])) + ['extern contract assumed: ' + e for e in rep.get('extern_contracts_assumed') or []] + \
        ['axiom assumed: ' + a for a in rep.get('axioms_assumed') or []] + [
            'floating-point values are bit patterns; arithmetic on them is uninterpreted',
            'slices, strings and maps hold fewer than 2^48 elements; no allocation fails',
            'pointers read from memory or parameters point to whole objects (no pointers into the middle of another object)',
            'single goroutine: data races are outside the contracts']
    viol = []
    lines = []
    if violation:
        path = os.path.join(ev, 'replay', prop + '.txt')
        with open(path, 'w') as f:
            f.write('property %s, %s, tier %s, seed %d\n' % (prop, time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime()), tier, seed))
            for x in failures:
                f.write('\nFAILED OBLIGATION %s [%s] at %s\n  %s\n  verifier output: %s\n' % (x['Function'], x['Kind'], x['Pos'], x['Desc'], x['Detail'][:6000]))
            if hres:
                f.write('\nsearch for a failing input against the real code: %s\n' % json.dumps(hres[1]))
                for x in hres[0]:
                    f.write('FAILING-INPUT: %s\n' % x)
                f.write('\n' + hres[2])
        nff = '' if hres and hres[0] else ' no-failing-input-found'
        for x in (hres[0] if hres else [])[:3]:
            print('failing input: ' + x[:500])
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, nff))
        viol = ['%s [%s] %s: %s' % (x['Function'], x['Kind'], x['Pos'], x['Desc']) for x in failures] + ['input: ' + x for x in (hres[0] if hres else [])]
    evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': conf.get('level', 'proof'), 'coverage': cov, 'assumptions': assumptions,
           'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if viol:
        cov['violation_list'] = viol
    json.dump(evd, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    for l in lines:
        print(l)
    return 1 if violation else 0


if __name__ == '__main__':
    sys.exit(main())
