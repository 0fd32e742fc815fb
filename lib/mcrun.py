"""Common driver: runs shards of a harness (or Python case enumerations), replays
failures, applies the known-findings file, writes evidence."""
import json, os, subprocess, sys, time, struct, shutil, tempfile, hashlib
import mcbuild
VERIF = mcbuild.VERIF
NPROC = min(8, os.cpu_count() or 8)


class Reporter:
    def __init__(self, prop, tier, level, spec):
        self.prop, self.tier, self.level, self.spec = prop, tier, level, spec
        self.t0 = time.time()
        self.counters = {}
        self.outcomes = set()
        self.samples = []
        self.fails = []     # dict(key,msg,desc,replay(callable or None), part)
        self.capped = False
        self.errors = []
        self.parts = {}

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def known(self):
        p = os.path.join(VERIF, 'known', 'findings.json')
        return [f for f in json.load(open(p)) if f['property'] == self.prop and f.get('status') == 'known']

    def finish(self):
        known = self.known()
        kkeys = {}
        for f in known:
            for k in f['keys']:
                kkeys[k] = f
        seen_known = {}
        viol = []
        for f in self.fails:
            if f['key'] in kkeys:
                seen_known.setdefault(kkeys[f['key']]['id'], f)
            else:
                viol.append(f)
        for f in known:
            if f['id'] in seen_known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        cov = dict(self.counters)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
              'level': self.level, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(viol)}
        cov['evaluations'] = int(cov.get('evaluations', cov.get('cases', 0)))
        cov['distinct_nontrivial'] = len(self.outcomes)
        cov['rule'] = self.spec['rule']
        cov['samples'] = self.samples[:6]
        cov['exhaustive'] = (not self.capped) and not self.errors
        cov['parts'] = self.parts
        if self.level == 'model_checking':
            for k in ('states', 'transitions', 'traces_validated_against_impl'):
                cov.setdefault(k, 0)
        ev['coverage'] = cov
        ev['assumptions'] = self.spec.get('assumptions', [])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1, sort_keys=True)
        if self.capped:
            print('note: a time cap was hit; see evidence (exhaustive=false)')
        print('%s %s: %s; distinct outcomes %d; wall %.1fs' % (self.prop, self.tier, ', '.join(
            '%s=%d' % kv for kv in sorted(self.counters.items())), len(self.outcomes), time.time() - self.t0))
        if viol:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            shown = set()
            for f in viol:
                if f['key'] in shown and len(shown) >= 1 and len(viol) > 5:
                    continue
                shown.add(f['key'])
                name = '%s-%s.json' % (self.prop, hashlib.sha256((f['key'] + f['desc']).encode()).hexdigest()[:12])
                path = os.path.join(rd, name)
                with open(path, 'w') as fp:
                    json.dump({k: v for k, v in f.items() if k != 'replay'}, fp, indent=1)
                print('  key=%s case=%s\n  %s\n  %s' % (f['key'], f.get('case'), f['msg'][:1500], f['desc'][:1500]))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                if len(shown) >= 5:
                    break
            sys.stdout.flush()
            return 1
        if self.errors:
            for e in self.errors:
                print('ERROR: ' + e)
            return 2
        return 0


def scratch():
    d = os.path.join(VERIF, 'build', 'run')
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(dir=d)


def run_harness(rep, name, variant='plain', budget=600, limit=20, extra_env=None, args=(), part=None, build_extra=()):
    """all shards of one harness; merges into rep."""
    exe = mcbuild.build_harness(name, variant, extra=build_extra)
    env = dict(os.environ, LC_ALL='C',
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:quarantine_size_mb=4:thread_local_quarantine_size_kb=64:malloc_context_size=4',
               UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1', MC_ROOT=mcbuild.build_tree(variant))
    env['MC_KNOWN'] = '\n'.join(sorted({k for f in rep.known() for k in f['keys']}))
    if extra_env:
        env.update(extra_env)
    tmp = scratch()
    try:
        procs = []
        for s in range(NPROC):
            wd = os.path.join(tmp, 'w%d' % s)
            os.makedirs(wd)
            cmd = [exe, '--tier', rep.tier, '--shard', '%d/%d' % (s, NPROC), '--out', os.path.join(tmp, 's%d' % s),
                   '--budget', str(budget), '--limit', str(limit)] + list(args)
            procs.append(subprocess.Popen(cmd, cwd=wd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
        fails = []
        pcnt = {}
        for s, p in enumerate(procs):
            o, e = p.communicate()
            base = os.path.join(tmp, 's%d' % s)
            if p.returncode != 0 or not os.path.exists(base + '.json'):
                rep.errors.append('%s shard %d: rc=%s %s' % (name, s, p.returncode, e.decode(errors='replace')[-2000:]))
                continue
            j = json.load(open(base + '.json'))
            rep.capped = rep.capped or bool(j['capped'])
            rep.count('cases', j['ran'])
            pcnt['cases'] = pcnt.get('cases', 0) + j['ran']
            for k, v in j['counters'].items():
                rep.count(k, v)
                pcnt[k] = pcnt.get(k, 0) + v
            for line in open(base + '.events', errors='replace'):
                try:
                    ev = json.loads(line)
                except ValueError:
                    continue
                if ev['kind'] == 'fail':
                    fails.append(ev)
                elif len(rep.samples) < 12:
                    rep.samples.append(ev['text'])
            hp = base + '.hash'
            if os.path.exists(hp):
                data = open(hp, 'rb').read()
                rep.outcomes.update(struct.unpack('<%dQ' % (len(data) // 8), data))
        rep.parts[part or name] = pcnt
        # replay before report: each distinct key, alone, in a fresh process
        fails.sort(key=lambda f: f['case'])
        bykey = {}
        for f in fails:
            bykey.setdefault(f['key'], []).append(f)
        listed = {k for f in rep.known() for k in f['keys']}
        confirmedNew = 0
        for key, fl in sorted(bykey.items(), key=lambda kv: (kv[0] not in listed, kv[1][0]['case'], kv[0])):
            if key not in listed and confirmedNew >= 8:
                break           # enough to report
            confirmed = passed = False
            for f in fl[:3]:
                for attempt in range(2):
                    ro = os.path.join(tmp, 'replay')
                    wd = os.path.join(tmp, 'wr')
                    shutil.rmtree(wd, ignore_errors=True)
                    os.makedirs(wd)
                    rc = None
                    try:
                        rc = subprocess.run([exe, '--tier', rep.tier, '--only', str(f['case']), '--out', ro, '--limit', str(limit * 2)] + list(args),
                                       cwd=wd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=limit * 3 + 30).returncode
                    except subprocess.TimeoutExpired:
                        pass
                    got = []
                    if os.path.exists(ro + '.events'):
                        for line in open(ro + '.events', errors='replace'):
                            try:
                                ev = json.loads(line)
                            except ValueError:
                                continue
                            if ev['kind'] == 'fail':
                                got.append(ev)
                        os.unlink(ro + '.events')
                    # the same case may fail in another way when it runs alone
                    same = [g for g in got if g['key'] == key] or [g for g in got if g['key'] not in listed and key not in listed]
                    if rc == 0 and not got and key == 'died' and 'time limit' in f['msg']:
                        passed = True       # slow only because of load: explored to its end now
                        break
                    if same:
                        confirmed = True
                        f = dict(f, msg=same[0]['msg'], key=same[0]['key'])
                        break
                if passed:
                    continue
                if confirmed:
                    f = dict(f, harness=name, variant=variant, tier=rep.tier,
                             replay_cmd='bin/mc replay %s <this file>' % rep.prop)
                    rep.fails.append(f)
                    break
            if confirmed and key not in listed:
                confirmedNew += 1
            if not confirmed and not passed:
                rep.errors.append('failure key=%s case=%s of %s did not replay: %s' % (key, fl[0]['case'], name, fl[0]['msg'][:500]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
