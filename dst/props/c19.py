'''C19: changing the passphrase or restoring the master key never locks the user out.'''

from .. import gen as G
from .. import scen, tree
from .. import damage as D
from ..core import Violation
from ..world import PASS

PROP = 'C19'
RUNS = {'quick': 240, 'thorough': 8000}
RULE = ('One run: an encrypted file system with generated content; a chain of s3qladm passphrase and '
        's3qladm recover-key (the latter also after the stored master key was lost or damaged), each '
        'killed at generated instants and hit by temporary or permanent request failures. From every '
        'state reached: the old or the new passphrase mounts the file system and reads everything '
        'back, or, where the stored key was destroyed first, recover-key with the printed master key '
        'brings it back. After success exactly the new passphrase works, for every stored copy.')
NOTE = ('Real s3qladm, mount.s3ql and encryption code. Permanent failures are injected into single '
        'requests of the command; kills are numbered simulator events or n source lines after one. '
        'Passphrases come from a fixed list of awkward strings.')

WORDS = ['a', 'sesame', 'p\u00e4ssw\u00f6rd \u20ac', 'with blanks in it', 'x' * 900, 'semi;colon#hash=eq: y',
         '"quoted"', "50%", '0', 'None', '\u65e5\u672c', '[x]']
KINDS = [('applied', 6), ('req', 10), ('apply', 8), ('thread', 6)]


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=2, dirs=['d0'])
    c = G.cfg(rng, plain=False, lat=rng.choice(([0.0], [0.0, 0.01, 0.2], [0.05, 0.5])))
    steps = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        kind = rng.choice(('passphrase', 'passphrase', 'recover-key'))
        s = {'kind': kind, 'new': rng.choice(WORDS), 'crash': G.crash_points(rng, rng.choice((1, 2, 3)), KINDS, 60),
             'faults': G.temp_faults(rng), 'other': rng.random() < 0.4}
        if rng.random() < 0.35:
            s['faults'] = {'rules': [{'kind': 'put', 'prefix': 's3ql_passphrase', 'nth': rng.choice((1, 1, 2, 3, 4)),
                                      'fault': {'kind': rng.choice(('perm', 'permlost'))}}]}
        if kind == 'recover-key':
            s['how'] = rng.choice(('none', 'lose', 'flip', 'truncate', 'empty', 'plaintext', 'nometa', 'foreign'))
            s['copies'] = rng.choice((1, 4))
            s['seed'] = rng.randrange(1 << 30)
            s['typo'] = rng.random() < 0.15
            s['group'] = rng.choice((4, 4, 44, 1))
        steps.append(s)
    return {'cfg': c, 'setup': G.setup_ops(rng, g, 0.8, 0.5), 'steps': steps}


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        scen.work(run, [plan['setup']], 'setup', lat=[0.0])
        passes = [PASS]
        for i, s in enumerate(plan['steps']):
            passes = step(run, plan, i, s, passes)
        return run.stats
    finally:
        run.close()


def use(run, word):
    '''Make *word* the passphrase the user supplies; returns what to type'''
    run.passphrase = word
    run.write_auth()
    if '%' in word:
        import os
        with open(os.path.join(run.dir, 'auth'), 'w') as fh:
            fh.write('[x]\nstorage-url: sim://\n')
        return word + '\n'
    return ''


def opens(run, word, sid, broken=False):
    '''Whether *word* opens the file system (which must then be intact)'''
    keep = run.save()
    stdin = use(run, word)
    res = run.mount([], dump=True, lat=[0.0], salt=sid, stdin=stdin, allow_exc=broken)
    if broken and res.exc_type == 'CorruptedObjectError':
        pass
    elif res.rc == 0:
        tree.compare_exact(keep[1], res.dump, 'changed')
    elif res.rc == 31 and 'needs' in res.err:
        raise Violation('needs-fsck', 'file system needs fsck')
    elif res.rc not in (17, 32):
        raise Violation('exit-status', 'mount with a passphrase: exit status %s' % res.rc,
                        stderr=res.err[-1500:])
    run.model = keep[1]
    return res.rc == 0


def copies(run, word, sid):
    '''For each stored copy of the master key, whether *word* opens it'''
    def func(run_, sim, spec, d):
        import trio
        from s3ql.authinfo import Authinfo, CompressSpec
        from s3ql.backends import open_raw_backend
        from s3ql.backends.common import CorruptedObjectError, NoSuchObject
        from s3ql.backends.comprenc import AsyncComprencBackend

        async def main():
            raw = await open_raw_backend('sim://', Authinfo())
            b = await AsyncComprencBackend.create(word.encode('utf-8'), CompressSpec.parse('none'), raw)
            out = {}
            for k in ('s3ql_passphrase', 's3ql_passphrase_bak1', 's3ql_passphrase_bak2', 's3ql_passphrase_bak3'):
                try:
                    out[k] = bytes((await b.fetch(k))[0])
                except (CorruptedObjectError, NoSuchObject) as exc:
                    out[k] = None
            return out

        d['dump'] = trio.run(main)
    return run.inc('adm', [], func=func, salt=sid, lat=[0.0]).dump


def step(run, plan, i, s, passes):
    '''Returns the passphrases of which one must work now'''
    new = s['new']
    old = list(passes)
    sid = 's%d' % i
    broken = False
    if s['kind'] == 'passphrase':
        word = next((w for w in old if opens(run, w, sid + 'o%d' % old.index(w))), None)
        if word is None:
            raise Violation('locked-out', 'none of the possible passphrases works: %s' % old)
        old = [word]
        stdin = use(run, word) + new + '\n'
        args = dict(action='passphrase')
    else:
        if s['how'] != 'none':
            keys = run.store.keys('s3ql_passphrase')[: s['copies']]
            for k in keys:
                others = [k] + [x for x in run.store.keys() if x != k]
                hit = D.damage(run.store, {'obj': 0, 'how': s['how'], 'seed': s['seed'], 'other': 3}, keys=others)
                run.stats['fired']['key-' + s['how']] = (
                    run.stats['fired'].get('key-' + s['how'], 0) + (hit is not None))
            broken = True
        key = run.master_key
        raw = ''.join(key.split())
        if s['typo']:
            n = s['seed'] % len(raw)
            bad = raw[:n] + raw[n + 1:]
            keep = run.store.clone()
            res = run.adm('recover-key', stdin=bad + '\n' + new + '\n', salt=sid + 'typo')
            same = {k: o.data for k, o in keep.objects.items()} == {
                k: o.data for k, o in run.store.objects.items()}
            if res.rc == 0 or not same:
                raise Violation('typo', 'a malformed master key was accepted (exit status %s)' % res.rc)
        text = ' '.join(raw[j:j + s['group']] for j in range(0, len(raw), s['group']))
        use(run, old[0])
        stdin = text + '\n' + new + '\n'
        args = dict(action='recover-key')
    here = run.machine
    if s['other']:
        run.machine = 'adm%d' % i
    model = run.save()[1]
    res = run.adm(args['action'], stdin=stdin, salt=sid + 'adm', crash=s['crash'], faults=s['faults'],
                  allow_exc=True, died=True)
    run.model = model
    failed = any(f[1]['kind'].startswith('perm') for f in res.fault_log)
    run.machine = here
    done = run.save()
    for sn in res.snaps:
        run.enter_snapshot(sn)
        run.model = model
        run.stats['probes']['killed'] = run.stats['probes'].get('killed', 0) + 1
        state(run, sid + 'k%d' % sn['id'], old, new, broken)
    run.load(done)
    if failed:
        run.stats['probes']['failed'] = run.stats['probes'].get('failed', 0) + 1
        if res.rc == 0:
            raise Violation('exit-status', 'success was reported although a request failed')
        return state(run, sid + 'f', old, new, broken)
    if res.rc != 0:
        raise Violation('exit-status', 's3qladm %s: exit status %s' % (args['action'], res.rc),
                        stderr=res.err[-1500:])
    if not opens(run, new, sid + 'n'):
        raise Violation('locked-out', 'the new passphrase does not work')
    got = copies(run, new, sid + 'c')
    want = key_bytes(run)
    if any(v != want for v in got.values()):
        raise Violation('copies', 'copies of the master key that the new passphrase does not open: %s'
                        % sorted(k for k, v in got.items() if v != want))
    for w in old:
        if w == new:
            continue
        if opens(run, w, sid + 'w'):
            raise Violation('old-works', 'the old passphrase still works')
        if any(v is not None for v in copies(run, w, sid + 'd').values()):
            raise Violation('old-works', 'the old passphrase still opens a copy of the master key')
    return [new]


def key_bytes(run):
    import base64
    return base64.b64decode(''.join(run.master_key.split()))


def state(run, sid, old, new, broken):
    '''An interrupted change'''
    ok = [w for n, w in enumerate(old + [new]) if opens(run, w, sid + 'p%d' % n, broken)]
    if len(set(ok)) > 1:
        raise Violation('both', 'several passphrases work: %s' % ok)
    if ok:
        return ok
    if not broken:
        raise Violation('locked-out', 'neither the old nor the new passphrase works')
    keep = run.save()
    res = run.adm('recover-key', stdin=run.master_key + '\n' + new + '\n', salt=sid + 'again')
    run.model = keep[1]
    if res.rc != 0 or not opens(run, new, sid + 'q'):
        raise Violation('locked-out', 'the master key does not open the file system any more',
                        stderr=res.err[-1500:])
    return [new]
