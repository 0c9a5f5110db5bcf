'''Damage to stored objects.'''

from .core import stream

DETECTABLE = ('lose', 'flip', 'truncate', 'append', 'empty')


def data_ids(store):
    return store.data_ids()


def damage(store, op, sim=None, keys=None):
    '''Damage one object; returns the ids of the data objects hit (a set), or None'''
    keys = keys if keys is not None else ['s3ql_data_%d' % i for i in store.data_ids()]
    if not keys:
        return None
    key = keys[op['obj'] % len(keys)]
    obj = store.objects[key]
    rng = stream('damage', op.get('seed', 0))
    how = op['how']
    hit = {key}
    d = obj.data
    if sim is not None:
        sim.fired('damage-' + how)
    if how == 'lose':
        del store.objects[key]
    elif how == 'flip' and d:
        i = int(rng.random() * len(d)) if op.get('pos') is None else op['pos'] % len(d)
        obj.data = d[:i] + bytes([d[i] ^ (1 << rng.randrange(8))]) + d[i + 1:]
    elif how == 'zero' and d:
        i = int(rng.random() * len(d))
        n = rng.choice((1, 16, 512))
        new = d[:i] + b'\0' * len(d[i:i + n]) + d[i + n:]
        if new == d:
            return None
        obj.data = new
    elif how == 'truncate' and d:
        obj.data = d[: int(rng.random() * len(d))]
    elif how == 'empty' and d:
        obj.data = b''
    elif how == 'append':
        obj.data = d + rng.choice((b'\0', b'x' * 100, d))
    elif how in ('swap', 'foreign', 'data-only', 'meta-only'):
        others = [k for k in keys if k != key and k in store.objects]
        if not others:
            return None
        k2 = others[op.get('other', 1) % len(others)]
        o2 = store.objects[k2]
        if o2.data == obj.data:
            return None
        if how == 'swap':
            o2.data, obj.data = obj.data, o2.data
            o2.meta, obj.meta = obj.meta, o2.meta
            hit.add(k2)
        elif how == 'foreign':
            obj.data, obj.meta = o2.data, dict(o2.meta)
        elif how == 'data-only':
            obj.data = o2.data
        else:
            if o2.meta == obj.meta:
                return None
            obj.meta = dict(o2.meta)
    elif how == 'meta':
        m = dict(obj.meta)
        ks = sorted(m)
        if not ks:
            return None
        k = ks[op.get('key', 0) % len(ks)]
        kind = op.get('val', 'drop')
        if kind == 'drop':
            del m[k]
        elif kind == 'garble' and isinstance(m[k], (str, bytes)) and m[k]:
            v = m[k]
            i = rng.randrange(len(v))
            if isinstance(v, str):
                m[k] = v[:i] + ('x' if v[i] != 'x' else 'y') + v[i + 1:]
            else:
                m[k] = v[:i] + bytes([v[i] ^ (1 << rng.randrange(8))]) + v[i + 1:]
        elif kind == 'type':
            m[k] = 7 if not isinstance(m[k], int) else 'seven'
        else:
            m[k] = kind
            if m[k] == obj.meta[k]:
                return None
        if m == obj.meta:
            return None
        obj.meta = m
    elif how == 'plaintext':
        # what somebody without the passphrase would put there
        from s3ql.common import freeze_basic_mapping

        obj.meta = {'format_version': 2, 'compression': 'None', 'encryption': 'None',
                    'data': freeze_basic_mapping({})}
        obj.data = b'EVIL' * 100
    elif how == 'nometa':
        obj.meta = {}
    else:
        return None
    return {int(k[10:]) if k.startswith('s3ql_data_') else k for k in hit}
