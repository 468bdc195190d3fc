"""Reads the verification plan out of the contract files (units/*.c).

  //@ contract FUNC STUB HARNESS        callers may use STUB instead of FUNC once HARNESS is proved
  //@ contract FUNC STUB see:C12        the contract is discharged by the check of C12 (here: assumed)
  //@ harness NAME prop=C01,C02 [use=FUNC,...] [opaque=sp_x,...] [k=v ...]
  //@ native NAME prop=C01              executed only (search for failing inputs), never proved
"""
import glob, os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class H:
    def __init__(self, unit, name):
        self.unit, self.name = unit, name
        self.props, self.use, self.opaque, self.opts = [], [], [], {}
        self.native_only = False
        self.proves = []

    def backup(self, prop):
        return prop in self.opts.get('backup', '').split(',')

    def __repr__(self):
        return '%s.%s' % (self.unit, self.name)


def load():
    hs, contracts = {}, {}
    for p in sorted(glob.glob(VERIF + '/units/*.c')):
        u = os.path.basename(p)[:-2]
        for l in open(p):
            m = re.match(r'//@\s+(contract|harness|native)\s+(.*)', l)
            if not m:
                continue
            w = m.group(2).split()
            if m.group(1) == 'contract':
                contracts[(u, w[0])] = (w[1], (u, w[2]) if w[2].startswith('see:') or '.' not in w[2] else tuple(w[2].split('.')))
                continue
            h = H(u, w[0])
            h.native_only = m.group(1) == 'native'
            for x in w[1:]:
                k, v = x.split('=', 1)
                if k == 'prop':
                    h.props = v.split(',')
                elif k == 'use':
                    h.use = v.split(',')
                elif k == 'opaque':
                    h.opaque = v.split(',')
                else:
                    h.opts[k] = int(v) if re.match(r'-?\d+$', v) else v.split(',') if k in ('noterm', 'nocut', 'cut') else v
            hs[(u, w[0])] = h
    for (u, f), (stub, hn) in contracts.items():
        if hn in hs:
            hs[hn].proves.append(f)
    return hs, contracts


def for_prop(prop):
    """harnesses of a property, with the harnesses that prove the contracts they use"""
    hs, contracts = load()
    out = {}

    def add(h):
        if (h.unit, h.name) in out:
            return
        out[(h.unit, h.name)] = h
        for f in h.use:
            g = hs.get(contracts[(h.unit, f)][1])
            if g is not None:      # otherwise the contract is assumed (listed in the evidence)
                add(g)
    for h in hs.values():
        if prop in h.props:
            add(h)
    return list(out.values()), contracts


def assumed(h, contracts, hs):
    return [f for f in h.use if contracts[(h.unit, f)][1] not in {(g.unit, g.name) for g in hs}]


def options(h, contracts, inline=False):
    o = dict(h.opts)
    if not inline:
        o['contracts'] = {f: contracts[(h.unit, f)][0] for f in h.use}
        o['opaque'] = tuple(h.opaque)
    elif 'ibudget' in o:
        pass
    return o
