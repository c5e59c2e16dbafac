"""Reconstruction of the EFT and basis definitions ("wcxf-bases").

The repository ships these as a git submodule that is empty in this sandbox,
so the verification machinery generates them itself, from the published
naming rules only (never from the code under test):

 * SMEFT Warsaw: names, index symmetries and reality as in arXiv:1008.4884 /
   1312.2014; cross-checked against the complete coefficient list contained in
   the repository's own example file wcxf/data/test.Warsaw_mass.yml (1632
   entries with reality pattern) and against the known parameter count 2499.
 * WET JMS: arXiv:1709.04486 tables 9-17; cross-checked against the counts in
   the repository's wcxf/test_wet.py.
 * flavio / Bern / EOS / formflavor / FlavorKit naming rules.

`selfcheck()` performs these cross-checks; every check calls it first.
"""
from itertools import product
from collections import OrderedDict

LEP = ['e', 'mu', 'tau']

# ---------------------------------------------------------------- SMEFT
SM_0F = ["G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG",
         "phiB", "phiW", "phiWB", "phiGtilde", "phiBtilde", "phiWtilde",
         "phiWtildeB"]
# name -> symmetry class of the flavour tensor
SMEFT_CLASS = {}
for _n in ["uphi", "dphi", "ephi", "eW", "eB", "uG", "uW", "uB", "dG", "dW",
           "dB", "phiud"]:
    SMEFT_CLASS[_n] = 'gen2'
for _n in ["phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid"]:
    SMEFT_CLASS[_n] = 'herm2'
SMEFT_CLASS["llphiphi"] = 'sym2'
for _n in ["ledq", "quqd1", "quqd8", "lequ1", "lequ3", "duql", "duue"]:
    SMEFT_CLASS[_n] = 'gen4'
for _n in ["ll", "qq1", "qq3", "uu", "dd"]:
    SMEFT_CLASS[_n] = 'same4'      # two identical currents
for _n in ["lq1", "lq3", "eu", "ed", "ud1", "ud8", "le", "lu", "ld", "qe",
           "qu1", "qd1", "qu8", "qd8"]:
    SMEFT_CLASS[_n] = 'herm4'      # two different hermitian currents
SMEFT_CLASS["ee"] = 'ee4'          # identical right-handed singlets (Fierz)
SMEFT_CLASS["qque"] = 'qque4'
SMEFT_CLASS["qqql"] = 'qqql4'
DB1 = ["duql", "qque", "qqql", "duue"]


def _p(*perm):
    return perm


# relations  C[i] = (conj) C[perm(i)]
SYM_GENS = {
    'gen2': [], 'gen4': [],
    'herm2': [((1, 0), True)],
    'sym2': [((1, 0), False)],
    'herm4': [((1, 0, 3, 2), True)],
    'same4': [((1, 0, 3, 2), True), ((2, 3, 0, 1), False)],
    'ee4': [((1, 0, 3, 2), True), ((2, 3, 0, 1), False),
            ((0, 3, 2, 1), False)],
    'qque4': [((1, 0, 2, 3), False)],
    'qqql4': [],                   # linear relation, see qqql_relation
}


def orbit(idx, cls):
    """All (index, conj) pairs identified with (idx, False) by the symmetry."""
    seen = {(idx, False)}
    todo = [(idx, False)]
    while todo:
        i, c = todo.pop()
        for perm, conj in SYM_GENS[cls]:
            j = tuple(i[k] for k in perm)
            e = (j, c != conj)
            if e not in seen:
                seen.add(e)
                todo.append(e)
    return seen


# redundant qqql entries (0-based first three indices), from
# C_prst + C_rpst = C_sprt + C_srpt
QQQL_RED = {(1, 0, 0), (1, 1, 0), (2, 0, 0), (2, 0, 1), (2, 1, 0), (2, 1, 1),
            (2, 2, 0), (2, 2, 1)}


def canonical(cls, ranges, order=None):
    """List (index tuple 0-based, is_real) of the independent entries: of each
    orbit the lexicographically smallest index."""
    out = []
    for idx in product(*ranges):
        if cls == 'qqql4':
            if idx[:3] not in QQQL_RED:
                out.append((idx, False))
            continue
        orb = [(i, c) for i, c in orbit(idx, cls)
               if all(i[n] in ranges[n] for n in range(len(i)))]
        if idx == min(i for i, c in orb):
            out.append((idx, (idx, True) in orb))
    return out


def label(name, idx):
    return name + '_' + ''.join(str(i + 1) for i in idx)


R3 = (0, 1, 2)


def warsaw_sectors(mass=False):
    s = OrderedDict([('dB=dL=0', OrderedDict()), ('dL=2', OrderedDict()),
                     ('dB=dL=1', OrderedDict())])
    for n in SM_0F:
        s['dB=dL=0'][n] = {'real': True}
    for n, cls in SMEFT_CLASS.items():
        dim = int(cls[-1])
        sec = 'dL=2' if n == 'llphiphi' else 'dB=dL=1' if n in DB1 else 'dB=dL=0'
        for idx, real in canonical(cls, (R3,) * dim):
            if mass and n == 'llphiphi':
                if idx[0] != idx[1]:
                    continue
                real = True
            s[sec][label(n, idx)] = {'real': True} if real else {}
    return s


# ---------------------------------------------------------------- WET JMS
# field content of each index: n (neutrino), e, u, d
JMS = OrderedDict()
JMS['G'] = ('', 'real0')
JMS['Gtilde'] = ('', 'real0')
for _n, _f, _c in [
        ('egamma', 'ee', 'gen'), ('ugamma', 'uu', 'gen'),
        ('dgamma', 'dd', 'gen'), ('uG', 'uu', 'gen'), ('dG', 'dd', 'gen'),
        ('VnunuLL', 'nnnn', 'lep4'), ('VeeLL', 'eeee', 'lep4'),
        ('VnueLL', 'nnee', 'herm'), ('VnuuLL', 'nnuu', 'herm'),
        ('VnudLL', 'nndd', 'herm'), ('VeuLL', 'eeuu', 'herm'),
        ('VedLL', 'eedd', 'herm'), ('VnueduLL', 'nedu', 'gen'),
        ('VuuLL', 'uuuu', 'same'), ('VddLL', 'dddd', 'same'),
        ('V1udLL', 'uudd', 'herm'), ('V8udLL', 'uudd', 'herm'),
        ('VeeRR', 'eeee', 'lep4'), ('VeuRR', 'eeuu', 'herm'),
        ('VedRR', 'eedd', 'herm'), ('VuuRR', 'uuuu', 'same'),
        ('VddRR', 'dddd', 'same'), ('V1udRR', 'uudd', 'herm'),
        ('V8udRR', 'uudd', 'herm'),
        ('VnueLR', 'nnee', 'herm'), ('VeeLR', 'eeee', 'herm'),
        ('VnuuLR', 'nnuu', 'herm'), ('VnudLR', 'nndd', 'herm'),
        ('VeuLR', 'eeuu', 'herm'), ('VedLR', 'eedd', 'herm'),
        ('VueLR', 'uuee', 'herm'), ('VdeLR', 'ddee', 'herm'),
        ('VnueduLR', 'nedu', 'gen'),
        ('V1uuLR', 'uuuu', 'herm'), ('V8uuLR', 'uuuu', 'herm'),
        ('V1udLR', 'uudd', 'herm'), ('V8udLR', 'uudd', 'herm'),
        ('V1duLR', 'dduu', 'herm'), ('V8duLR', 'dduu', 'herm'),
        ('V1ddLR', 'dddd', 'herm'), ('V8ddLR', 'dddd', 'herm'),
        ('V1udduLR', 'uddu', 'gen'), ('V8udduLR', 'uddu', 'gen'),
        ('SeuRL', 'eeuu', 'gen'), ('SedRL', 'eedd', 'gen'),
        ('SnueduRL', 'nedu', 'gen'),
        ('SeeRR', 'eeee', 'swap'), ('SeuRR', 'eeuu', 'gen'),
        ('TeuRR', 'eeuu', 'gen'), ('SedRR', 'eedd', 'gen'),
        ('TedRR', 'eedd', 'gen'), ('SnueduRR', 'nedu', 'gen'),
        ('TnueduRR', 'nedu', 'gen'),
        ('S1uuRR', 'uuuu', 'swap'), ('S8uuRR', 'uuuu', 'swap'),
        ('S1udRR', 'uudd', 'gen'), ('S8udRR', 'uudd', 'gen'),
        ('S1ddRR', 'dddd', 'swap'), ('S8ddRR', 'dddd', 'swap'),
        ('S1udduRR', 'uddu', 'gen'), ('S8udduRR', 'uddu', 'gen')]:
    JMS[_n] = (_f, _c)

SYM_GENS.update({'lep4': SYM_GENS['ee4'],
                 'herm': SYM_GENS['herm4'],
                 'same': SYM_GENS['same4'],
                 'swap': [((2, 3, 0, 1), False)],
                 'gen': []})
RANGE = {'n': R3, 'e': R3, 'u': (0, 1), 'd': R3}
RANGE_EFT = {
    'WET': RANGE,
    'WET-4': dict(RANGE, d=(0, 1)),
    'WET-3': dict(RANGE, d=(0, 1), u=(0,)),
    'WET-2': dict(RANGE, d=(0,), u=(0,)),
}

FQ = {'d': 'dsb', 'u': 'uc'}


def jms_sectors(eft='WET'):
    """One sector per quark/lepton flavour content; the sector structure is
    irrelevant for the properties, only the union of names matters."""
    rng = RANGE_EFT[eft]
    s = OrderedDict()
    for n, (f, cls) in JMS.items():
        if not f:
            s.setdefault('dF=0', OrderedDict())[n] = {'real': True}
            continue
        for idx, real in canonical(cls, tuple(rng[x] for x in f)):
            s.setdefault('dF=0', OrderedDict())[label(n, idx)] = \
                {'real': True} if real else {}
    return s


# ---------------------------------------------------------------- flavio
def flavio_names(quarks='udscb'):
    names = []
    for a, b in ['bs', 'bd', 'sd']:
        for c in ['VLL', 'SLL', 'TLL', 'VLR', 'VRR', 'SRR', 'TRR', 'SLR']:
            names.append(('C%s_%s' % (c, 2 * (a + b)), a + b))
    for u, d in product('uc', 'dsb'):
        for l, lp in product(LEP, LEP):
            for c in ['VL', 'VR', 'SR', 'SL', 'T']:
                names.append(('C%s_%s%s%snu%s' % (c, d, u, l, lp), u + d))
    for a, b in ['bs', 'bd']:
        for l, lp in product(LEP, LEP):
            for c in ['9', '10', 'S', 'P']:
                for pr in ['', 'p']:
                    names.append(('C%s%s_%s%s%s' % (c, pr, a + b, l, lp), a + b))
    for a, b in ['bs', 'bd', 'sd']:
        for l, lp in product(LEP, LEP):
            for c in 'LR':
                names.append(('C%s_%snu%snu%s' % (c, a + b, l, lp), a + b))
    for a, b in ['bs', 'bd']:
        for c in '78':
            for pr in ['', 'p']:
                names.append(('C%s%s_%s' % (c, pr, a + b), a + b))
    return [n for n, q in names if all(x in quarks for x in q)]


def bern_names(quarks='udscb'):
    names = []
    for a, b in ['sb', 'db', 'ds']:
        for c in ['1', '2', '3', '4', '5', '1p', '2p', '3p']:
            names.append((c + 2 * (a + b), a + b))
    for u, d in product('uc', 'dsb'):
        for l, lp in product(LEP, LEP):
            for c in ['1', '5', '1p', '5p', '7p']:
                names.append((c + u + d + l + lp, u + d))
    for dd in ['sb', 'db', 'ds']:
        for uu in ['uu', 'uc', 'cu', 'cc']:
            for n in range(1, 11):
                for pr in ['', 'p']:
                    names.append(('%d%s%s%s' % (n, pr, dd, uu), dd + uu))
    for q in ['sbdd', 'dbss', 'dsbb']:
        for n in range(1, 11):
            for pr in ['', 'p']:
                names.append(('%d%s%s' % (n, pr, q), q))
    for q in ['sbss', 'dbdd', 'dbbb', 'sbbb', 'dbds', 'sbsd', 'dsss', 'dsdd']:
        for n in range(1, 11, 2):
            for pr in ['', 'p']:
                names.append(('%d%s%s' % (n, pr, q), q))
    for dd in ['sb', 'db', 'ds']:
        for l, lp in product(LEP, LEP):
            for n in range(1, 11, 2):
                for pr in ['', 'p']:
                    names.append(('%d%s%s%s%s' % (n, pr, dd, l, lp), dd))
            for pr in ['', 'p']:
                names.append(('nu1%s%s%s%s' % (pr, dd, l, lp), dd))
        for n in ['7gamma', '8g', '7pgamma', '8pg']:
            names.append((n + dd, dd))
    return [n for n, q in names if all(x in quarks for x in q)]


def eos_names():
    names = []
    for l in ['e', 'mu']:
        for c in ['cVL', 'cVR', 'cSR', 'cSL', 'cT']:
            names.append('b->u%snu%s::%s' % (l, l, c))
        for c in ['c9', "c9'", 'c10', "c10'", 'cS', "cS'", 'cP', "cP'", 'cT',
                  'cT5']:
            names.append('b->s%s%s::%s' % (l, l, c))
    names += ['b->s::c%d' % i for i in range(1, 7)]
    names += ["b->s::c7", "b->s::c7'", "b->s::c8", "b->s::c8'"]
    return names


def formflavor_names():
    names = []
    for qq in ['bs', 'bd', 'sd', 'cu']:
        for c in ['VLL', 'SLL', 'TLL', 'VLR', 'VRR', 'SRR', 'TRR', 'SLR']:
            names.append('C%s_%s' % (c, 2 * qq))
    for dd in ['bs', 'bd']:
        for c in ['VLL', 'VRR', 'VLR', 'VRL', 'SLL', 'SRR', 'SLR', 'SRL',
                  'TLL', 'TRR']:
            names.append('C%s_%smm' % (c, dd))
    names += ['CVLL_sdnn', 'CVRL_sdnn']
    for q in ['sb', 'db', 'uu', 'dd']:
        names += ['C%s_%s' % (c, q) for c in ['AR', 'GR', 'AL', 'GL']]
    for q in ['mt', 'em', 'et']:
        names += ['C%s_%s' % (c, q) for c in ['AR', 'AL']]
    return names


# ---------------------------------------------------------------- assemble
QUARKS = {'WET': 'udscb', 'WET-4': 'udsc', 'WET-3': 'uds', 'WET-2': 'ud'}


def _flat(names):
    return OrderedDict([('dF=0', OrderedDict((n, {}) for n in names))])


def efts():
    return [
        {'eft': 'SMEFT', 'sectors': OrderedDict(
            (k, {}) for k in ['dB=dL=0', 'dL=2', 'dB=dL=1'])},
    ] + [{'eft': e, 'sectors': OrderedDict([('dF=0', {})])}
         for e in ['WET', 'WET-4', 'WET-3', 'WET-2']]


def flavorkit_names(tables):
    names = [k for t in tables for k in t]
    names += ['AVLL_2231', 'AVRR_2231']
    names += ['K2R_%d%d' % (i, j) for i in (1, 2, 3) for j in (1, 2, 3)
              if i != j]
    return names


def bases(fk_tables=None):
    out = [
        {'eft': 'SMEFT', 'basis': 'Warsaw', 'sectors': warsaw_sectors()},
        {'eft': 'SMEFT', 'basis': 'Warsaw up', 'sectors': warsaw_sectors()},
        {'eft': 'SMEFT', 'basis': 'Warsaw mass', 'sectors': warsaw_sectors(True)},
    ]
    for e in ['WET', 'WET-4', 'WET-3', 'WET-2']:
        out.append({'eft': e, 'basis': 'JMS', 'sectors': jms_sectors(e)})
    for e in ['WET', 'WET-4', 'WET-3']:
        out.append({'eft': e, 'basis': 'flavio',
                    'sectors': _flat(flavio_names(QUARKS[e]))})
        out.append({'eft': e, 'basis': 'Bern',
                    'sectors': _flat(bern_names(QUARKS[e]))})
    out.append({'eft': 'WET', 'basis': 'EOS', 'sectors': _flat(eos_names())})
    out.append({'eft': 'WET', 'basis': 'formflavor',
                'sectors': _flat(formflavor_names())})
    if fk_tables is not None:
        out.append({'eft': 'WET', 'basis': 'FlavorKit',
                    'sectors': _flat(flavorkit_names(fk_tables))})
    return out
