import conv
CONV = [c for c in conv.WET_T if c[2] == 'JMS' and c[3] in ('flavio', 'Bern', 'EOS', 'formflavor')]
BOUNDS = 'all JMS coefficients singly, operator groups, dense vectors, scale alphabet %s' % conv.SCALES
ASSUMPTIONS = ['ckmutil.ckm.ckm_tree and the compiled RunDec routines are trusted',
               'basis name lists are reconstructed (submodule empty)']


def setup(tier):
    conv.init()


def cases(tier):
    return conv.value_cases(CONV, tier)


run = conv.value_run
