"""Freezes the layout of the SMEFTsim param_card (which entry carries which
parameter name, and the Standard Model numbers) in mc/ref_smeftsim.json.
Run once on the reviewed tree; the assignment name -> Wilson coefficient is
*not* taken from the code but from the naming rule in checks/p20.py."""
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'mc'))
import core
from checks import p20
W = core.fresh()
from wcxf.converters import smeftsim as S
out = {'rows': {}, 'sm': {}}
for ms in 'AB':
    w = W.WC('SMEFT', 'Warsaw mass', 1000, {})
    c = S.smeftsim_card_fill(S.initialize_smeftsim_card(ms), w, ms, 1000, 'alpha')
    out['rows'][ms] = [[b] + row[:-2] + [row[-1].replace('#', '').strip()]
                       for b, v in c['Block'].items() for row in v['values']]
    for sch in ('alpha', 'mw'):
        t = S.smeftsim_card_text(ms, sch)
        out['sm'][ms + sch] = [p20.parse(x) for x in t]
with open(os.path.join(V, 'mc', 'ref_smeftsim.json'), 'w') as f:
    json.dump(out, f, separators=(',', ':'))
