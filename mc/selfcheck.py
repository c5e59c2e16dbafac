"""Cross-checks of the reconstructed basis definitions and reference tables
against data that do not come from the code under test."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def main():
    import bases
    import yaml
    # 1. 2499 real parameters of dimension-six B-conserving SMEFT
    sec = bases.warsaw_sectors()['dB=dL=0']
    n = sum(1 if d.get('real') else 2 for d in sec.values())
    assert n == 2499, n
    # 2. names of the example file of the repository
    f = os.path.join(core.REPO, 'wcxf', 'data', 'test.Warsaw_mass.yml')
    if os.path.exists(f):
        with open(f) as fh:
            d = yaml.safe_load(fh)
        assert set(d['values']) == set(core.names('SMEFT', 'Warsaw mass'))
    # 3. independence: every orbit has exactly one representative
    for cls in ('herm2', 'same4', 'herm4', 'ee4', 'qque4', 'sym2'):
        dim = int(cls[-1])
        can = bases.canonical(cls, ((0, 1, 2),) * dim)
        cover = [i for c, _ in can for i in {j for j, _ in bases.orbit(c, cls)}]
        assert len(cover) == len(set(cover)) == 3 ** dim, cls
    # 4. dependent entries of qqql: rank of the relation
    import numpy as np
    from itertools import product
    idx = {i: k for k, i in enumerate(product(range(3), repeat=3))}
    rows = []
    for p, r, s in idx:
        v = np.zeros(27)
        v[idx[p, r, s]] += 1
        v[idx[r, p, s]] += 1
        v[idx[s, p, r]] -= 1
        v[idx[s, r, p]] -= 1
        rows.append(v)
    assert np.linalg.matrix_rank(np.array(rows)) == len(bases.QQQL_RED)
    print('selfcheck ok')


if __name__ == '__main__':
    main()
