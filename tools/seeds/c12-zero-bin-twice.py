PROP = "C12"
FILE = "ml/tree/feateur_histogram.py"
OLD = """                zero_optim[nid][fid][0] += grad[rid]
                zero_optim[nid][fid][1] += hess[rid]
                zero_optim[nid][fid][2] += 1
"""
NEW = """                if value == bin_sparse_points[fid]:
                    # already in the bin of zero
                    continue

                zero_optim[nid][fid][0] += grad[rid]
                zero_optim[nid][fid][1] += hess[rid]
                zero_optim[nid][fid][2] += 1
"""
NEEDS = "a row that states a value which falls into the bin of zero"
BREAKS = "such a sample is counted twice in the bin of zero"
DEMO = '''
quiet()
from computing.d_table import DTable
from ml.tree.feateur_histogram import FeatureHistogram as H
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
def inst(d): return Instance(features=SparseVector(list(d), list(d.values()), 2))
rows = [inst({0: 1}), inst({0: 0, 1: 1}), inst({1: 0})]
data = DTable(True, [(i, (r, (1, 0))) for i, r in enumerate(rows)])
gh = DTable(True, [(i, (2.0 ** i, 1.0)) for i in range(3)])
sp = np.empty(2, dtype=object); sp[0] = np.array([0.5]); sp[1] = np.array([0.5])
h = H.calculate_histogram(data, gh, sp, {0: 0, 1: 0}, [True, True], {0: 0})
assert [c[2] for c in h[0][0]] == [2, 1], h[0][0]
assert [c[0] for c in h[0][0]] == [6.0, 1.0], h[0][0]
assert [c[2] for c in h[0][1]] == [2, 1], h[0][1]
'''
