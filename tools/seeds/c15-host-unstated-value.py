PROP = "C15"
FILE = "ml/tree/hetero_decision_tree_host.py"
OLD = """        if value2.features.get_data(fid, bin_sparse_points[fid]) <= bid:
            return unleaf_state, left_nodeid"""
NEW = """        if (value2.features.get_data(fid) or bin_sparse_points[fid]) <= bid:
            return unleaf_state, left_nodeid"""
NEEDS = "a host column with negative values (zero is not in the first bin) and a sample in the first bin"
BREAKS = "a stated bin 0 is taken for an unstated value, so the sample goes to the side of zero"
DEMO = '''
quiet()
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as T
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
def go(d, bid): return T.dispatch_node((1, 0, None, "host.0", 4, 7, 8), Instance(features=SparseVector(list(d), list(d.values()), 1)), sitename="host.0", decoder=T.decode, split_maskdict={4: bid}, bin_sparse_points={0: 2})
for d, v in (({0: 0}, 0), ({0: 1}, 1), ({0: 3}, 3), ({}, 2)):
    for bid in range(4):
        assert go(d, bid) == (1, 7 if v <= bid else 8), (d, bid, go(d, bid))
'''
