PROP = "C16"
FILE = "ml/tree/hetero_decision_tree_host.py"
OLD = """        while tree_[nid].sitename == sitename:
            fid = decoder("feature_idx", tree_[nid].fid, split_maskdict=split_maskdict)"""
NEW = """        while tree_[nid].sitename.startswith(sitename):
            fid = decoder("feature_idx", tree_[nid].fid, split_maskdict=split_maskdict)"""
NEEDS = "more than ten hosts and a tree in which a node of host.1 is the parent of a node of host.1x"
BREAKS = "host.1 goes on walking in a node of host.10: it looks up a threshold it does not know or one of a node it owned before"
DEMO = '''
quiet()
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as T
from ml.tree.node import Node
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
def n(i, s, l=-1, r=-1): return Node(id=i, sitename=s, fid=0, bid=None, left_nodeid=l, right_nodeid=r, is_leaf=l == -1)
tree = [n(0, "host.1", 1, 2), n(1, "host.10", 3, 4), n(2, "guest"), n(3, "guest"), n(4, "guest")]
x = Instance(features=SparseVector([0], [1.0], 1))
got = T.traverse_tree((0, -1), x, tree_=tree, decoder=T.decode, split_maskdict={0: 2.0}, sitename="host.1")
assert got[0] == 1, got
'''
