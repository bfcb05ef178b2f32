PROP = "C13"
FILE = "ml/tree/splitter.py"
OLD = """                    node_splitinfo.append(splitinfo)
                    node_grad_hess.append((sum_grad_l, sum_hess_l))"""
NEW = """                    node_splitinfo.append(splitinfo)
                    # an empty bin adds nothing to the sums: no need to send them twice
                    if bid == 0 or histogram[fid][bid - 1][2] != node_cnt_l:
                        node_grad_hess.append((sum_grad_l, sum_hess_l))"""
NEEDS = "a node in which a bin between two admissible splits holds no sample"
BREAKS = "the positions sent to the guest no longer match the host's own candidates, so the host recovers another split"
DEMO = '''
quiet()
from ml.tree.splitter import Splitter
s = Splitter("xgboost", [0.1], 0.0, 2, 1)
H = [[[1.0, 1.0, 2], [1.0, 1.0, 2], [3.0, 2.0, 4], [5.0, 3.0, 6]], [[2.0, 1.0, 3], [5.0, 3.0, 6]]]
info, sums = s.find_split_single_histogram_host(H, [True, True], "host.0")
assert len(info) >= len(sums) > 0
for i, (g, h) in enumerate(sums):
    x = info[i]
    assert H[x.best_fid][x.best_bid][:2] == [g, h], (i, x.best_fid, x.best_bid, g, h)
'''
