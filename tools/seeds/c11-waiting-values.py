PROP = "C11"
FILE = "ml/feature/quantile_summaries.py"
OLD = """        if other.head_sampled:
            # other._insert_head_buffer()
            other.compress()

        if self.head_sampled:"""
NEW = """        if other.count == 0:
            # other._insert_head_buffer()
            other.compress()

        if self.head_sampled:"""
NEEDS = "merging a summary that has retained values and others still waiting in its buffer"
BREAKS = "the waiting values are lost"
DEMO = '''
quiet()
from ml.feature.quantile_summaries import QuantileSummaries as Q
a, b = Q(head_size=4, compress_thres=3, error=0.01), Q(head_size=4, compress_thres=3, error=0.01)
for i in range(5): a.insert(i)
for i in range(7): b.insert(10 + i)
a.merge(b)
assert a.count == 12 and sum(s.g for s in a.sampled) == 12, a.count
'''
