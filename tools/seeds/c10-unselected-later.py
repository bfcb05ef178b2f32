PROP = "C10"
FILE = "ml/feature/binning/base_binning.py"
OLD = """    @staticmethod
    def get_bin_num(value, split_points):
        col_bin_num = len(split_points)
        for bin_num, split_point in enumerate(split_points):
            if value <= split_point:
                col_bin_num = bin_num
                break
        col_bin_num = int(col_bin_num)
        return col_bin_num"""
NEW = """    @staticmethod
    def get_bin_num(value, split_points):
        low, high = 0, len(split_points)
        while low < high:
            mid = (low + high) // 2
            if split_points[mid] > value:
                high = mid
            else:
                low = mid + 1
        return low"""
NEEDS = "a value equal to a split point"
BREAKS = "a value equal to a split point is given the next bin"
DEMO = '''
quiet()
from ml.feature.binning.base_binning import Binning
assert [Binning.get_bin_num(v, [1, 2, 3]) for v in (0, 1, 1.5, 2, 3, 4)] == [0, 0, 1, 1, 2, 3]
'''
