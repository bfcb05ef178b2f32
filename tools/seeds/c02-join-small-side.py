PROP = "C02"
FILE = "computing/d_table.py"
OLD = """        for k, v in other.get_kvs():
            if k in self.__data:
                new_table.append((k, func(self.__data[k], v)))
        return DTable(True, new_table)"""
NEW = """        if other.count() > self.count():
            # walk the smaller table
            for k, v in self.__data.items():
                if k in other.get_keys():
                    new_table.append((k, func(dict(other.get_kvs())[k], v)))
            return DTable(True, new_table)
        for k, v in other.get_kvs():
            if k in self.__data:
                new_table.append((k, func(self.__data[k], v)))
        return DTable(True, new_table)"""
NEEDS = "a right table with more rows than the left one and a combining function that is not symmetric"
BREAKS = "the combining function gets the right row first, so the default join returns the right table's rows"
DEMO = '''
from computing.d_table import DTable
a = DTable(True, [(1, "a1"), (2, "a2")]); b = DTable(True, [(2, "b2"), (3, "b3"), (1, "b1")])
assert dict(a.join(b).collect()) == {1: "a1", 2: "a2"}, list(a.join(b).collect())
assert dict(b.join(a).collect()) == {1: "b1", 2: "b2"}
'''
