import sys, os, shutil, subprocess, tempfile
src = open("/repo/computing/d_table.py").read()
def sub(a, b):
    global s
    assert a in s, a
    s = s.replace(a, b, 1)
s = src
sub('''        new_table = []
        for k, v in self.__data.items():
            new_table.append((k, func(k, v)))
        return DTable(True, new_table)''','''        return DTable(True, [(k, func(k, v)) for k, v in self.__data.items()])''')
sub('''        new_table = []
        for k, v in self.__data.items():
            new_table.append((k, func(v)))
        return DTable(True, new_table)''','''        return self.map(lambda _, row: func(row))''')
sub('''        new_table = []
        for k, v in self.__data.items():
            if func(k, v) == True:
                new_table.append((k, v))
        return DTable(True, new_table)''','''        rows = [(key, row) for key, row in self.__data.items() if func(key, row) == True]
        return DTable(True, rows)''')
sub('''        new_table = []
        for k, v in other.get_kvs():
            if k in self.__data:
                new_table.append((k, func(self.__data[k], v)))
        return DTable(True, new_table)''','''        mine = self.__data
        return DTable(True, [(k, func(mine[k], v)) for k, v in other.get_kvs() if k in mine])''')
sub('''        for k, v in other.get_kvs():
            if k in new_dict:
                new_dict[k] = func(new_dict[k], v)
            else:
                new_dict[k] = v''','''        for k, v in other.get_kvs():
            new_dict[k] = func(new_dict[k], v) if k in new_dict else v''')
sub('''        for k, v in self.__data.items():
            if k not in other.get_keys():
                new_table.append((k, v))''','''        theirs = other.get_keys()
        for pair in self.__data.items():
            if pair[0] in theirs:
                continue
            new_table.append(pair)''')
sub('''        for v in self.__data.values():
            if ret_val is None:
                ret_val = v
            else:
                ret_val = func(ret_val, v)''','''        for key in self.__data:
            row = self.__data[key]
            ret_val = row if ret_val is None else func(ret_val, row)''')
sub('''            if k not in new_dict:
                new_dict[k] = v
            else:
                new_dict[k] = reducer(new_dict[k], v)''','''            if k in new_dict:
                new_dict[k] = reducer(new_dict[k], v)
                continue
            new_dict[k] = v''')
sub('''        ret_val = []
        for i, k in enumerate(self.__data.keys()):
            if i >= n:
                break
            else:
                ret_val.append((k, self.__data[k]))
        return ret_val''','''        picked = []
        for k, v in self.__data.items():
            if len(picked) >= n:
                break
            picked.append((k, v))
        return picked''')
sub('''                    for i,item in enumerate(data):
                        self.__data[i] = item''','''                    i = 0
                    for item in data:
                        self.__data[i] = item
                        i += 1''')
d = tempfile.mkdtemp(prefix="ref")
shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git"))
open(d + "/r/computing/d_table.py", "w").write(s)
r = subprocess.run(["python3-vt", "/verif/run1.py", "table"], env=dict(os.environ, PYVC_REPO=d + "/r"), capture_output=True, text=True)
print(r.stdout, r.stderr[-500:])
shutil.rmtree(d)
