PROP = "C18"
FILE = "federation/transfer_inst.py"
OLD = """        elif index < len(self.conns) and index >= 0:  # 转发列表中只有一个连接
            conns = [self.conns[index]]"""
NEW = """        elif abs(index) <= len(self.conns) and index != len(self.conns):  # 转发列表中只有一个连接
            conns = [self.conns[index]]"""
NEEDS = "at least two hosts and a negative host number other than -1"
BREAKS = "a message to an unknown host is delivered to one of the others"
DEMO = '''
quiet()
from federation.transfer_inst import TransferInstGuest as G
class C:
    def __init__(self): self.got = b""
    def sendall(self, b): self.got += b
g = G.__new__(G); g.conns = [C(), C(), C()]
g.send_data_to_hosts("x", 1)
assert [bool(c.got) for c in g.conns] == [False, True, False]
for i in (-2, -3, 3, 4, -4):
    try: g.send_data_to_hosts("y", i)
    except ValueError: continue
    raise AssertionError("an unknown host was accepted: %d" % i)
'''
