"""pyserve.py DIR: answers requests through the Python package in DIR.  A request is a line: a function's name, two
numbers (64-bit patterns), and ids; the answer is a line with a 64-bit pattern for each id (one, if there is none).
Patterns ...1 and ...5 of a not-a-number stand for an exception and for a function that is not there."""
import struct, sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
ERR, MISSING = 0x7ff8deadbeef0001, 0x7ff8deadbeef0005
try:
    import seuif97
    space = {}
    exec("from seuif97 import *", space)
except Exception as e:
    sys.stderr.write("pyserve: %r\n" % e)
    seuif97 = None
def num(s): return struct.unpack("<d", struct.pack("<Q", int(s)))[0]
def call(f, *a):
    try:
        r = f(*a)
        if type(r) is not float: return ERR
        return struct.unpack("<Q", struct.pack("<d", r))[0]
    except BaseException:
        return ERR
for line in sys.stdin:
    w = line.split()
    f = getattr(seuif97, w[0], None)
    n = max(1, len(w) - 3)
    if f is None or space.get(w[0]) is not f: r = [MISSING] * n
    elif len(w) == 3: r = [call(f, num(w[1]), num(w[2]))]
    else: r = [call(f, num(w[1]), num(w[2]), int(i)) for i in w[3:]]
    sys.stdout.write(" ".join(map(str, r)) + "\n")
    sys.stdout.flush()
