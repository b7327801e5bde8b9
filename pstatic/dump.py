import sys
from .engine import *
def dump(qual, root="/repo", opaque=(), **kw):
    p = Program(root)
    r = analyse(p, p.fn(qual), opaque=opaque, **kw)
    print("==", qual)
    for e in r.effects: print("  ", e)
    for o in r.returns+r.raises: print("  ", o)
    print("  unmodelled", r.it.unmodelled, "rec", r.it.recursion)
    return r
if __name__=="__main__":
    dump(sys.argv[1], opaque=sys.argv[2].split(",") if len(sys.argv)>2 else ())
