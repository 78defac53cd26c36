# assumed contract: TombstoneBitmap::release_chunks leaves every entry of the chunk table empty (its body frees through a table
# of 65536 pointers; covered by the bounded stand-ins). It writes nothing else.
import re
def _release(e, st, ins, name, a):
    from ir import PTR
    from engine import Ptr
    t = e.toptr(st, e.load(st, PTR, e.toptr(st, a[0])))
    e.memset(st, t, 0, 65536 * 8); return None
CONTRACTS = {"*": [(r"TombstoneBitmap::release_chunks\(\)", _release, "TombstoneBitmap::release_chunks empties the chunk table (bounded elsewhere)")]}
