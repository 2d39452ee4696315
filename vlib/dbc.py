"""DBC model and independent oracle (definition of the bit layout, ranges and physical values)."""

class Sig:
    def __init__(s, name, start, length, order="I", signed=False, factor="1", offset="0", unit="", recs=("Vector__XXX",),
                 mux="", minv="0", maxv="0"):
        s.name=name; s.start=start; s.length=length; s.order=order; s.signed=signed
        s.factor=factor; s.offset=offset; s.unit=unit; s.recs=list(recs); s.mux=mux; s.minv=minv; s.maxv=maxv
    # -- classification by the documented rules
    @property
    def is_double(s):
        return any(c in s.factor+s.offset for c in ".eE")
    @property
    def is_simple(s):
        return not s.is_double and float(s.factor) == 1 and float(s.offset) == 0
    @property
    def field(s):
        return s.name if s.is_simple else s.name + "_ro"
    @property
    def phys(s):
        return s.name + "_phys"
    def line(s):
        return ' SG_ %s%s : %d|%d@%d%s (%s,%s) [%s|%s] "%s" %s' % (s.name, (" " + s.mux) if s.mux else "", s.start, s.length,
            1 if s.order == "I" else 0, "-" if s.signed else "+", s.factor, s.offset, s.minv, s.maxv, s.unit, ",".join(s.recs))
    def bits(s):
        """(byte, bit) positions, least significant first - the DBC definition."""
        if s.order == "I":
            return [((s.start + i) // 8, (s.start + i) % 8) for i in range(s.length)]
        out = []; by, bi = s.start // 8, s.start % 8
        for _ in range(s.length):
            out.append((by, bi))
            if bi == 0: by += 1; bi = 7
            else: bi -= 1
        return out[::-1]
    def fits(s, dlc):
        return all(0 <= b < dlc for b, _ in s.bits())
    def decode(s, data):
        v = 0
        for i, (by, bi) in enumerate(s.bits()):
            v |= ((data[by] >> bi) & 1) << i
        if s.signed and v >> (s.length - 1) & 1:
            v -= 1 << s.length
        return v
    def encode(s, data, value):
        for i, (by, bi) in enumerate(s.bits()):
            if (value >> i) & 1: data[by] |= 1 << bi
    def rawrange(s):
        return (-(1 << (s.length-1)), (1 << (s.length-1)) - 1) if s.signed else (0, (1 << s.length) - 1)
    def ctype_bits(s):
        for w in (8, 16, 32, 64):
            if s.length <= w: return w

class Msg:
    def __init__(m, mid, name, dlc, sigs=(), tx="Vector__XXX", ext=False):
        m.mid=mid; m.name=name; m.dlc=dlc; m.sigs=list(sigs); m.tx=tx; m.ext=ext
    @property
    def dbcid(m):
        return m.mid | (0x80000000 if m.ext else 0)
    def lines(m):
        return ["BO_ %d %s: %d %s" % (m.dbcid, m.name, m.dlc, m.tx)] + [s.line() for s in m.sigs] + [""]

class Dbc:
    def __init__(d, msgs, version=None, tail=()):
        d.msgs=list(msgs); d.version=version; d.tail=list(tail)
    def text(d):
        L = []
        if d.version is not None: L.append('VERSION "%s"' % d.version)
        L += ["", "NS_ :", "", "BS_:", "", "BU_: A B C", ""]
        for m in d.msgs: L += m.lines()
        L += d.tail
        return "\n".join(L) + "\n"

def rand_layout(rng, dlc, nmax, signed=True, names="s", lens=None, orders="IM"):
    """Non-overlapping random signals inside dlc bytes."""
    used = set(); out = []
    for _ in range(nmax * 4):
        if len(out) >= nmax: break
        ln = rng.choice(lens) if lens else rng.choice([1,2,3,4,7,8,9,12,15,16,17,20,24,25,31,32,33,34,36,39,40,48,55,56,57,63,64, rng.randint(1,64)])
        s = Sig("%s%d" % (names, len(out)), rng.randrange(dlc*8), ln, rng.choice(orders), signed and rng.random() < .5)
        if not s.fits(dlc): continue
        b = set(s.bits())
        if b & used: continue
        used |= b; out.append(s)
    return out
