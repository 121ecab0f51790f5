"""minimal ELF64 relocatable reader"""
import struct


def symtab(p):
    b = open(p, 'rb').read()
    shoff, = struct.unpack_from('<Q', b, 40); num, = struct.unpack_from('<H', b, 60); sx, = struct.unpack_from('<H', b, 62)
    sh = [struct.unpack_from('<IIQQQQIIQQ', b, shoff + 64 * i) for i in range(num)]
    S = lambda t, o: b[sh[t][4] + o:b.index(b'\0', sh[t][4] + o)].decode('latin1')
    out = {}
    for s in sh:
        if s[1] != 2: continue
        for o in range(s[4] + 24, s[4] + s[5], 24):
            n, info, oth, shn, val, sz = struct.unpack_from('<IBBHQQ', b, o)
            nm = S(s[6], n)
            sec = {0: 'UND', 0xfff2: 'COM', 0xfff1: 'ABS'}.get(shn)
            e = dict(bind='LGW'[info >> 4] if info >> 4 < 3 else '?', type=info & 15, vis=oth & 3, shn=shn, val=val, size=sz, align=None, flags=None, data=None)
            if sec is None:
                q = sh[shn]; sec = S(sx, q[0])
                e['flags'] = ''.join(c for c, f in (('W', 1), ('X', 4), ('T', 0x400)) if q[2] & f); e['align'] = q[8]; e['nobits'] = q[1] == 8
                if q[1] != 8 and sz: e['data'] = b[q[4] + val:q[4] + val + sz]
            e['sec'] = sec
            if nm: out.setdefault(nm, []).append(e)
    return out
