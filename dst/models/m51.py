"""Executable reference model of the MCS-51 (8051/8052): instruction set, timers 0..2, serial port, interrupts, idle mode.

Written from the data sheet (MCS-51 user's manual), at the granularity the simulator exposes: one step() is one
instruction (or one idle cycle) followed by its machine cycles on the peripherals and by the interrupt decision."""

ACC, B, PSW, SP, DPL, DPH, P0, P1, P2, P3 = 0xe0, 0xf0, 0xd0, 0x81, 0x82, 0x83, 0x80, 0x90, 0xa0, 0xb0
IP, IE, TMOD, TCON, TH0, TL0, TH1, TL1, SCON, SBUF, PCON = 0xb8, 0xa8, 0x89, 0x88, 0x8c, 0x8a, 0x8d, 0x8b, 0x98, 0x99, 0x87
T2CON, T2MOD, RCAP2L, RCAP2H, TL2, TH2 = 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd
PORTS = {P0: 0, P1: 1, P2: 2, P3: 3}

CY = {0x84: 4, 0xa4: 4}
for _o in range(256):
    _l = _o & 15
    if _o in CY:
        continue
    if _l == 1 or _o in (0x02, 0x12, 0x22, 0x32, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0x73, 0x43, 0x53, 0x63,
                         0x72, 0x82, 0x92, 0xa0, 0xb0, 0x75, 0x85, 0x86, 0x87, 0x93, 0x83, 0x90, 0xa3, 0xa6, 0xa7,
                         0xc0, 0xd0, 0xd5, 0xe0, 0xe2, 0xe3, 0xf0, 0xf2, 0xf3) \
            or (0x88 <= _o <= 0x8f) or (0xa8 <= _o <= 0xaf) or (0xb4 <= _o <= 0xbf) or (0xd8 <= _o <= 0xdf):
        CY[_o] = 2
    else:
        CY[_o] = 1


class Unspec(Exception):
    """The program does something the documents leave open: compare no further."""


class M51:
    def __init__(s, t2=True, cmos=True):
        s.t2, s.cmos = t2, cmos
        s.iram = [0] * 256
        s.rom = bytearray(65536)
        s.xram = {}
        s.sfr = [0] * 256
        for p in PORTS:
            s.sfr[p] = 0xff
        s.sfr[SP] = 7
        s.pins = [0xff] * 4
        s.pc = 0
        s.ticks = 0              # machine cycles
        s.state = "go"
        s.levels = []
        s.was_reti = False
        s.e01 = [0, 0]           # pending 1->0 edges of T0, T1
        s.e2 = s.e2x = 0
        s.t2mode = "reload"
        s.rxq = []               # bytes at the serial input
        s.tx = []                # bytes sent
        s.s_in = s.s_out = 0
        s.sending = s.receiving = False
        s.trc = s.rrc = s.trb = s.rrb = 0
        s.accepted = []          # vectors, in order
        s.xw = {}
        s.cov = {}

    # --- memory
    def rd(s, a):
        if a < 0x80:
            return s.iram[a]
        if a in PORTS:
            return s.sfr[a] & s.pins[PORTS[a]]
        if a == SBUF:
            return s.s_in
        return s.sfr[a]

    def latch(s, a):
        if a == SBUF:
            raise Unspec("rmw of SBUF")
        return s.iram[a] if a < 0x80 else s.sfr[a]

    def wr(s, a, v):
        v &= 255
        if a < 0x80:
            s.iram[a] = v
            return
        old = s.sfr[a]
        if a == PSW:
            v = (v & 0xfe) | (bin(s.sfr[ACC]).count("1") & 1)
        s.sfr[a] = v
        if a == ACC:
            s.sfr[PSW] = (s.sfr[PSW] & 0xfe) | (bin(v).count("1") & 1)
        elif a in PORTS:
            p = PORTS[a]
            s.port_event(p, old & s.pins[p], v & s.pins[p])
        elif a == SBUF:
            if s.sending:
                raise Unspec("SBUF written while sending")
            s.s_out = v
            s.sending = True
            s.trb = s.trc = 0
        elif a == SCON:
            if (old ^ v) & 0xc0 and (s.sending or s.receiving):
                raise Unspec("serial mode changed during transfer")
        elif a == PCON:
            if (old ^ v) & 0x80 and (s.sending or s.receiving):
                raise Unspec("SMOD changed during transfer")
        elif a == TMOD:
            for i in (0, 1):
                if (old ^ v) & (4 << 4 * i):
                    s.e01[i] = 0
        elif a == TCON:
            for i in (0, 1):
                if (old ^ v) & (0x10 << 2 * i):
                    s.e01[i] = 0
        elif a in (IE, IP):
            s.was_reti = True
        elif a == T2CON and s.t2:
            if (old ^ v) & 0x30 and (s.sending or s.receiving):
                raise Unspec("serial clock changed during transfer")
            if (old ^ v) & 0x04:
                s.e2 = s.e2x = 0
            if (old ^ v) & 0x02:
                s.e2 = 0
            if (old ^ v) & 0x08:
                s.e2x = 0
            s.pick()
        elif a == T2MOD and s.t2:
            s.pick()

    def pick(s):
        c = s.sfr[T2CON]
        if c & 0x30:
            m = "baud"
        elif c & 1:
            m = "capture"
        elif s.sfr[T2MOD] & 1:
            m = "down"
        else:
            m = "reload"
        if m != s.t2mode:
            s.e2 = s.e2x = 0
            s.t2mode = m

    def rdi(s, a):
        if a >= 0x80 and not s.t2:
            raise Unspec("no upper iram")
        return s.iram[a]

    def wri(s, a, v):
        if a >= 0x80 and not s.t2:
            raise Unspec("no upper iram")
        s.iram[a] = v & 255

    def bitof(s, a):
        return (0x20 + (a >> 3), 1 << (a & 7)) if a < 0x80 else (a & 0xf8, 1 << (a & 7))

    def bit(s, a):
        b, m = s.bitof(a)
        return 1 if s.rd(b) & m else 0

    def bitl(s, a):
        b, m = s.bitof(a)
        return 1 if s.latch(b) & m else 0

    def wbit(s, a, v):
        b, m = s.bitof(a)
        c = s.latch(b)
        s.wr(b, c | m if v else c & ~m)

    def ra(s, n):
        return (s.sfr[PSW] & 0x18) + n

    # --- environment
    def set_pins(s, p, v):
        old, s.pins[p] = s.pins[p], v & 255
        l = s.sfr[(P0, P1, P2, P3)[p]]
        s.port_event(p, old & l, v & l)

    def port_event(s, p, o, n):
        fall = o & ~n
        if p == 3:
            for i in (0, 1):
                if fall & (0x10 << i):
                    s.e01[i] += 1
                    s.cov["t%d_edge" % i] = 1
                if fall & (0x04 << i) and s.sfr[TCON] & (1 << 2 * i):
                    s.sfr[TCON] |= 2 << 2 * i
        elif p == 1 and s.t2:
            if fall & 1:
                s.e2 += 1
            if fall & 2:
                s.e2x += 1

    # --- instruction
    def fetch(s):
        v = s.rom[s.pc]
        s.pc = (s.pc + 1) & 0xffff
        return v

    def push(s, v):
        sp = s.sfr[SP] + 1
        if sp > 255:
            raise Unspec("stack overflow")
        s.sfr[SP] = sp
        s.wri(sp, v)

    def pop(s):
        sp = s.sfr[SP]
        v = s.rdi(sp)
        if sp == 0:
            raise Unspec("stack underflow")
        s.sfr[SP] = sp - 1
        return v

    def flags(s, cy=None, ac=None, ov=None):
        p = s.sfr[PSW]
        for v, m in ((cy, 0x80), (ac, 0x40), (ov, 4)):
            if v is not None:
                p = p | m if v else p & ~m
        s.sfr[PSW] = p

    def add(s, d, c=0):
        a = s.sfr[ACC]
        r = a + d + c
        s.flags(r > 255, (a & 15) + (d & 15) + c > 15, ((a ^ r) & (d ^ r) & 0x80) != 0)
        s.wr(ACC, r)

    def subb(s, d):
        a, c = s.sfr[ACC], s.sfr[PSW] >> 7
        r = a - d - c
        s.flags(r < 0, (a & 15) - (d & 15) - c < 0, ((a ^ d) & (a ^ r) & 0x80) != 0)
        s.wr(ACC, r)

    def src(s, l):
        """operand read of column l (4..f)"""
        if l == 4:
            return s.fetch()
        if l == 5:
            return s.rd(s.fetch())
        if l < 8:
            return s.rdi(s.iram[s.ra(l & 1)])
        return s.iram[s.ra(l & 7)]

    def rel(s, cond):
        d = s.fetch()
        if cond:
            s.pc = (s.pc + d - (256 if d > 127 else 0)) & 0xffff

    def exec1(s):
        o = s.fetch()
        h, l = o >> 4, o & 15
        S = s.sfr
        s.cov["op%02x" % o] = 1
        if l == 1:
            lo = s.fetch()
            if h & 1:
                s.push(s.pc & 255)
                s.push(s.pc >> 8)
            s.pc = (s.pc & 0xf800) | (o >> 5) << 8 | lo
        elif o == 0x00:
            pass
        elif o in (0x02, 0x12):
            hi, lo = s.fetch(), s.fetch()
            if o == 0x12:
                s.push(s.pc & 255)
                s.push(s.pc >> 8)
            s.pc = hi << 8 | lo
        elif o in (0x22, 0x32):
            hi = s.pop()
            s.pc = hi << 8 | s.pop()
            if o == 0x32:
                s.was_reti = True
                if s.levels:
                    s.levels.pop()
        elif o in (0x10, 0x20, 0x30):
            b, = [s.fetch()]
            v = s.bitl(b) if o == 0x10 else s.bit(b)
            if o == 0x10 and v:
                s.wbit(b, 0)
            s.rel(v if o != 0x30 else not v)
        elif o == 0x40 or o == 0x50:
            s.rel((S[PSW] >> 7) == (o == 0x40))
        elif o == 0x60 or o == 0x70:
            s.rel((S[ACC] == 0) == (o == 0x60))
        elif o == 0x80:
            s.rel(True)
        elif o == 0x90:
            S[DPH] = s.fetch()
            S[DPL] = s.fetch()
        elif o in (0x72, 0x82, 0xa0, 0xb0, 0xa2):
            v = s.bit(s.fetch())
            c = S[PSW] >> 7
            if o in (0xa0, 0xb0):
                v = 1 - v
            c = v if o == 0xa2 else (c | v) if o in (0x72, 0xa0) else (c & v)
            s.flags(cy=c)
        elif o == 0x92:
            b = s.fetch()
            s.wbit(b, S[PSW] >> 7)
        elif o == 0xb2:
            b = s.fetch()
            s.wbit(b, 1 - s.bitl(b))
        elif o == 0xc2:
            s.wbit(s.fetch(), 0)
        elif o == 0xd2:
            s.wbit(s.fetch(), 1)
        elif o in (0xb3, 0xc3, 0xd3):
            s.flags(cy={0xb3: 1 - (S[PSW] >> 7), 0xc3: 0, 0xd3: 1}[o])
        elif o == 0xc0:
            v = s.rd(s.fetch())
            s.push(v)
        elif o == 0xd0:
            a = s.fetch()
            v = s.pop()
            s.wr(a, v)
        elif o == 0x03:
            s.wr(ACC, S[ACC] >> 1 | S[ACC] << 7)
        elif o == 0x23:
            s.wr(ACC, S[ACC] << 1 | S[ACC] >> 7)
        elif o == 0x13:
            c, a = S[PSW] >> 7, S[ACC]
            s.flags(cy=a & 1)
            s.wr(ACC, a >> 1 | c << 7)
        elif o == 0x33:
            c, a = S[PSW] >> 7, S[ACC]
            s.flags(cy=a >> 7)
            s.wr(ACC, a << 1 | c)
        elif o in (0x43, 0x53, 0x63, 0x42, 0x52, 0x62):
            a = s.fetch()
            v = s.fetch() if o & 1 else S[ACC]
            c = s.latch(a)
            s.wr(a, c | v if h == 4 else c & v if h == 5 else c ^ v)
        elif o == 0x73:
            s.pc = ((S[DPH] << 8 | S[DPL]) + S[ACC]) & 0xffff
        elif o in (0x83, 0x93):
            base = s.pc if o == 0x83 else S[DPH] << 8 | S[DPL]
            s.wr(ACC, s.rom[(base + S[ACC]) & 0xffff])
        elif o == 0xa3:
            d = ((S[DPH] << 8 | S[DPL]) + 1) & 0xffff
            S[DPH], S[DPL] = d >> 8, d & 255
        elif o in (0xe0, 0xe2, 0xe3):
            a = S[DPH] << 8 | S[DPL] if o == 0xe0 else s.rd(P2) << 8 | s.iram[s.ra(o & 1)]
            s.wr(ACC, s.xram.get(a, 0))
        elif o in (0xf0, 0xf2, 0xf3):
            a = S[DPH] << 8 | S[DPL] if o == 0xf0 else s.rd(P2) << 8 | s.iram[s.ra(o & 1)]
            s.xram[a] = s.xw[a] = S[ACC]
        elif o == 0x84:
            a, b = S[ACC], S[B]
            s.flags(cy=0, ov=not b)
            if b:
                S[B] = a % b
                s.wr(ACC, a // b)
        elif o == 0xa4:
            r = S[ACC] * S[B]
            S[B] = r >> 8
            s.flags(cy=0, ov=r > 255)
            s.wr(ACC, r)
        elif o == 0xd4:
            a, c = S[ACC], S[PSW] >> 7
            if (a & 15) > 9 or S[PSW] & 0x40:
                a += 6
            if a > 255:
                c = 1
            if c or (a & 0xf0) > 0x90:
                a = (a & 255) + 0x60 | (a & 0x100)
            if a > 255:
                c = 1
            s.flags(cy=c)
            s.wr(ACC, a)
        elif o == 0xa5:
            raise Unspec("a5")
        elif o in (0xe4, 0xf4, 0xc4):
            a = S[ACC]
            s.wr(ACC, 0 if o == 0xe4 else a ^ 255 if o == 0xf4 else a << 4 | a >> 4)
        elif o in (0x04, 0x14):
            s.wr(ACC, S[ACC] + (1 if h == 0 else -1))
        elif h <= 1:                              # INC/DEC
            d = 1 if h == 0 else -1
            if l == 5:
                a = s.fetch()
                s.wr(a, s.latch(a) + d)
            else:
                a = s.iram[s.ra(l & 1)] if l < 8 else s.ra(l & 7)
                s.wri(a, s.rdi(a) + d)
        elif h == 2:
            s.add(s.src(l))
        elif h == 3:
            s.add(s.src(l), S[PSW] >> 7)
        elif h in (4, 5, 6):
            v = s.src(l)
            a = S[ACC]
            s.wr(ACC, a | v if h == 4 else a & v if h == 5 else a ^ v)
        elif h == 7:                              # MOV x,#
            if l == 4:
                s.wr(ACC, s.fetch())
            elif l == 5:
                a = s.fetch()
                s.wr(a, s.fetch())
            else:
                a = s.iram[s.ra(l & 1)] if l < 8 else s.ra(l & 7)
                s.wri(a, s.fetch())
        elif h == 8:                              # MOV dir,x
            if l == 5:
                v = s.rd(s.fetch())
                s.wr(s.fetch(), v)
            elif l < 8:
                a = s.fetch()
                s.wr(a, s.rdi(s.iram[s.ra(l & 1)]))
            else:
                a = s.fetch()
                s.wr(a, s.iram[s.ra(l & 7)])
        elif h == 9:
            s.subb(s.src(l))
        elif h == 10:                             # MOV x,dir
            a = s.iram[s.ra(l & 1)] if l < 8 else s.ra(l & 7)
            s.rdi(a)
            s.wri(a, s.rd(s.fetch()))
        elif h == 11:                             # CJNE
            if l == 4:
                x, y = S[ACC], s.fetch()
            elif l == 5:
                x, y = S[ACC], s.rd(s.fetch())
            else:
                x = s.rdi(s.iram[s.ra(l & 1)]) if l < 8 else s.iram[s.ra(l & 7)]
                y = s.fetch()
            s.flags(cy=x < y)
            s.rel(x != y)
        elif h == 12:                             # XCH
            if l == 5:
                a = s.fetch()
                t = S[ACC]
                s.wr(ACC, s.rd(a))
                s.wr(a, t)
            else:
                a = s.iram[s.ra(l & 1)] if l < 8 else s.ra(l & 7)
                t = S[ACC]
                s.wr(ACC, s.rdi(a))
                s.wri(a, t)
        elif h == 13:
            if l == 5:
                a = s.fetch()
                if a == PSW:
                    raise Unspec("djnz psw")
                v = (s.latch(a) - 1) & 255
                s.wr(a, v)
                s.rel(v != 0)
            elif l < 8:
                a = s.iram[s.ra(l & 1)]
                v, t = s.rdi(a), S[ACC]
                s.wri(a, v & 0xf0 | t & 15)
                s.wr(ACC, t & 0xf0 | v & 15)
            else:
                a = s.ra(l & 7)
                v = (s.iram[a] - 1) & 255
                s.iram[a] = v
                s.rel(v != 0)
        elif h == 14:                             # MOV A,x
            if l == 5:
                a = s.fetch()
                if a == ACC:
                    raise Unspec("mov a,acc")
                s.wr(ACC, s.rd(a))
            else:
                s.wr(ACC, s.src(l))
        else:                                     # MOV x,A
            if l == 5:
                s.wr(s.fetch(), S[ACC])
            else:
                a = s.iram[s.ra(l & 1)] if l < 8 else s.ra(l & 7)
                s.wri(a, S[ACC])
        return CY[o]

    # --- peripherals: one machine cycle
    def count16(s, lo, hi, n=1):
        """-> overflow"""
        v = (s.sfr[hi] << 8 | s.sfr[lo]) + n
        s.sfr[hi], s.sfr[lo] = v >> 8 & 255, v & 255
        return v > 0xffff

    def timer01(s, i):
        S = s.sfr
        f = S[TMOD] >> 4 * i & 15
        mode = f & 3
        tr = S[TCON] & (0x10 << 2 * i)
        tl, th, tf = (TL0, TL1)[i], (TH0, TH1)[i], 0x20 << 2 * i
        ovf = 0
        gate = not (f & 8) or (S[P3] & s.pins[3] & (4 << i))
        n = (s.e01[i] if f & 4 else 1) if tr and gate else 0
        s.e01[i] = 0
        if mode == 3 and i == 1:
            return 0
        if n:
            s.cov["t%d_m%d%s%s" % (i, mode, "c" if f & 4 else "", "g" if f & 8 else "")] = 1
        for _ in range(n):
            if mode == 0:
                v = (S[tl] & 31) + 1
                if (S[tl] + 1) & 31:
                    S[tl] = (S[tl] + 1) & 255
                else:
                    S[tl] = 0
                    S[th] = (S[th] + 1) & 255
                    if not S[th]:
                        S[TCON] |= tf
                        ovf += 1
            elif mode == 1:
                if s.count16(tl, th):
                    S[TCON] |= tf
                    ovf += 1
            else:
                S[tl] = (S[tl] + 1) & 255
                if not S[tl]:
                    if mode == 2:
                        S[tl] = S[th]
                    S[TCON] |= tf
                    ovf += 1
        if mode == 3 and i == 0:
            if S[TMOD] >> 4 & 3 != 3:
                raise Unspec("T0 mode 3 with T1 running")
            if S[TCON] & 0x40:
                S[TH0] = (S[TH0] + 1) & 255
                if not S[TH0]:
                    S[TCON] |= 0x80
        return ovf

    def timer2(s):
        S = s.sfr
        c = S[T2CON]
        run, ct, m = c & 4, c & 2, s.t2mode
        e2, e2x = s.e2, s.e2x
        s.e2 = s.e2x = 0
        ovf = 0
        if m != "down" and c & 8 and e2x:
            S[T2CON] |= 0x40
            s.cov["t2ex_" + m] = 1
            if m == "capture":
                S[RCAP2H], S[RCAP2L] = S[TH2], S[TL2]
            elif m == "reload":
                S[TH2], S[TL2] = S[RCAP2H], S[RCAP2L]
        if not run:
            return 0
        n = e2 if ct else 6 if m == "baud" else 1
        if n:
            s.cov["t2_" + m + ("c" if ct else "")] = 1
        up = S[P1] & s.pins[1] & 2
        for _ in range(n):
            if m == "down" and not up:
                v, r = S[TH2] << 8 | S[TL2], S[RCAP2H] << 8 | S[RCAP2L]
                if v < r or r == 0:
                    raise Unspec("T2 below RCAP2 counting down")
                v -= 1
                if v < r:
                    v = 0xffff
                    S[T2CON] = (S[T2CON] | 0x80) ^ 0x40
                S[TH2], S[TL2] = v >> 8, v & 255
                continue
            if s.count16(TL2, TH2):
                if m != "capture":
                    S[TH2], S[TL2] = S[RCAP2H], S[RCAP2L]
                if m == "baud":
                    ovf += 1
                else:
                    S[T2CON] |= 0x80
                if m == "down":
                    S[T2CON] ^= 0x40
        return ovf

    def divs(s, bit):
        m = s.sfr[SCON] >> 6
        smod = s.sfr[PCON] & 0x80
        if m == 0:
            return 12
        if m == 2:
            return 32 if smod else 64
        return 16 if s.t2 and s.sfr[T2CON] & bit else 16 if smod else 32

    def uart(s):
        m = s.sfr[SCON] >> 6
        bits = (8, 10, 11, 11)[m]
        if s.sending:
            d = s.divs(0x10)
            while s.trc >= d:
                s.trc -= d
                s.trb += 1
            if s.trb >= bits:
                s.sending = False
                s.tx.append(s.s_out)
                s.sfr[SCON] |= 2
                s.cov["tx_m%d" % m] = 1
        if s.receiving:
            d = s.divs(0x20)
            while s.rrc >= d:
                s.rrc -= d
                s.rrb += 1
        if s.sfr[SCON] & 0x10 and not s.receiving and s.rxq:
            s.receiving = True
            s.rrb = s.rrc = 0
        if s.receiving and s.rrb >= bits:
            s.receiving = False
            s.s_in = s.rxq.pop(0)
            s.sfr[SCON] |= 1
            s.cov["rx_m%d" % m] = 1
        if m in (0, 2):
            s.trc += 12
            s.rrc += 12

    def cycle(s):
        s.timer01(0)
        if s.sfr[SCON] & 0x40:
            t2 = s.sfr[T2CON] if s.t2 else 0
            for _ in range(s.timer01(1)):
                if not t2 & 0x10:
                    s.trc += 1
                if not t2 & 0x20:
                    s.rrc += 1
        else:
            s.timer01(1)
        s.uart()
        S = s.sfr
        for i in (0, 1):
            if not S[TCON] & (1 << 2 * i):
                if S[P3] & s.pins[3] & (4 << i):
                    S[TCON] &= ~(2 << 2 * i)
                else:
                    S[TCON] |= 2 << 2 * i
        if s.t2:
            n = s.timer2()
            if S[SCON] & 0x40:
                if S[T2CON] & 0x10:
                    s.trc += n
                if S[T2CON] & 0x20:
                    s.rrc += n

    def run_cycles(s, n):
        s.ticks += n
        if s.state == "pd":
            return
        for _ in range(n):
            s.cycle()

    # vectors in polling order: (vector, IE/IP bit, sfr, flag, cleared)
    SRC = ((0x03, 0, TCON, 0x02, True), (0x0b, 1, TCON, 0x20, True), (0x13, 2, TCON, 0x08, True),
           (0x1b, 3, TCON, 0x80, True), (0x23, 4, SCON, 0x03, False), (0x2b, 5, T2CON, 0xc0, False))

    def interrupts(s):
        S = s.sfr
        if s.was_reti:
            s.was_reti = False
            return False
        if not S[IE] & 0x80:
            return False
        best = None
        cur = s.levels[-1] if s.levels else -1
        for v in s.SRC:
            if v[1] == 5 and not s.t2:
                continue
            m = 0x80 if v[1] == 5 and s.t2mode == "down" else v[3]
            if S[IE] & (1 << v[1]) and S[v[2]] & m:
                pr = 1 if S[IP] & (1 << v[1]) else 0
                if pr > cur and (best is None or pr > best[0]):
                    best = (pr, v)
        if best is None:
            return False
        pr, v = best
        if v[4]:
            S[v[2]] &= ~v[3]
        s.cov["irq%02x_%d%s%s" % (v[0], pr, "n" if s.levels else "", "i" if s.state != "go" else "")] = 1
        s.state = "go"
        S[PCON] &= 0xfe
        s.levels.append(pr)
        s.accepted.append(v[0])
        s.push(s.pc & 255)
        s.push(s.pc >> 8)
        s.pc = v[0]
        s.run_cycles(1)
        return True

    def step(s):
        if s.state == "go":
            s.was_reti = False
            n = s.exec1()
        else:
            n = 1
        s.run_cycles(n)
        if not s.interrupts() and s.cmos:
            if s.sfr[PCON] & 1:
                s.state = "idle"
            if s.sfr[PCON] & 2:
                s.state = "pd"
