"""Reference definition of SGP4/SDP4 initialisation and propagation (after Vallado et al., Revisiting Spacetrack Report #3).

Written independently of the library source, in the notation of the published reference code; where the published code
and the documentation of the library differ in presentation only (position of angle reductions), the equations below are
free of reductions, because the comparison ignores whole turns inside trigonometric functions.
"""
from dsl import Ref, X, C

WGS84 = dict(ae=6378.137, ke=0.07436685316871385, j2=0.00108262998905, j3=-0.00000253215306, j4=-0.00000161098761)
WGS72 = dict(ae=6378.135, ke=0.07436691613317342, j2=0.001082616, j3=-0.00000253881, j4=-0.00000165597)


def kozai(R, g, incl, ecc, n_kozai):
    """Brouwer mean motion from the Kozai mean motion."""
    cosio = R.cos(incl)
    omeosq = 1 - ecc ** 2
    ak = (g['ke'] / n_kozai) ** (R.num(2) / 3)
    d1 = 0.75 * g['j2'] * (3 * cosio ** 2 - 1) / (R.sqrt(omeosq) * omeosq)
    d = d1 / ak ** 2
    adel = ak * (1 - d ** 2 - d * (R.num(1) / 3 + 134 * d ** 2 / 81))
    d = d1 / adel ** 2
    return n_kozai / (1 + d)


def sidereal_iau(R, years):
    """IAU-82 Greenwich mean sidereal time, years since J2000.0 (Julian years)."""
    c = years / 100
    sec = -6.2e-6 * c ** 3 + 0.093104 * c ** 2 + (876600.0 * 3600 + 8640184.812866) * c + 67310.54841
    # one second of time is 1/240 degree
    return R.modp(sec * (R.pi / 180) / 240, 2 * R.pi)


def sidereal_afspc(R, years):
    """AFSPC 1970-based expression; years since J2000.0."""
    d = 365.25 * (years + 30) + 1                      # days since 1970 January 0.0
    whole = R.floor(d + 1.0e-8)
    frac = d - whole
    c1 = 1.72027916940703639e-2
    th = 1.7321343856509374 + c1 * whole + (c1 + 2 * R.pi) * frac + d ** 2 * 5.07551419432269442e-15
    return R.modp(th, 2 * R.pi)


def near_equatorial(R, o):
    return (o['incl'] < 5.2359877e-2) | (o['incl'] > R.pi - 5.2359877e-2)


def third_body(R, o, n, zcosg, zsing, zcosi, zsini, zcosh, zsinh, cc, zn, ze):
    """Coefficients of one perturbing body (dscom) and secular rates (dsinit)."""
    em, emsq = o['ecc'], o['ecc'] ** 2
    betasq = 1 - emsq
    rtemsq = R.sqrt(betasq)
    sinim, cosim = R.sin(o['incl']), R.cos(o['incl'])
    sinomm, cosomm = R.sin(o['argp']), R.cos(o['argp'])
    a1 = zcosg * zcosh + zsing * zcosi * zsinh
    a3 = -zsing * zcosh + zcosg * zcosi * zsinh
    a7 = -zcosg * zsinh + zsing * zcosi * zcosh
    a8 = zsing * zsini
    a9 = zsing * zsinh + zcosg * zcosi * zcosh
    a10 = zcosg * zsini
    a2 = cosim * a7 + sinim * a8
    a4 = cosim * a9 + sinim * a10
    a5 = -sinim * a7 + cosim * a8
    a6 = -sinim * a9 + cosim * a10
    x1 = a1 * cosomm + a2 * sinomm
    x2 = a3 * cosomm + a4 * sinomm
    x3 = -a1 * sinomm + a2 * cosomm
    x4 = -a3 * sinomm + a4 * cosomm
    x5, x6, x7, x8 = a5 * sinomm, a6 * sinomm, a5 * cosomm, a6 * cosomm
    z31 = 12 * x1 * x1 - 3 * x3 * x3
    z32 = 24 * x1 * x2 - 6 * x3 * x4
    z33 = 12 * x2 * x2 - 3 * x4 * x4
    z1 = 3 * (a1 * a1 + a2 * a2) + z31 * emsq
    z2 = 6 * (a1 * a3 + a2 * a4) + z32 * emsq
    z3 = 3 * (a3 * a3 + a4 * a4) + z33 * emsq
    z11 = -6 * a1 * a5 + emsq * (-24 * x1 * x7 - 6 * x3 * x5)
    z12 = -6 * (a1 * a6 + a3 * a5) + emsq * (-24 * (x2 * x7 + x1 * x8) - 6 * (x3 * x6 + x4 * x5))
    z13 = -6 * a3 * a6 + emsq * (-24 * x2 * x8 - 6 * x4 * x6)
    z21 = 6 * a2 * a5 + emsq * (24 * x1 * x5 - 6 * x3 * x7)
    z22 = 6 * (a4 * a5 + a2 * a6) + emsq * (24 * (x2 * x5 + x1 * x6) - 6 * (x4 * x7 + x3 * x8))
    z23 = 6 * a4 * a6 + emsq * (24 * x2 * x6 - 6 * x4 * x8)
    z1 = z1 + z1 + betasq * z31
    z2 = z2 + z2 + betasq * z32
    z3 = z3 + z3 + betasq * z33
    s3 = cc / n
    s2 = -0.5 * s3 / rtemsq
    s4 = s3 * rtemsq
    s1 = -15 * em * s4
    s5 = x1 * x3 + x2 * x4
    s6 = x2 * x3 + x1 * x4
    s7 = x2 * x4 - x1 * x3
    k = dict(
        e2=2 * s1 * s6, e3=2 * s1 * s7,
        i2=2 * s2 * z12, i3=2 * s2 * (z13 - z11),
        l2=-2 * s3 * z2, l3=-2 * s3 * (z3 - z1), l4=-2 * s3 * (-21 - 9 * emsq) * ze,
        gh2=2 * s4 * z32, gh3=2 * s4 * (z33 - z31), gh4=-18 * s4 * ze,
        h2=-2 * s2 * z22, h3=-2 * s2 * (z23 - z21))
    equatorial = near_equatorial(R, o)
    sh = R.ite(equatorial, R.num(0), -zn * s2 * (z21 + z23) / sinim)
    dots = dict(e=s1 * zn * s5, i=s2 * zn * (z11 + z13), m=-zn * s3 * (z1 + z3 - 14 - 6 * emsq), node=sh,
                argp=s4 * zn * (z31 + z33 - 6) - cosim * sh)
    return k, dots


def periodics(R, k, zm0, zn, ze, t):
    """dpper contributions of one body at time t."""
    zm = zm0 + zn * t
    zf = zm + 2 * ze * R.sin(zm)
    sz = R.sin(zf)
    f2 = 0.5 * sz * sz - 0.25
    f3 = -0.5 * sz * R.cos(zf)
    return dict(e=k['e2'] * f2 + k['e3'] * f3, i=k['i2'] * f2 + k['i3'] * f3,
                l=k['l2'] * f2 + k['l3'] * f3 + k['l4'] * sz,
                gh=k['gh2'] * f2 + k['gh3'] * f3 + k['gh4'] * sz, h=k['h2'] * f2 + k['h3'] * f3)


def poly(e, *c):
    r = None
    p = None
    for q in c:
        term = q if p is None else q * p
        r = term if r is None else r + term
        p = e if p is None else p * e
    return r


class Sgp4:
    """All quantities of one orbit: g (ae, ke, j2, j3, j4), o (incl, node, ecc, argp, m, n = Brouwer), bstar, epoch (years)."""

    ZNS, ZES, C1SS = 1.19459e-5, 0.01675, 2.9864797e-6
    ZNL, ZEL, C1L = 1.5835218e-4, 0.05490, 4.7968065e-7

    def __init__(self, R, g, o, bstar, epoch, gsto):
        self.R, self.g, self.o, self.bstar, self.epoch, self.gsto = R, g, o, bstar, epoch, gsto
        self.init()

    def init(self):
        R, g, o, bstar = self.R, self.g, self.o, self.bstar
        self.j3oj2 = g['j3'] / g['j2']
        ecc, n, re, j2 = o['ecc'], o['n'], g['ae'], g['j2']
        cosio, sinio = R.cos(o['incl']), R.sin(o['incl'])
        c2 = cosio * cosio
        c4 = c2 * c2
        omeosq = 1 - ecc * ecc
        rteosq = R.sqrt(omeosq)
        ao = (g['ke'] / n) ** (R.num(2) / 3)
        po = ao * omeosq
        con42 = 1 - 5 * c2
        con41 = 3 * c2 - 1
        rp = ao * (1 - ecc)
        self.deep = ~(n > 2 * R.pi / 225)
        self.low = rp < 220 / re + 1
        self.elliptic = ecc > 1.0e-4
        perige = (rp - 1) * re
        self.below156, self.below98 = perige < 156, perige < 98
        self.retrograde = ~(R.abs(cosio + 1) > 1.5e-12)
        alt = R.ite(perige < 98, R.num(20), R.ite(perige < 156, perige - 78, R.num(78)))
        qzms24 = ((120 - alt) / re) ** 4
        sfour = alt / re + 1
        pinvsq = 1 / (po * po)
        tsi = 1 / (ao - sfour)
        eta = ao * ecc * tsi
        etasq = eta * eta
        eeta = ecc * eta
        psisq = R.abs(1 - etasq)
        coef = qzms24 * tsi ** 4
        coef1 = coef / psisq ** 3.5
        cc2 = coef1 * n * (ao * (1 + 1.5 * etasq + eeta * (4 + etasq))
                           + 0.375 * j2 * tsi / psisq * con41 * (8 + 3 * etasq * (8 + etasq)))
        cc1 = bstar * cc2
        cc3 = -2 * coef * tsi * self.j3oj2 * n * sinio / ecc
        x1mth2 = 1 - c2
        cc4 = 2 * n * coef1 * ao * omeosq * (
            eta * (2 + 0.5 * etasq) + ecc * (0.5 + 2 * etasq)
            - j2 * tsi / (ao * psisq) * (
                -3 * con41 * (1 - 2 * eeta + etasq * (1.5 - 0.5 * eeta))
                + 0.75 * x1mth2 * (2 * etasq - eeta * (1 + etasq)) * R.cos(2 * o['argp'])))
        cc5 = 2 * coef1 * ao * omeosq * (1 + 2.75 * (etasq + eeta) + eeta * etasq)
        t1 = 1.5 * j2 * pinvsq * n
        t2 = 0.5 * t1 * j2 * pinvsq
        t3 = -0.46875 * g['j4'] * pinvsq * pinvsq * n
        self.mdot = n + 0.5 * t1 * rteosq * con41 + 0.0625 * t2 * rteosq * (13 - 78 * c2 + 137 * c4)
        self.argpdot = -0.5 * t1 * con42 + 0.0625 * t2 * (7 - 114 * c2 + 395 * c4) + t3 * (3 - 36 * c2 + 49 * c4)
        xhdot1 = -t1 * cosio
        self.nodedot = xhdot1 + (0.5 * t2 * (4 - 19 * c2) + 2 * t3 * (3 - 7 * c2)) * cosio
        self.omgcof = bstar * cc3 * R.cos(o['argp'])
        self.xmcof = -(R.num(2) / 3) * coef * bstar / eeta
        self.nodecf = 3.5 * omeosq * xhdot1 * cc1
        self.t2cof = 1.5 * cc1
        self.delmo = (1 + eta * R.cos(o['m'])) ** 3
        self.sinmao = R.sin(o['m'])
        cc1sq = cc1 * cc1
        d2 = 4 * ao * tsi * cc1sq
        tmp = d2 * tsi * cc1 / 3
        d3 = (17 * ao + sfour) * tmp
        d4 = 0.5 * tmp * ao * tsi * (221 * ao + 31 * sfour) * cc1
        self.t3cof = d2 + 2 * cc1sq
        self.t4cof = 0.25 * (3 * d3 + cc1 * (12 * d2 + 10 * cc1sq))
        self.t5cof = 0.2 * (3 * d4 + 12 * cc1 * d3 + 6 * d2 * d2 + 15 * cc1sq * (2 * d2 + cc1sq))
        self.ao, self.cc1, self.cc4, self.cc5, self.eta, self.d2, self.d3, self.d4 = ao, cc1, cc4, cc5, eta, d2, d3, d4
        self.init_deep()

    def init_deep(self):
        R, g, o = self.R, self.g, self.o
        day = 365.25 * (self.epoch + 100)
        node = o['node']
        xnodce = (4.5236020 - 9.2422029e-4 * day) % (2 * R.pi)
        stem, ctem = R.sin(xnodce), R.cos(xnodce)
        zcosil = 0.91375164 - 0.03568096 * ctem
        zsinil = R.sqrt(1 - zcosil * zcosil)
        zsinhl = 0.089683511 * stem / zsinil
        zcoshl = R.sqrt(1 - zsinhl * zsinhl)
        gam = 5.8351514 + 0.0019443680 * day
        zx = R.atan2(0.39785416 * stem / zsinil, zcoshl * ctem + 0.91744867 * zsinhl * stem)
        zx = gam + zx - xnodce
        self.zmos = 6.2565837 + 0.017201977 * day
        self.zmol = 4.7199672 + 0.22997150 * day - gam
        n0 = R.num
        self.ks, ds = third_body(R, o, o['n'], n0(0.1945905), n0(-0.98088458), n0(0.91744867), n0(0.39785416),
                                 R.cos(node), R.sin(node), n0(self.C1SS), n0(self.ZNS), n0(self.ZES))
        zcosh = zcoshl * R.cos(node) + zsinhl * R.sin(node)
        zsinh = R.sin(node) * zcoshl - R.cos(node) * zsinhl
        self.kl, dl = third_body(R, o, o['n'], R.cos(zx), R.sin(zx), zcosil, zsinil, zcosh, zsinh,
                                 n0(self.C1L), n0(self.ZNL), n0(self.ZEL))
        self.dedt, self.didt, self.dmdt, self.domdt, self.dnodt = (ds[k] + dl[k] for k in ('e', 'i', 'm', 'argp', 'node'))
        n, e = o['n'], o['ecc']
        self.day1 = (n < 0.0052359877) & (n > 0.0034906585)
        self.half = (n >= 8.26e-3) & (n <= 9.24e-3) & (e >= 0.5)
        self.resonant = self.day1 | self.half
        self.equatorial = near_equatorial(R, o)
        self.init_resonance()

    def init_resonance(self):
        R, g, o = self.R, self.g, self.o
        n, e = o['n'], o['ecc']
        emsq = e * e
        cosim, sinim = R.cos(o['incl']), R.sin(o['incl'])
        cosisq, sini2 = cosim * cosim, sinim * sinim
        aonv = (n / g['ke']) ** (R.num(2) / 3)
        rptim = 4.37526908801129966e-3
        self.rptim = rptim
        # one day
        g200 = 1 + emsq * (-2.5 + 0.8125 * emsq)
        g310 = 1 + 2 * emsq
        g300 = 1 + emsq * (-6 + 6.60937 * emsq)
        f220 = 0.75 * (1 + cosim) * (1 + cosim)
        f311 = 0.9375 * sini2 * (1 + 3 * cosim) - 0.75 * (1 + cosim)
        f330 = 1.875 * (1 + cosim) ** 3
        del1 = 3 * n * n * aonv * aonv
        self.del2 = 2 * del1 * f220 * g200 * 1.7891679e-6
        self.del3 = 3 * del1 * f330 * g300 * 2.2123015e-7 * aonv
        self.del1 = del1 * f311 * g310 * 2.1460748e-6 * aonv
        lam1 = (o['m'] + o['node'] + o['argp'] - self.gsto) % (2 * R.pi)
        fact1 = (self.mdot + (self.argpdot + self.nodedot) - rptim + self.dmdt + self.domdt + self.dnodt) - n
        # half a day
        le65 = e <= 0.65

        def sel(c, a, b):
            return R.ite(c, poly(e, *a), poly(e, *b))
        g201 = -0.306 - (e - 0.64) * 0.440
        g211 = sel(le65, (3.616, -13.2470, 16.2900), (-72.099, 331.819, -508.738, 266.724))
        g310 = sel(le65, (-19.302, 117.3900, -228.4190, 156.5910), (-346.844, 1582.851, -2415.925, 1246.113))
        g322 = sel(le65, (-18.9068, 109.7927, -214.6334, 146.5816), (-342.585, 1554.908, -2366.899, 1215.972))
        g410 = sel(le65, (-41.122, 242.6940, -471.0940, 313.9530), (-1052.797, 4758.686, -7193.992, 3651.957))
        g422 = sel(le65, (-146.407, 841.8800, -1629.014, 1083.4350), (-3581.690, 16178.110, -24462.770, 12422.520))
        g520 = R.ite(le65, poly(e, -532.114, 3017.977, -5740.032, 3708.2760),
                     R.ite(e < 0.715, poly(e, 1464.74, -4664.75, 3763.64), poly(e, -5149.66, 29936.92, -54087.36, 31324.56)))
        lt7 = e < 0.7
        g533 = sel(lt7, (-919.22770, 4988.6100, -9064.7700, 5542.21), (-37995.780, 161616.52, -229838.20, 109377.94))
        g521 = sel(lt7, (-822.71072, 4568.6173, -8491.4146, 5337.524), (-51752.104, 218913.95, -309468.16, 146349.42))
        g532 = sel(lt7, (-853.66600, 4690.2500, -8624.7700, 5341.4), (-40023.880, 170470.89, -242699.48, 115605.82))
        f220 = 0.75 * (1 + 2 * cosim + cosisq)
        f221 = 1.5 * sini2
        f321 = 1.875 * sinim * (1 - 2 * cosim - 3 * cosisq)
        f322 = -1.875 * sinim * (1 + 2 * cosim - 3 * cosisq)
        f441 = 35 * sini2 * f220
        f442 = 39.3750 * sini2 * sini2
        f522 = 9.84375 * sinim * (sini2 * (1 - 2 * cosim - 5 * cosisq) + 0.33333333 * (-2 + 4 * cosim + 6 * cosisq))
        f523 = sinim * (4.92187512 * sini2 * (-2 - 4 * cosim + 10 * cosisq) + 6.56250012 * (1 + 2 * cosim - 3 * cosisq))
        f542 = 29.53125 * sinim * (2 - 8 * cosim + cosisq * (-12 + 8 * cosim + 10 * cosisq))
        f543 = 29.53125 * sinim * (-2 - 8 * cosim + cosisq * (12 + 8 * cosim - 10 * cosisq))
        t1 = 3 * n * n * aonv * aonv
        q = t1 * 1.7891679e-6
        self.d2201, self.d2211 = q * f220 * g201, q * f221 * g211
        t1 = t1 * aonv
        q = t1 * 3.7393792e-7
        self.d3210, self.d3222 = q * f321 * g310, q * f322 * g322
        t1 = t1 * aonv
        q = 2 * t1 * 7.3636953e-9
        self.d4410, self.d4422 = q * f441 * g410, q * f442 * g422
        t1 = t1 * aonv
        q = t1 * 1.1428639e-7
        self.d5220, self.d5232 = q * f522 * g520, q * f523 * g532
        q = 2 * t1 * 2.1765803e-9
        self.d5421, self.d5433 = q * f542 * g521, q * f543 * g533
        lam2 = (o['m'] + o['node'] + o['node'] - self.gsto - self.gsto) % (2 * R.pi)
        fact2 = self.mdot + self.dmdt + 2 * (self.nodedot + self.dnodt - rptim) - n
        self.xlamo = R.ite(self.day1, lam1, lam2)
        self.xfact = R.ite(self.day1, fact1, fact2)

    # ------------------------------------------------ resonance integration
    def rates(self, atime, xni, xli):
        R = self.R
        s, c = R.sin, R.cos
        p1, p2, p3 = xli - 0.13130908, 2 * (xli - 2.8843198), 3 * (xli - 0.37448087)
        xldot = xni + self.xfact
        n1 = self.del1 * s(p1) + self.del2 * s(p2) + self.del3 * s(p3)
        d1 = (self.del1 * c(p1) + 2 * self.del2 * c(p2) + 3 * self.del3 * c(p3)) * xldot
        g22, g32, g44, g52, g54 = 5.7686396, 0.95240898, 1.8014998, 1.0508330, 4.4108898
        xomi = self.o['argp'] + self.argpdot * atime
        x2omi, x2li = xomi + xomi, xli + xli
        terms = [(self.d2201, x2omi + xli - g22, 1), (self.d2211, xli - g22, 1), (self.d3210, xomi + xli - g32, 1),
                 (self.d3222, -xomi + xli - g32, 1), (self.d4410, x2omi + x2li - g44, 2), (self.d4422, x2li - g44, 2),
                 (self.d5220, xomi + xli - g52, 1), (self.d5232, -xomi + xli - g52, 1), (self.d5421, xomi + x2li - g54, 2),
                 (self.d5433, -xomi + x2li - g54, 2)]
        n2, d2 = R.num(0), R.num(0)
        for k, a, m in terms:
            n2 = n2 + k * s(a)
            d2 = d2 + m * k * c(a)
        d2 = d2 * xldot
        return xldot, R.ite(self.day1, n1, n2), R.ite(self.day1, d1, d2)

    def integrate(self, t, start=None, form=0):
        """State (atime, xni, xli) of the 720-minute integration just before t."""
        R = self.R
        delt = R.ite(t > 0, R.num(720), R.num(-720))

        def step(atime, xni, xli):
            xldot, xndt, xnddt = self.rates(atime, xni, xli)
            return (atime + delt, xni + xndt * delt + xnddt * 259200, xli + xldot * delt + xndt * 259200)

        def done(atime, xni, xli):
            if form == 0:
                return ((t > 0) & (t - 720 < atime)) | (~(t > 0) & (t + 720 > atime))
            return R.abs(t - atime) < 720
        return R.loop(start or (R.num(0), self.o['n'], self.xlamo), step, done)

    # ------------------------------------------------ propagation
    def propagate(self, t, afspc, start=None, form=0):
        """dict with the regime conditions, error conditions/values and the position and velocity components."""
        R, g, o, bstar = self.R, self.g, self.o, self.bstar
        two_pi = 2 * R.pi
        ke = g['ke']
        # secular gravity and drag
        xmdf = o['m'] + self.mdot * t
        argpdf = o['argp'] + self.argpdot * t
        nodedf = o['node'] + self.nodedot * t
        t2 = t * t
        nodem = nodedf + self.nodecf * t2
        tempa, tempe, templ = 1 - self.cc1 * t, bstar * self.cc4 * t, self.t2cof * t2
        # near earth, high perigee
        delomg = self.omgcof * t
        delm = self.xmcof * ((1 + self.eta * R.cos(xmdf)) ** 3 - self.delmo)
        corr = R.ite(self.elliptic, delomg + delm, R.num(0))
        low = self.low
        mm_n = R.ite(low, xmdf, xmdf + corr)
        argp_n = R.ite(low, argpdf, argpdf - corr)
        t3, t4 = t2 * t, t2 * t2
        tempa_n = R.ite(low, tempa, tempa - self.d2 * t2 - self.d3 * t3 - self.d4 * t4)
        tempe_n = R.ite(low, tempe, tempe + bstar * self.cc5 * (R.sin(xmdf + corr) - self.sinmao))
        templ_n = R.ite(low, templ, templ + self.t3cof * t3 + t4 * (self.t4cof + t * self.t5cof))
        near = self.tail(t, o['incl'], nodem, o['ecc'] - tempe_n, argp_n, mm_n + o['n'] * templ_n, self.ao * tempa_n ** 2, None, afspc)
        # deep space
        nodem_d = nodem + self.dnodt * t
        argpm_d = argpdf + self.domdt * t
        self.state = self.integrate(t, start, form)
        atime, xni, xli = self.state
        xldot, xndt, xnddt = self.rates(atime, xni, xli)
        ft = t - atime
        nres = xni + xndt * ft + xnddt * ft * ft * 0.5
        xl = xli + xldot * ft + xndt * ft * ft * 0.5
        theta = (self.gsto + t * self.rptim) % two_pi
        mres = R.ite(self.day1, xl - nodem_d - argpm_d + theta, xl - 2 * nodem_d + 2 * theta)
        nm = R.ite(self.resonant, nres, o['n'])
        mm_d = R.ite(self.resonant, mres, xmdf + self.dmdt * t)
        em_d = o['ecc'] + self.dedt * t - tempe
        a_d = (ke / nm) ** (R.num(2) / 3) * tempa ** 2
        ps = periodics(R, self.ks, self.zmos, R.num(self.ZNS), R.num(self.ZES), t)
        pl = periodics(R, self.kl, self.zmol, R.num(self.ZNL), R.num(self.ZEL), t)
        p = {k: ps[k] + pl[k] for k in ps}
        deep = self.tail(t, o['incl'] + self.didt * t, nodem_d, em_d, argpm_d, mm_d + o['n'] * templ, a_d, p, afspc)
        return dict(near=near, deep=deep)

    def tail(self, t, incl, node, em, argp, mm, am, p, afspc):
        R, g = self.R, self.g
        ke, two_pi = g['ke'], 2 * R.pi
        out = dict(err1=~((em >= -0.001) & (em < 1)), em=em)
        ep = R.x(R.I.fl('fmax', em.n, R.num(1.0e-6).n))
        nm = ke / am ** 1.5
        if p is not None:
            incl = incl + p['i']
            sinip, cosip = R.sin(incl), R.cos(incl)
            ep = ep + p['e']
            out['err2'] = ~((ep >= 0) & (ep <= 1))
            out['ep'] = ep
            mm = mm + p['l']
            # away from the equator: apply periodics directly
            ph = p['h'] / sinip
            argp_a, node_a = argp + p['gh'] - cosip * ph, node + ph
            # Lyddane modification
            sinop, cosop = R.sin(node), R.cos(node)
            alf = sinip * sinop + p['h'] * cosop + p['i'] * cosip * sinop
            bet = sinip * cosop - p['h'] * sinop + p['i'] * cosip * cosop
            xnoh = node % two_pi
            raw = R.atan2(alf, bet)
            node_b = R.ite(raw < xnoh - R.pi, raw + two_pi, R.ite(raw > xnoh + R.pi, raw - two_pi, raw))
            xnoh_pos = R.ite(afspc, R.modp(node, two_pi), xnoh)
            argp_b = argp + p['gh'] + cosip * (xnoh - node_b) - p['i'] * xnoh_pos * sinip
            self.lyddane = ~(incl >= 0.2)
            node = R.ite(incl >= 0.2, node_a, node_b)
            argp = R.ite(incl >= 0.2, argp_a, argp_b)
            out['lyddane'] = self.lyddane
        sinip, cosip = R.sin(incl), R.cos(incl)
        cosisq = cosip * cosip
        con41, x1mth2, x7thm1 = 3 * cosisq - 1, 1 - cosisq, 7 * cosisq - 1
        aycof = -0.5 * self.j3oj2 * sinip
        num = -0.25 * self.j3oj2 * sinip * (3 + 5 * cosip)
        xlcof = R.ite(R.abs(cosip + 1) > 1.5e-12, num / (1 + cosip), num / 1.5e-12)
        # long period
        axnl = ep * R.cos(argp)
        tmp = 1 / (am * (1 - ep * ep))
        aynl = ep * R.sin(argp) + tmp * aycof
        xl = mm + argp + node + tmp * xlcof * axnl
        # Kepler
        u = (xl - node) % two_pi
        eo1 = u
        tries = []
        for k in range(10):
            s, c = R.sin(eo1), R.cos(eo1)
            tem5 = (u - aynl * c + axnl * s - eo1) / (1 - c * axnl - s * aynl)
            tries.append((R.abs(tem5) < 1.0e-12, eo1))
            eo1 = eo1 + R.ite(tem5 > 0.95, R.num(0.95), R.ite(tem5 < -0.95, R.num(-0.95), tem5))
        for stop, v in reversed(tries):
            eo1 = R.ite(stop, v, eo1)
        s, c = R.sin(eo1), R.cos(eo1)
        # short period
        ecose, esine, el2 = axnl * c + aynl * s, axnl * s - aynl * c, axnl * axnl + aynl * aynl
        pl = am * (1 - el2)
        out['err4'] = pl < 0
        rl = am * (1 - ecose)
        rdotl = R.sqrt(am) * esine / rl
        rvdotl = R.sqrt(pl) / rl
        betal = R.sqrt(1 - el2)
        tmp = esine / (1 + betal)
        sinu = am / rl * (s - aynl - axnl * tmp)
        cosu = am / rl * (c - axnl + aynl * tmp)
        su = R.atan2(sinu, cosu)
        sin2u, cos2u = (cosu + cosu) * sinu, 1 - 2 * sinu * sinu
        t1 = 0.5 * g['j2'] / pl
        tt2 = t1 / pl
        mrt = rl * (1 - 1.5 * tt2 * betal * con41) + 0.5 * t1 * x1mth2 * cos2u
        su = su - 0.25 * tt2 * x7thm1 * sin2u
        xnode = node + 1.5 * tt2 * cosip * sin2u
        xinc = incl + 1.5 * tt2 * cosip * sinip * cos2u
        mvt = rdotl - nm * t1 * x1mth2 * sin2u / ke
        rvdot = rvdotl + nm * t1 * (x1mth2 * cos2u + 1.5 * con41) / ke
        sinsu, cossu, snod, cnod, sini, cosi = R.sin(su), R.cos(su), R.sin(xnode), R.cos(xnode), R.sin(xinc), R.cos(xinc)
        xmx, xmy = -snod * cosi, cnod * cosi
        ux, uy, uz = xmx * sinsu + cnod * cossu, xmy * sinsu + snod * cossu, sini * sinsu
        vx, vy, vz = xmx * cossu - cnod * sinsu, xmy * cossu - snod * sinsu, sini * cossu
        ae = g['ae']
        vkmpersec = ae * ke / 60
        out['r'] = [mrt * x * ae for x in (ux, uy, uz)]
        out['v'] = [(mvt * a + rvdot * b) * vkmpersec for a, b in ((ux, vx), (uy, vy), (uz, vz))]
        return out
