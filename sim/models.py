"""Rate and fee services whose quotes change over simulated time, plus the
record of everything they ever quoted (the oracle's quote history)."""
import json
from fractions import Fraction

from .net import Rep, jrep, trep

FIAT = ('usd', 'eur', 'gbp', 'jpy', 'cny', 'cad', 'aud', 'nzd', 'rub', 'brl', 'chf', 'sek', 'dkk', 'isk', 'pln', 'hkd', 'krw', 'sgd',
        'thb', 'twd', 'clp')
PRECISION = {c: 2 for c in FIAT}
PRECISION.update(jpy=0, krw=0, clp=0, satoshi=0, ubtc=2, mbtc=5, btc=8)
# rough price of one bitcoin, so that currencies are far apart
BASE = {c: 20000 + 7919 * i for i, c in enumerate(FIAT)}
BASE.update(jpy=6000000, krw=89000000, clp=58000000, rub=5600000, isk=8100000, thb=2100000, twd=1900000, usd=61000, eur=57000)


class Quote:
    __slots__ = ('service', 'key', 'unit', 'mono', 'wall', 'delivered')

    def __init__(self, service, key, unit, mono, wall):
        self.service, self.key, self.unit, self.mono, self.wall = service, key, unit, mono, wall
        self.delivered = True


class Rates:
    """unit: satoshi per one unit of the currency, as a Fraction."""

    def __init__(self, w):
        self.w = w
        self.quotes = []
        self.n = 0

    def reply(self, w, service, cur):
        cur = (cur or '').lower()
        if cur not in FIAT:
            return Rep(404, b'{"error":"not found"}', 'application/json')
        # every quote is unique: reading one identifies when it was given
        self.n += 1
        cents = BASE[cur] * 100 + (self.n * 131) % (BASE[cur] * 20) + 1
        price = Fraction(cents, 100)
        if service == 'bitpay':
            unit = Fraction(10 ** 8) / price
            rep = Rep(200, ('{"data":{"code":"%s","name":"x","rate":%s}}' % (cur.upper(), '%d.%02d' % divmod(cents, 100))).encode(),
                      'application/json')
        else:
            base = max(1, 10 ** 8 // BASE[cur])
            sats = base + (self.n * 7) % max(9, base)
            unit = Fraction(sats)
            rep = trep('%d.%08d' % divmod(sats, 10 ** 8))
        self.quotes.append(Quote(service, cur, unit, w.mono, w.wall))
        w.log('    quote', service, cur, float(unit))
        return rep


class Fees:
    def __init__(self, w, start=20):
        self.w = w
        self.quotes = []
        self.n = start + w.c.pick([0, 0, 0, 0, 0, 0, 400, 1200, 3000]) if start == 20 else start

    def reply(self, w):
        # every quote is unique per speed, and the two speeds never coincide
        self.n += 2
        fast, hour = self.n * 2 + 1, self.n * 2
        self.quotes.append(Quote('mempool', True, fast, w.mono, w.wall))
        self.quotes.append(Quote('mempool', False, hour, w.mono, w.wall))
        w.log('    fee quote', fast, hour)
        return jrep({'fastestFee': fast, 'halfHourFee': fast, 'hourFee': hour, 'economyFee': 1, 'minimumFee': 1})


def floors(x):
    """Integers acceptable as x cut off, given 28-digit decimal arithmetic."""
    eps = abs(x) * Fraction(1, 10 ** 20) + Fraction(1, 10 ** 30)
    return {int(x), int(x - eps) if x > eps else 0, int(x + eps)}
