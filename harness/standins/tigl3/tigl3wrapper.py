"""
Stand-in for TiGL 3, which is not available here.  Instead of building the
geometry from sections it reads corner points from '/cpacs/geometry'.
"""
import json


class Tigl3Exception(Exception):
    def __init__(self, code=None, msg=''):
        super().__init__(msg)
        self.code = code


class Tigl3:
    version = '3'

    def __init__(self):
        self._g = None

    def open(self, tixi, uid=''):
        self._g = json.loads(tixi.getTextElement('/cpacs/geometry'))

    def close(self):
        self._g = None

    def _wing(self, w):
        if not 1 <= w <= len(self._g):
            raise Tigl3Exception('INDEX', f'wing {w}')
        return self._g[w - 1]

    def _seg(self, w, s):
        segs = self._wing(w)['segs']
        if not 1 <= s <= len(segs):
            raise Tigl3Exception('INDEX', f'segment {s}')
        return segs[s - 1]

    def getWingCount(self):
        return len(self._g)

    def wingGetSymmetry(self, w):
        return self._wing(w)['sym']

    def wingGetSegmentCount(self, w):
        return len(self._wing(w)['segs'])

    def wingGetSegmentUID(self, w, s):
        return self._seg(w, s)['uid']

    def _point(self, w, s, eta, xsi, sign):
        g = self._seg(w, s)
        p = g['p']
        mid = [(1 - eta)*((1 - xsi)*a + xsi*d) + eta*((1 - xsi)*b + xsi*c) for a, b, c, d in zip(p['a'], p['b'], p['c'], p['d'])]
        return tuple(m + sign*t for m, t in zip(mid, g['t']))

    def wingGetLowerPoint(self, w, s, eta, xsi):
        return self._point(w, s, eta, xsi, -1)

    def wingGetUpperPoint(self, w, s, eta, xsi):
        return self._point(w, s, eta, xsi, 1)

    def wingGetChordPoint(self, w, s, eta, xsi):
        return self._point(w, s, eta, xsi, 0)

    # ----- profiles: section s is the inner end of segment s
    def wingGetInnerSectionAndElementIndex(self, w, s):
        self._seg(w, s)
        return 2*s - 1, 1

    def wingGetOuterSectionAndElementIndex(self, w, s):
        self._seg(w, s)
        return 2*s, 1

    def wingGetProfileName(self, w, section, element):
        return self._seg(w, (section + 1)//2)['fi' if section % 2 else 'fo']

    # ----- component segments
    def wingGetComponentSegmentCount(self, w):
        return len(self._wing(w)['csegs'])

    def wingGetComponentSegmentUID(self, w, c):
        return self._wing(w)['csegs'][c - 1]['uid']

    def wingComponentSegmentPointGetSegmentEtaXsi(self, uid, eta, xsi):
        for w in self._g:
            for c in w['csegs']:
                if c['uid'] == uid:
                    b = c['borders']
                    i = next((i for i in range(len(b) - 1) if eta <= b[i + 1]), len(b) - 2)
                    return w['uid'], w['segs'][c['segs'][i] - 1]['uid'], (eta - b[i])/(b[i + 1] - b[i]), xsi + c['shift']*eta
        raise Tigl3Exception('UID', uid)
