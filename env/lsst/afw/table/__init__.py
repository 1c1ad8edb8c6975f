"""source catalogues"""
from lsst.geom import Point2D, SpherePoint, degrees


class Schema(object):
    def __init__(self):
        self.fields = []


class SourceRecord(object):
    def __init__(self, sid, parent=0, footprint=None, **kw):
        self._id, self._parent, self._fp = sid, parent, footprint
        self._v = {"deblend_nChild": 0, "parent": parent, "id": sid}
        self._v.update(kw)
        self._centroid = None
        self._coord = SpherePoint(float("nan"), float("nan"), degrees)

    def getId(self):
        return self._id

    def getParent(self):
        return self._parent

    def getFootprint(self):
        return self._fp

    def setFootprint(self, fp):
        self._fp = fp

    def getCentroid(self):
        if self._centroid is not None:
            return self._centroid
        p = self._fp.getPeaks()[0]
        return Point2D(p.x, p.y)

    def setCentroid(self, p):
        self._centroid = p

    def getCoord(self):
        return self._coord

    def setCoord(self, c):
        self._coord = c

    def get(self, k):
        return self._v[k]

    def set(self, k, v):
        self._v[k] = v

    __getitem__ = get
    __setitem__ = set


class SourceTable(object):
    def __init__(self, schema):
        self.schema = schema

    @staticmethod
    def makeMinimalSchema():
        return Schema()

    @staticmethod
    def make(schema, *a):
        return SourceTable(schema)

    def getSchema(self):
        return self.schema


class SourceCatalog(object):
    def __init__(self, table=None):
        self.table, self.recs = table, []

    def append(self, r):
        self.recs.append(r)

    def find(self, sid):
        for r in self.recs:
            if r.getId() == sid:
                return r
        return None

    def __len__(self):
        return len(self.recs)

    def __iter__(self):
        return iter(self.recs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            c = SourceCatalog(self.table)
            c.recs = self.recs[i]
            return c
        return self.recs[i]

    def getSchema(self):
        return self.table.schema if self.table else None
