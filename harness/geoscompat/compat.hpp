// The part of the C++ interface of GEOS 3.3 that osmium uses, on top of the stable C interface of the
// GEOS that is installed: geometries are plain coordinate lists, every geometric question (valid,
// simple, contains, intersection, polygonize, ...) is answered by the real library.
// Compile with -Dgeos=geoscompat so that no name clashes with the library's own classes.
#ifndef GEOSCOMPAT_HPP
#define GEOSCOMPAT_HPP
#include <cassert>
#include <cmath>
#include <cstdio>
#include <map>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
#include <geos_c.h>
namespace geoscompat {

namespace util {
    struct GEOSException : public std::runtime_error { GEOSException(const std::string& m) : std::runtime_error(m) {} };
    struct IllegalArgumentException : public GEOSException { IllegalArgumentException(const std::string& m) : GEOSException("IllegalArgumentException: " + m) {} };
}

inline std::string& last_error() { static std::string s; return s; }
inline void on_error(const char* m, void*) { last_error() = m; }
inline GEOSContextHandle_t ctx() {
    static GEOSContextHandle_t c = 0;
    if (!c) { c = GEOS_init_r(); GEOSContext_setErrorMessageHandler_r(c, on_error, 0); }
    return c;
}
inline void fail() { std::string s = last_error(); throw util::GEOSException(s); }
inline bool answer(char c) { if (c == 2) fail(); return c == 1; }
inline int& live() { static int n = 0; return n; } // geometries that exist

namespace geom {

    enum GeometryTypeId { GEOS_POINT, GEOS_LINESTRING, GEOS_LINEARRING, GEOS_POLYGON, GEOS_MULTIPOINT, GEOS_MULTILINESTRING, GEOS_MULTIPOLYGON, GEOS_GEOMETRYCOLLECTION };

    struct Coordinate {
        double x, y, z;
        Coordinate(double x_ = 0, double y_ = 0, double z_ = NAN) : x(x_), y(y_), z(z_) {}
        bool operator==(const Coordinate& o) const { return x == o.x && y == o.y; }
        bool operator!=(const Coordinate& o) const { return !(*this == o); }
        bool equals2D(const Coordinate& o) const { return *this == o; }
        bool equals(const Coordinate& o) const { return *this == o; }
        int compareTo(const Coordinate& o) const { return x < o.x ? -1 : x > o.x ? 1 : y < o.y ? -1 : y > o.y ? 1 : 0; }
        bool operator<(const Coordinate& o) const { return compareTo(o) < 0; }
        double distance(const Coordinate& o) const { return std::sqrt((x - o.x) * (x - o.x) + (y - o.y) * (y - o.y)); }
        bool isNull() const { return std::isnan(x) && std::isnan(y); }
    };

    class CoordinateSequence {
        std::vector<Coordinate> m;
    public:
        CoordinateSequence() : m() { ++live(); }
        explicit CoordinateSequence(const std::vector<Coordinate>& v) : m(v) { ++live(); }
        CoordinateSequence(const CoordinateSequence& o) : m(o.m) { ++live(); }
        ~CoordinateSequence() { --live(); }
        CoordinateSequence* clone() const { return new CoordinateSequence(*this); }
        size_t size() const { return m.size(); }
        size_t getSize() const { return m.size(); }
        bool isEmpty() const { return m.empty(); }
        double getX(size_t i) const { return m[i].x; }
        double getY(size_t i) const { return m[i].y; }
        const Coordinate& getAt(size_t i) const { return m[i]; }
        const std::vector<Coordinate>* toVector() const { return &m; }
        void toVector(std::vector<Coordinate>& v) const { v.insert(v.end(), m.begin(), m.end()); }
        const Coordinate& operator[](size_t i) const { return m[i]; }
        const Coordinate& front() const { return m.front(); }
        const Coordinate& back() const { return m.back(); }
        double getOrdinate(size_t i, size_t k) const { return k == 0 ? m[i].x : k == 1 ? m[i].y : m[i].z; }
        void setAt(const Coordinate& c, size_t i) { m[i] = c; }
        void deleteAt(size_t i) { m.erase(m.begin() + i); }
        bool hasRepeatedPoints() const { for (size_t i = 1; i < m.size(); ++i) if (m[i] == m[i - 1]) return true; return false; }
        static void reverse(CoordinateSequence* s) { std::vector<Coordinate> v(s->m.rbegin(), s->m.rend()); s->m.swap(v); }
        void add(const Coordinate& c) { m.push_back(c); }
        void add(const Coordinate& c, bool repeated) { if (repeated || m.empty() || m.back() != c) m.push_back(c); }
    };

    class CoordinateSequenceFactory {
    public:
        virtual ~CoordinateSequenceFactory() {}
        CoordinateSequence* create(std::vector<Coordinate>* v) const { CoordinateSequence* s = v ? new CoordinateSequence(*v) : new CoordinateSequence; delete v; return s; }
        CoordinateSequence* create(size_t n, size_t = 0) const { return new CoordinateSequence(std::vector<Coordinate>(n)); }
    };
    class CoordinateArraySequenceFactory : public CoordinateSequenceFactory {
    public:
        static const CoordinateSequenceFactory* instance() { static CoordinateArraySequenceFactory f; return &f; }
    };

    class PrecisionModel {};
    class GeometryFactory;

    class Geometry {
    public:
        Geometry() { ++live(); }
        Geometry(const Geometry&) { ++live(); }
        virtual ~Geometry() { --live(); }
        virtual Geometry* clone() const = 0;
        virtual GeometryTypeId getGeometryTypeId() const = 0;
        virtual GEOSGeometry* c() const = 0; // the same geometry in the library; caller frees
        inline Geometry* reverse() const;
        bool isValid() const { H a(c()); return answer(GEOSisValid_r(ctx(), a.g)); }
        bool isSimple() const { H a(c()); return answer(GEOSisSimple_r(ctx(), a.g)); }
        bool isEmpty() const { H a(c()); return answer(GEOSisEmpty_r(ctx(), a.g)); }
        bool intersects(const Geometry* o) const { H a(c()), b(o->c()); return answer(GEOSIntersects_r(ctx(), a.g, b.g)); }
        bool contains(const Geometry* o) const { H a(c()), b(o->c()); return answer(GEOSContains_r(ctx(), a.g, b.g)); }
        bool within(const Geometry* o) const { return o->contains(this); }
        inline Geometry* intersection(const Geometry* o) const;
        inline Geometry* symDifference(const Geometry* o) const;
        inline Geometry* difference(const Geometry* o) const;
        bool equals(const Geometry* o) const { H a(c()), b(o->c()); return answer(GEOSEquals_r(ctx(), a.g, b.g)); }
        bool equalsExact(const Geometry* o, double t = 0) const { H a(c()), b(o->c()); return answer(GEOSEqualsExact_r(ctx(), a.g, b.g, t)); }
        bool disjoint(const Geometry* o) const { H a(c()), b(o->c()); return answer(GEOSDisjoint_r(ctx(), a.g, b.g)); }
        bool touches(const Geometry* o) const { H a(c()), b(o->c()); return answer(GEOSTouches_r(ctx(), a.g, b.g)); }
        bool crosses(const Geometry* o) const { H a(c()), b(o->c()); return answer(GEOSCrosses_r(ctx(), a.g, b.g)); }
        bool overlaps(const Geometry* o) const { H a(c()), b(o->c()); return answer(GEOSOverlaps_r(ctx(), a.g, b.g)); }
        bool covers(const Geometry* o) const { H a(c()), b(o->c()); return answer(GEOSCovers_r(ctx(), a.g, b.g)); }
        bool coveredBy(const Geometry* o) const { return o->covers(this); }
        inline Geometry* Union(const Geometry* o) const;
        inline Geometry* getBoundary() const;
        inline std::string toString() const;
        std::string toText() const { return toString(); }
        virtual size_t getNumGeometries() const { return 1; }
        virtual const Geometry* getGeometryN(size_t) const { return this; }
        virtual size_t getNumPoints() const { H a(c()); return GEOSGetNumCoordinates_r(ctx(), a.g); }
        double getLength() const { H a(c()); double d = 0; GEOSLength_r(ctx(), a.g, &d); return d; }
        double distance(const Geometry* o) const { H a(c()), b(o->c()); double d = 0; GEOSDistance_r(ctx(), a.g, b.g, &d); return d; }
        std::string getGeometryType() const { H a(c()); char* t = GEOSGeomType_r(ctx(), a.g); std::string r(t); GEOSFree_r(ctx(), t); return r; }
        double getArea() const { H a(c()); double d = 0; GEOSArea_r(ctx(), a.g, &d); return d; }
        struct H { // owned handle
            GEOSGeometry* g;
            explicit H(GEOSGeometry* p) : g(p) { if (!p) fail(); }
            ~H() { GEOSGeom_destroy_r(ctx(), g); }
        };
    };

    inline GEOSCoordSequence* cs_c(const CoordinateSequence& s) {
        GEOSCoordSequence* r = GEOSCoordSeq_create_r(ctx(), s.size(), 2);
        for (size_t i = 0; i < s.size(); ++i) { GEOSCoordSeq_setX_r(ctx(), r, i, s.getX(i)); GEOSCoordSeq_setY_r(ctx(), r, i, s.getY(i)); }
        return r;
    }

    class Point : public Geometry {
        Coordinate m;
    public:
        explicit Point(const Coordinate& p) : m(p) {}
        Point* clone() const { return new Point(*this); }
        GeometryTypeId getGeometryTypeId() const { return GEOS_POINT; }
        double getX() const { return m.x; }
        double getY() const { return m.y; }
        GEOSGeometry* c() const { std::vector<Coordinate> v(1, m); CoordinateSequence s(v); return GEOSGeom_createPoint_r(ctx(), cs_c(s)); }
    };

    class LineString : public Geometry {
    protected:
        CoordinateSequence* m;
    public:
        explicit LineString(CoordinateSequence* s) : m(s) { if (m->size() == 1) { m = 0; throw util::IllegalArgumentException("point array must contain 0 or >1 elements"); } }
        LineString(const LineString& o) : Geometry(o), m(o.m->clone()) {}
        ~LineString() { delete m; }
        LineString* clone() const { return new LineString(*this); }
        GeometryTypeId getGeometryTypeId() const { return GEOS_LINESTRING; }
        const CoordinateSequence* getCoordinatesRO() const { return m; }
        CoordinateSequence* getCoordinates() const { return m->clone(); }
        size_t getNumPoints() const { return m->size(); }
        const Coordinate& getCoordinateN(size_t i) const { return m->getAt(i); }
        Point* getPointN(size_t i) const { return new Point(m->getAt(i)); }
        Point* getStartPoint() const { return m->isEmpty() ? 0 : getPointN(0); }
        Point* getEndPoint() const { return m->isEmpty() ? 0 : getPointN(m->size() - 1); }
        bool isRing() const { return isClosed() && isSimple(); }
        bool isClosed() const { return m->size() > 0 && m->getAt(0) == m->getAt(m->size() - 1); }
        GEOSGeometry* c() const { return GEOSGeom_createLineString_r(ctx(), cs_c(*m)); }
    };

    class LinearRing : public LineString {
    public:
        explicit LinearRing(CoordinateSequence* s) : LineString(s) {
            if (m->size() > 0 && !isClosed()) { leave(); throw util::IllegalArgumentException("points must form a closed linestring"); }
            if (m->size() > 0 && m->size() < 4) { leave(); throw util::IllegalArgumentException("Invalid number of points in LinearRing - must be 0 or >3"); }
        }
        LinearRing(const LinearRing& o) : LineString(o) {}
        LinearRing* clone() const { return new LinearRing(*this); }
        GeometryTypeId getGeometryTypeId() const { return GEOS_LINEARRING; }
        GEOSGeometry* c() const { return GEOSGeom_createLinearRing_r(ctx(), cs_c(*m)); }
    private:
        void leave() {} // the sequence goes with the base class
    };

    class Polygon : public Geometry {
        LinearRing* m_shell;
        std::vector<Geometry*>* m_holes;
        Polygon& operator=(const Polygon&);
    public:
        Polygon(LinearRing* s, std::vector<Geometry*>* h) : m_shell(s), m_holes(h) {
            if (!m_holes) m_holes = new std::vector<Geometry*>;
            for (size_t i = 0; i < m_holes->size(); ++i)
                if (!dynamic_cast<LinearRing*>((*m_holes)[i])) throw util::IllegalArgumentException("holes must be LinearRings");
        }
        Polygon(const Polygon& o) : Geometry(o), m_shell(o.m_shell->clone()), m_holes(new std::vector<Geometry*>) {
            for (size_t i = 0; i < o.m_holes->size(); ++i) m_holes->push_back((*o.m_holes)[i]->clone());
        }
        ~Polygon() { delete m_shell; for (size_t i = 0; i < m_holes->size(); ++i) delete (*m_holes)[i]; delete m_holes; }
        Polygon* clone() const { return new Polygon(*this); }
        GeometryTypeId getGeometryTypeId() const { return GEOS_POLYGON; }
        const LineString* getExteriorRing() const { return m_shell; }
        size_t getNumInteriorRing() const { return m_holes->size(); }
        const LineString* getInteriorRingN(size_t i) const { return dynamic_cast<const LineString*>((*m_holes)[i]); }
        GEOSGeometry* c() const {
            std::vector<GEOSGeometry*> h;
            for (size_t i = 0; i < m_holes->size(); ++i) h.push_back((*m_holes)[i]->c());
            GEOSGeometry* s = m_shell->c();
            if (!s) fail();
            return GEOSGeom_createPolygon_r(ctx(), s, h.empty() ? 0 : &h[0], h.size());
        }
    };

    class GeometryCollection : public Geometry {
    protected:
        std::vector<Geometry*>* m;
        GeometryCollection& operator=(const GeometryCollection&);
        virtual int ctype() const { return ::GEOS_GEOMETRYCOLLECTION; }
    public:
        typedef std::vector<Geometry*>::const_iterator const_iterator;
        explicit GeometryCollection(std::vector<Geometry*>* v) : m(v ? v : new std::vector<Geometry*>) {}
        GeometryCollection(const GeometryCollection& o) : Geometry(o), m(new std::vector<Geometry*>) { for (size_t i = 0; i < o.m->size(); ++i) m->push_back((*o.m)[i]->clone()); }
        ~GeometryCollection() { for (size_t i = 0; i < m->size(); ++i) delete (*m)[i]; delete m; }
        GeometryCollection* clone() const { return new GeometryCollection(*this); }
        GeometryTypeId getGeometryTypeId() const { return GEOS_GEOMETRYCOLLECTION; }
        const_iterator begin() const { return m->begin(); }
        const_iterator end() const { return m->end(); }
        size_t getNumGeometries() const { return m->size(); }
        const Geometry* getGeometryN(size_t i) const { return (*m)[i]; }
        GEOSGeometry* c() const {
            std::vector<GEOSGeometry*> p;
            for (size_t i = 0; i < m->size(); ++i) { p.push_back((*m)[i]->c()); if (!p.back()) fail(); }
            return GEOSGeom_createCollection_r(ctx(), ctype(), p.empty() ? 0 : &p[0], p.size());
        }
    };
    class MultiPolygon : public GeometryCollection {
        int ctype() const { return ::GEOS_MULTIPOLYGON; }
    public:
        explicit MultiPolygon(std::vector<Geometry*>* v) : GeometryCollection(v) {}
        MultiPolygon* clone() const { return new MultiPolygon(*this); }
        GeometryTypeId getGeometryTypeId() const { return GEOS_MULTIPOLYGON; }
    };
    class MultiLineString : public GeometryCollection {
        int ctype() const { return ::GEOS_MULTILINESTRING; }
    public:
        explicit MultiLineString(std::vector<Geometry*>* v) : GeometryCollection(v) {}
        MultiLineString* clone() const { return new MultiLineString(*this); }
        GeometryTypeId getGeometryTypeId() const { return GEOS_MULTILINESTRING; }
    };

    class GeometryFactory {
    public:
        GeometryFactory() {}
        GeometryFactory(const PrecisionModel*, int) {}
        Point* createPoint(const Coordinate& c) const { return new Point(c); }
        LineString* createLineString(CoordinateSequence* s) const { return new LineString(s); }
        LinearRing* createLinearRing(CoordinateSequence* s) const { return new LinearRing(s); }
        Polygon* createPolygon(LinearRing* s, std::vector<Geometry*>* h) const { return new Polygon(s, h); }
        static const GeometryFactory* getDefaultInstance() { static GeometryFactory f; return &f; }
        LinearRing* createLinearRing(const CoordinateSequence& s) const { return new LinearRing(new CoordinateSequence(s)); }
        LineString* createLineString(const CoordinateSequence& s) const { return new LineString(new CoordinateSequence(s)); }
        GeometryCollection* createGeometryCollection(std::vector<Geometry*>* v) const { return new GeometryCollection(v); }
        MultiLineString* createMultiLineString(std::vector<Geometry*>* v) const { return new MultiLineString(v); }
        void destroyGeometry(Geometry* g) const { delete g; }
        MultiPolygon* createMultiPolygon(std::vector<Geometry*>* v) const { return new MultiPolygon(v); }
        const CoordinateSequenceFactory* getCoordinateSequenceFactory() const { return CoordinateArraySequenceFactory::instance(); }
    };

    inline CoordinateSequence* from_cs(const GEOSGeometry* g) {
        const GEOSCoordSequence* s = GEOSGeom_getCoordSeq_r(ctx(), g);
        unsigned n = 0; GEOSCoordSeq_getSize_r(ctx(), s, &n);
        std::vector<Coordinate> v(n);
        for (unsigned i = 0; i < n; ++i) { GEOSCoordSeq_getX_r(ctx(), s, i, &v[i].x); GEOSCoordSeq_getY_r(ctx(), s, i, &v[i].y); }
        return new CoordinateSequence(v);
    }
    inline Geometry* from_c(const GEOSGeometry* g) {
        switch (GEOSGeomTypeId_r(ctx(), g)) {
            case ::GEOS_POINT: { if (GEOSisEmpty_r(ctx(), g) == 1) return new GeometryCollection(0); CoordinateSequence* s = from_cs(g); Point* p = new Point(s->getAt(0)); delete s; return p; }
            case ::GEOS_LINESTRING: return new LineString(from_cs(g));
            case ::GEOS_LINEARRING: return new LinearRing(from_cs(g));
            case ::GEOS_POLYGON: {
                std::vector<Geometry*>* h = new std::vector<Geometry*>;
                for (int i = 0; i < GEOSGetNumInteriorRings_r(ctx(), g); ++i) h->push_back(new LinearRing(from_cs(GEOSGetInteriorRingN_r(ctx(), g, i))));
                return new Polygon(new LinearRing(from_cs(GEOSGetExteriorRing_r(ctx(), g))), h);
            }
            default: {
                std::vector<Geometry*>* p = new std::vector<Geometry*>;
                for (int i = 0; i < GEOSGetNumGeometries_r(ctx(), g); ++i) p->push_back(from_c(GEOSGetGeometryN_r(ctx(), g, i)));
                if (GEOSGeomTypeId_r(ctx(), g) == ::GEOS_MULTIPOLYGON) return new MultiPolygon(p);
                if (GEOSGeomTypeId_r(ctx(), g) == ::GEOS_MULTILINESTRING) return new MultiLineString(p);
                return new GeometryCollection(p);
            }
        }
    }
    inline Geometry* Geometry::intersection(const Geometry* o) const { H a(c()), b(o->c()), r(GEOSIntersection_r(ctx(), a.g, b.g)); return from_c(r.g); }
    inline Geometry* Geometry::symDifference(const Geometry* o) const { H a(c()), b(o->c()), r(GEOSSymDifference_r(ctx(), a.g, b.g)); return from_c(r.g); }
    inline Geometry* Geometry::difference(const Geometry* o) const { H a(c()), b(o->c()), r(GEOSDifference_r(ctx(), a.g, b.g)); return from_c(r.g); }
    inline Geometry* Geometry::Union(const Geometry* o) const { H a(c()), b(o->c()), r(GEOSUnion_r(ctx(), a.g, b.g)); return from_c(r.g); }
    inline Geometry* Geometry::getBoundary() const { H a(c()), r(GEOSBoundary_r(ctx(), a.g)); return from_c(r.g); }
    inline std::string Geometry::toString() const {
        H a(c()); GEOSWKTWriter* w = GEOSWKTWriter_create_r(ctx()); char* s = GEOSWKTWriter_write_r(ctx(), w, a.g);
        std::string r(s); GEOSFree_r(ctx(), s); GEOSWKTWriter_destroy_r(ctx(), w); return r;
    }
    inline Geometry* Geometry::reverse() const {
        const LineString* l = dynamic_cast<const LineString*>(this);
        if (!l) throw util::GEOSException("reverse");
        std::vector<Coordinate> v(l->getCoordinatesRO()->toVector()->rbegin(), l->getCoordinatesRO()->toVector()->rend());
        if (getGeometryTypeId() == GEOS_LINEARRING) return new LinearRing(new CoordinateSequence(v)); // (LineString::reverse() made a plain line)
        return new LineString(new CoordinateSequence(v));
    }

    namespace prep {
        class PreparedPolygon {
            const Geometry* m;
        public:
            explicit PreparedPolygon(const Geometry* g) : m(g) {}
            bool contains(const Geometry* o) const { return m->contains(o); }
            bool covers(const Geometry* o) const { return m->covers(o); }
            bool intersects(const Geometry* o) const { return m->intersects(o); }
            bool disjoint(const Geometry* o) const { return m->disjoint(o); }
            bool touches(const Geometry* o) const { return m->touches(o); }
            bool within(const Geometry* o) const { return m->within(o); }
            const Geometry& getGeometry() const { return *m; }
        };
    }
} // namespace geom

namespace algorithm {
    struct CGAlgorithms {
        static bool isCCW(const geom::CoordinateSequence* s) {
            if (s->size() < 4) throw util::IllegalArgumentException("Ring has fewer than 3 points, so orientation cannot be determined");
            GEOSCoordSequence* q = geom::cs_c(*s); char r = 0;
            int ok = GEOSCoordSeq_isCCW_r(ctx(), q, &r);
            GEOSCoordSeq_destroy_r(ctx(), q);
            if (!ok) fail();
            return r != 0;
        }
    };
}

namespace operation { namespace polygonize {
    class Polygonizer {
        std::vector<const geom::Geometry*> m;
    public:
        void add(const geom::Geometry* g) { m.push_back(g); }
        void add(std::vector<geom::Geometry*>* v) { m.insert(m.end(), v->begin(), v->end()); }
        void add(std::vector<const geom::Geometry*>* v) { m.insert(m.end(), v->begin(), v->end()); }
        std::vector<geom::Polygon*>* getPolygons() {
            std::vector<GEOSGeometry*> in;
            for (size_t i = 0; i < m.size(); ++i) in.push_back(m[i]->c());
            GEOSGeometry* r = GEOSPolygonize_r(ctx(), &in[0], in.size());
            for (size_t i = 0; i < in.size(); ++i) GEOSGeom_destroy_r(ctx(), in[i]);
            if (!r) fail();
            std::vector<geom::Polygon*>* res = new std::vector<geom::Polygon*>;
            for (int i = 0; i < GEOSGetNumGeometries_r(ctx(), r); ++i) res->push_back(dynamic_cast<geom::Polygon*>(geom::from_c(GEOSGetGeometryN_r(ctx(), r, i))));
            GEOSGeom_destroy_r(ctx(), r);
            return res;
        }
    };
}}

namespace io {
    class WKTWriter {
    public:
        std::string write(const geom::Geometry* g) {
            geom::Geometry::H a(g->c());
            GEOSWKTWriter* w = GEOSWKTWriter_create_r(ctx());
            char* s = GEOSWKTWriter_write_r(ctx(), w, a.g);
            std::string r(s); GEOSFree_r(ctx(), s); GEOSWKTWriter_destroy_r(ctx(), w);
            return r;
        }
    };
    class WKBWriter {
        bool m_srid;
        std::string bytes(const geom::Geometry& g, bool hex) {
            geom::Geometry::H a(g.c());
            GEOSWKBWriter* w = GEOSWKBWriter_create_r(ctx());
            GEOSWKBWriter_setIncludeSRID_r(ctx(), w, m_srid);
            size_t n = 0;
            unsigned char* s = hex ? GEOSWKBWriter_writeHEX_r(ctx(), w, a.g, &n) : GEOSWKBWriter_write_r(ctx(), w, a.g, &n);
            std::string r(reinterpret_cast<char*>(s), n); GEOSFree_r(ctx(), s); GEOSWKBWriter_destroy_r(ctx(), w);
            return r;
        }
    public:
        WKBWriter() : m_srid(false) {}
        void setIncludeSRID(bool b) { m_srid = b; }
        void write(const geom::Geometry& g, std::ostream& o) { o << bytes(g, false); }
        void writeHEX(const geom::Geometry& g, std::ostream& o) { o << bytes(g, true); }
    };
}
} // namespace geoscompat
#endif
