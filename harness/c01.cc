// C01: encode -> decode returns every value (public C++ API, one frame)
#include "enc.h"
using namespace hs;
using namespace odc::api;

static const double MISS = -2147483647;
static const int64_t IMISS = 2147483647;

static void roundtrip(Tab& t, Dec& d) {
    Mem m;
    try { encode(t, m); }
    catch (std::exception& e) { sym::reach("encode-refused"); sym::fail("encode refused encodable data"); }
    Mem in(m.d);
    in.openForRead();
    Reader r(in);
    Frame f = r.next();
    sym::check(!!f, "no frame");
    sym::check(f.rowCount() == t.rows && f.columnCount() == t.cols.size(), "frame shape");
    d.run(f, names(t));
    sym::check(!r.next(), "extra frame");
}
template <int R> static void dbl_rows() {
    Tab t; t.rows = R;
    size_t c = t.add("x", DOUBLE);
    for (int i = 0; i < R; i++) t.setD(c, i, sym::any<double>());
    Dec d; roundtrip(t, d);
    for (int i = 0; i < R; i++) sym::check(sameNum(d.getD(0, i), t.getD(c, i)), "DOUBLE value changed");
    sym::reach("done");
}
SYM_CASE(double2) { dbl_rows<2>(); }
SYM_CASE(double3) { dbl_rows<3>(); }
template <int R> static void real_rows() {
    Tab t; t.rows = R;
    size_t c = t.add("x", REAL);
    for (int i = 0; i < R; i++) t.setD(c, i, sym::any<double>());
    Dec d; roundtrip(t, d);
    for (int i = 0; i < R; i++) {
        double v = t.getD(c, i), g = d.getD(0, i);
        sym::check(sameNum(g, v) || (v != MISS && sameNum(g, (double)(float)v)), "REAL value changed");
    }
    sym::reach("done");
}
SYM_CASE(real2) { real_rows<2>(); }
SYM_CASE(real3) { real_rows<3>(); }
template <int R> static void int_rows(ColumnType ty) {
    Settings::treatIntegersAsDoubles(false);
    Tab t; t.rows = R;
    size_t c = t.add("x", ty);
    for (int i = 0; i < R; i++) t.setI(c, i, sym::any<int32_t>());
    Dec d; roundtrip(t, d);
    for (int i = 0; i < R; i++) sym::check(d.getI(0, i) == t.getI(c, i), "INTEGER value changed");
    sym::reach("done");
}
SYM_CASE(int2) { int_rows<2>(INTEGER); }
SYM_CASE(int3) { int_rows<3>(INTEGER); }
SYM_CASE(int4) { int_rows<4>(INTEGER); }
SYM_CASE(bits3) { int_rows<3>(BITFIELD); }

// integers carried as doubles (the library default)
template <int R> static void intd_rows(ColumnType ty) {
    Settings::treatIntegersAsDoubles(true);
    Tab t; t.rows = R;
    size_t c = t.add("x", ty);
    for (int i = 0; i < R; i++) t.setD(c, i, (double)sym::any<int32_t>());
    Dec d; roundtrip(t, d);
    for (int i = 0; i < R; i++) sym::check(d.getD(0, i) == t.getD(c, i), "INTEGER (as double) value changed");
    sym::reach("done");
}
SYM_CASE(intd2) { intd_rows<2>(INTEGER); }
SYM_CASE(intd3) { intd_rows<3>(INTEGER); }
SYM_CASE(bitsd3) { intd_rows<3>(BITFIELD); }
