// C20: comparing two ODB files succeeds exactly when they hold the same columns and rows
#include "enc.h"
#include "odbfile.h"
#include "odc/Comparator.h"
#include "odc/Reader.h"
#include "odc/ODBAPISettings.h"
#include "odc/core/MetaData.h"
using namespace hs;
using namespace odc::api;

static bool differ(Mem& a, Mem& b, bool skipMissing, const std::vector<std::string>& noTypes = {}, const std::vector<std::string>& noCols = {}) {
    odc::Reader ra(a), rb(b);
    odc::Reader::iterator i1 = ra.begin(), e1 = ra.end(), i2 = rb.begin(), e2 = rb.end();
    odc::Comparator c(skipMissing);
    try { c.compare(i1, e1, i2, e2, "a", "b", noTypes, noCols); } catch (std::exception&) { return true; }
    return false;
}
// one column, one row in each file, stored as they are
static void one(FFrame& f, FCol c) { f.cols = {c}; f.rows = 1; f.data.marker(0); }

// two encodings of one table (any split into frames): equal, and different as soon as a cell differs
static void tables(bool skip, int rows, bool change) {
    Tab t;
    t.rows = rows;
    int ci = t.add("i@t", INTEGER), cs = t.add("s@t", STRING, 16), cd = t.add("d@t", DOUBLE), cr = t.add("r@t", REAL), cb = t.add("b@t", BITFIELD);
    static const char* words[] = {"", "one", "two-and-more"};
    for (int r = 0; r < rows; r++) {
        int k = sym::choice(0, 2);
        t.setD(ci, r, k == 2 && skip ? odc::MDI::integerMDI() : 5 + r * k);
        strncpy((char*)&t.at(cs, r), words[k], 16);
        t.setD(cd, r, k == 1 && skip ? odc::MDI::realMDI() : 1.5 * k);
        t.setD(cr, r, r + 0.25);
        t.setD(cb, r, k);
    }
    Mem a, b;
    encode(t, a, {}, sym::choice(1, rows));
    if (change) {
        int r = sym::choice(0, rows - 1);
        switch (sym::choice(0, 4)) {
            case 0: t.setD(ci, r, t.getD(ci, r) + 1); break;
            case 1: ((char*)&t.at(cs, r))[strnlen((char*)&t.at(cs, r), 16) + (0)] = '!'; break;
            case 2: t.setD(cd, r, t.getD(cd, r) * 1.001 + 0.5); break;
            case 3: t.setD(cr, r, r + 0.5); break;
            case 4: t.setD(cb, r, t.getD(cb, r) + 4); break;
        }
    }
    encode(t, b, {}, change ? rows : sym::choice(1, rows));
    bool d = differ(a, b, skip);
    if (change) sym::check(d, "a difference between two files was not reported");
    else sym::check(!d, "two files with the same rows were reported to differ");
    sym::reach("done");
}
SYM_CASE(same_skip) { tables(true, 3, false); }
SYM_CASE(same) { tables(false, 3, false); }
SYM_CASE(cell) { bool s = sym::flag(); tables(s, 3, true); }

// integers: any two values
static void ints(const char* ca, const char* cb, int type) {
    bool skip = sym::flag(), swa = sym::flag(), swb = sym::flag();
    bool asd = sym::flag();
    odc::ODBAPISettings::instance().treatIntegersAsDoubles(asd);
    FFrame a(swa), b(swb);
    one(a, fcol("i@t", type, ca, 0, 0, 2147483647.));
    one(b, fcol("i@t", type, cb, 0, 0, 2147483647.));
    int64_t x, y;
    if (std::string(ca) == "int32") { x = sym::any<int32_t>(); a.data.i32((int32_t)x); } else { uint16_t v = sym::any<uint16_t>(); x = v; a.data.u16(v); }
    if (std::string(cb) == "int32") { y = sym::any<int32_t>(); b.data.i32((int32_t)y); } else { uint16_t v = sym::any<uint16_t>(); y = v; b.data.u16(v); }
    Mem ma(a.bytes()), mb(b.bytes());
    bool d = differ(ma, mb, skip);
    sym::check(d == (x != y), d ? "equal integers were reported to differ" : "different integers were not reported");
    odc::ODBAPISettings::instance().treatIntegersAsDoubles(true);
    sym::reach("done");
}
SYM_CASE(int32) { ints("int32", "int32", T_INT); }
SYM_CASE(int16) { ints("int16", "int32", T_INT); }
SYM_CASE(bits) { ints("int32", "int16", T_BITFIELD); }
// reals: the same value never differs (also infinities); values further apart than the tolerance do
static void reals(int type, double y) {
    FFrame a(false), b(false);
    one(a, fcol("d@t", type, "long_real", 0, 0, -99.5));
    one(b, fcol("d@t", type, "long_real", 0, 0, -99.5));
    double x = sym::any<double>();
    sym::assume(x == x);
    if (type == T_REAL) { float fx = sym::any<float>(); sym::assume(fx == fx); x = fx; y = (float)y; }
    a.data.f64(x);
    b.data.f64(y);
    Mem ma(a.bytes()), mb(b.bytes());
    bool d = differ(ma, mb, sym::flag());
    if (x == y) sym::check(!d, "a file was reported to differ from an equal one");
    bool far = y == 0 ? (x > 1e-8 || x < -1e-8) : (x * y < 0 && (x > 1e-8 || x < -1e-8)) || (x / y > 1 + 1e-8) || (x / y < 1 - 1e-8);
    if (far && !(x == y) && !(fabs(y) < 1e-8 && fabs(x) < 1e-8)) sym::check(d, "different reals were not reported");
    sym::reach("done");
}
SYM_CASE(double_zero) { reals(T_DOUBLE, 0); }
SYM_CASE(double_one) { reals(T_DOUBLE, 1); }
SYM_CASE(double_big) { reals(T_DOUBLE, -ldexp(1, 1000)); }
SYM_CASE(double_inf) { reals(T_DOUBLE, sym::flag() ? -INFINITY : INFINITY); }
SYM_CASE(real_one) { reals(T_REAL, -2); }
SYM_CASE(real_inf) { reals(T_REAL, INFINITY); }
SYM_CASE(double_self) {
    FFrame a(false), b(true);
    one(a, fcol("d@t", T_DOUBLE, "long_real", 0, 0, -99.5));
    one(b, fcol("d@t", T_DOUBLE, "long_real", 0, 0, -99.5));
    double x = sym::any<double>();
    sym::assume(x == x);
    a.data.f64(x); b.data.f64(x);
    Mem ma(a.bytes()), mb(b.bytes());
    sym::check(!differ(ma, mb, sym::flag()), "a file was reported to differ from an equal one");
    sym::reach("done");
}
// strings: any bytes, tables of different widths and codecs
static void strings(int n, const char* ca, const char* cb) {
    bool skip = sym::flag();
    char x[17] = {0}, y[17] = {0};
    int lo = n > 8 ? 7 : 0;
    memset(x, 'a', lo); memset(y, 'a', lo);
    sym::bytes(x + lo, n - lo); sym::bytes(y + lo, n - lo);
    for (int i = 1; i < 16; i++) { if (!x[i - 1]) x[i] = 0; if (!y[i - 1]) y[i] = 0; }      // NUL padded
    FFrame a(false), b(false);
    FCol p = fcol("s@t", T_STRING, ca), q = fcol("s@t", T_STRING, cb);
    p.strings = {std::string(x, strnlen(x, 16))}; q.strings = {std::string(y, strnlen(y, 16)), sym::flag() ? "a much wider string in the table" : "x"};
    p.longConst = p.strings[0]; q.longConst = q.strings[0];
    memcpy(p.cchars, x, 8); memcpy(q.cchars, y, 8);
    one(a, p); one(b, q);
    if (a.cols[0].codec == "int8_string") a.data.u8(0);
    if (b.cols[0].codec == "int8_string") b.data.u8(0);
    if (b.cols[0].codec == "int16_string") b.data.u16(0);
    Mem ma(a.bytes()), mb(b.bytes());
    bool d = differ(ma, mb, skip);
    sym::check(d == (p.strings[0] != q.strings[0]), d ? "equal strings were reported to differ" : "different strings were not reported");
    sym::reach("done");
}
SYM_CASE(str8) { strings(3, "int8_string", "int16_string"); }
SYM_CASE(str_const) { strings(8, "constant_string", "int8_string"); }
SYM_CASE(str16) { strings(10, "int8_string", "int8_string"); }
SYM_CASE(str_long) { strings(10, "long_constant_string", "int16_string"); }
// missing values
SYM_CASE(missing) {
    FFrame a(false), b(false);
    bool skip = sym::flag();
    // each file has its own missing value
    FCol p = fcol("i@t", T_INT, "int8_missing", 0, 254, 300, 1), q = fcol("i@t", T_INT, "int16_missing", 0, 65534, 2147483647., 1);
    one(a, p); one(b, q);
    uint8_t x = sym::any<uint8_t>(); uint16_t y = sym::any<uint16_t>();
    a.data.u8(x); b.data.u16(y);
    bool mx = x == 255, my = y == 65535;
    if (y == 300) return;
    Mem ma(a.bytes()), mb(b.bytes());
    bool d = differ(ma, mb, skip);
    sym::check(d == (mx || my ? mx != my : x != y), d ? "equal cells were reported to differ" : "a missing value and a value were not told apart");
    sym::reach("done");
}
// structure: column names, types, bitfields, number and order of columns, number of rows, changes between datasets; exclusions
SYM_CASE(structure) {
    bool skip = sym::flag();
    int what = sym::choice(0, 9);
    int nf = sym::choice(1, 2), at = nf == 2 ? sym::choice(0, 1) : 0;
    auto file = [&](bool other) {
        std::vector<char> o;
        for (int k = 0; k < nf; k++) {
            FFrame f(false);
            FCol b = fcol("b@t", T_BITFIELD, "int8", 0, 255);
            b.bfNames = {"x", "y"}; b.bfSizes = {3, 4};
            FCol i = fcol("i@t", T_INT, "int8", 0, 255), d = fcol("d@t", T_DOUBLE, "int8", 0, 255);
            f.rows = 2;
            bool ch = other && k == at;
            if (ch && what == 1) i.name = "j@t";
            if (ch && what == 2) d.type = T_REAL;
            if (ch && what == 3) b.bfNames[1] = "z";
            if (ch && what == 4) { b.bfSizes[0] = 4; b.bfSizes[1] = 3; }
            f.cols = {b, i, d};
            if (ch && what == 5) f.cols = {i, b, d};
            if (ch && what == 6) f.cols = {b, i};
            if (ch && what == 7) f.cols = {b, i, d, fcol("e@t", T_INT, "constant", 3, 3)};
            if (ch && what == 8) f.rows = 1;
            if (ch && what == 9) f.rows = 3;
            for (int r = 0; r < f.rows; r++) { f.data.marker(0); for (size_t c = 0; c < f.cols.size(); c++) if (f.cols[c].codec == "int8") f.data.u8(7); }
            append(o, f.bytes());
        }
        return o;
    };
    Mem a(file(false)), b(file(true));
    if (sym::flag()) std::swap(a.d, b.d);
    bool d = differ(a, b, skip);
    sym::check(d == (what != 0), d ? "equal files were reported to differ" : "a difference in structure was not reported");
    sym::reach("done");
}
// the second file changes its columns at a row where the first does not
SYM_CASE(split) {
    bool skip = sym::flag();
    bool change = sym::flag();
    int rows = sym::choice(2, 3), cut = sym::choice(1, 2);
    sym::assume(cut < rows);
    auto frame = [&](int from, int to, bool ch) {
        FFrame f(false);
        f.rows = to - from;
        f.cols = {fcol("i@t", T_INT, "int8", 0, 255), fcol("d@t", T_DOUBLE, "int8", 0, 255)};
        if (ch) f.cols.pop_back();
        for (int r = from; r < to; r++) { f.data.marker(0); f.data.u8(r); if (!ch) f.data.u8(7); }
        return f.bytes();
    };
    std::vector<char> x = frame(0, rows, false), y = frame(0, cut, false);
    append(y, frame(cut, rows, change));
    Mem a(x), b(y);
    if (sym::flag()) std::swap(a.d, b.d);
    bool d = differ(a, b, skip);
    sym::check(d == change, d ? "equal files split differently were reported to differ" : "columns that end half-way were not reported");
    sym::reach("done");
}
SYM_CASE(exclude) {
    bool skip = sym::flag();
    int ex = sym::choice(0, 3), ch = sym::choice(0, 2);
    bool types = sym::flag();
    static const char* nm[] = {"i@t", "s@t", "d@t"};
    auto file = [&](bool other) {
        FFrame f(false);
        FCol s = fcol("s@t", T_STRING, "int8_string");
        s.strings = {"one", other ? "two-and-more than before" : "two"};
        f.cols = {fcol("i@t", types && other && ch == 0 ? T_DOUBLE : T_INT, "int8", 0, 255), s, fcol("d@t", types && other && ch == 2 ? T_REAL : T_DOUBLE, "int8", 0, 255)};
        f.rows = 1;
        f.data.marker(0);
        for (int c = 0; c < 3; c++) f.data.u8(c == 1 ? (other && ch == 1 ? 1 : 0) : !types && other && ch == c ? 9 : 3);
        return f.bytes();
    };
    Mem a(file(false)), b(file(true));
    std::vector<std::string> l;
    if (ex < 3) l.push_back(nm[ex]);
    bool d = differ(a, b, skip, {}, l);
    sym::check(d == (ex != ch), d ? "an excluded column was compared, or a column left out" : "a difference in a column that is not excluded was not reported");
    if (types && ch != 1) sym::check(differ(a, b, skip, l, {}) == (ex != ch), "excluded column types");
    sym::reach("done");
}
// the number of rows, from none at all (no frame, or frames without rows)
SYM_CASE(rows) {
    bool skip = sym::flag();
    auto file = [&](int rows, int how) {          // how: 0 one frame, 1 a frame for each row, 2 an empty frame first, 3 last
        std::vector<char> o;
        auto frame = [&](int n) {
            FFrame f(false);
            f.rows = n;
            f.cols = {fcol("i@t", T_INT, "int8", 0, 255)};
            for (int r = 0; r < n; r++) { f.data.marker(0); f.data.u8(7); }
            append(o, f.bytes());
        };
        if (how == 2) frame(0);
        if (how == 1) for (int r = 0; r < rows; r++) frame(1); else if (rows) frame(rows);
        if (how == 3) frame(0);
        return o;
    };
    int n1 = sym::choice(0, 2), n2 = sym::choice(0, 2);
    Mem a(file(n1, sym::choice(0, 3))), b(file(n2, sym::choice(0, 3)));
    bool d = differ(a, b, skip);
    sym::check(d == (n1 != n2), d ? "files with the same rows were reported to differ" : "rows at the end of one file were not reported");
    sym::reach("done");
}
