// C04: the row-change marker.  A row stores the columns from its marker on; the others keep the value of the row before.
// Reading: frames with any combination of markers (byte-level writer) against a row-by-row model.
// Writing: tables of up to 300 columns survive encode -> decode wherever the first changed column is.
#include "enc.h"
#include "odbfile.h"
using namespace hs;
using namespace odc::api;

static double missingOf(int type) { return type == T_INT ? (double)Settings::integerMissingValue() : Settings::doubleMissingValue(); }

// mixed codecs, R rows, markers over every value in [0, ncols], cells symbolic
static void mixed(int R, bool firstRowPartial, bool swap, bool asDouble, unsigned subset) {
    Settings::treatIntegersAsDoubles(asDouble);
    FFrame f(swap);
    f.rows = R;
    const int N = 5;
    FCol s = fcol("s@t", T_STRING, "int8_string");
    s.strings = {"a", "twelve bytes"};
    f.cols = {fcol("i@t", T_INT, "int8", 10, 265, -7), fcol("c@t", T_INT, "constant", 42, 42, -7), s, fcol("m@t", T_INT, "int16_missing", -3, 100, -7, 1), fcol("d@t", T_REAL, "short_real", 0, 0, -1.5)};
    std::vector<std::vector<uint64_t>> cell(R, std::vector<uint64_t>(N));   // model
    auto I = [&](int64_t v) { return asDouble ? bits((double)v) : (uint64_t)v; };
    for (int r = 0; r < R; r++) {
        int mk = (r == 0 && !firstRowPartial) ? 0 : sym::choice(0, N);
        f.data.marker(mk);
        for (int c = 0; c < N; c++) {
            if (c < mk) {
                if (r) { cell[r][c] = cell[r - 1][c]; continue; }
                cell[r][c] = c == 4 ? bits(-1.5) : I(-7);
                if (c == 2) cell[r][c] = 2;       // an unset string is empty
                continue;
            }
            switch (c) {
                case 0: { uint8_t b = sym::any<uint8_t>(); f.data.u8(b); cell[r][c] = I(10 + b); break; }
                case 1: cell[r][c] = I(42); break;
                case 2: { uint8_t b = sym::any<uint8_t>() & 1; f.data.u8(b); cell[r][c] = b; break; }
                case 3: { uint16_t b = sym::any<uint16_t>(); f.data.u16(b); cell[r][c] = I(b == 0xffff ? -7 : b - 3); break; }
                case 4: { float v = 1.5f + (float)(r); if (sym::any<uint8_t>() & 1) v = -v; f.data.f32(v); cell[r][c] = bits(v); break; }
            }
        }
    }
    Mem m(f.bytes());
    m.openForRead();
    Reader rd(m);
    Frame fr = rd.next();
    sym::check(!!fr && fr.rowCount() == (size_t)R && fr.columnCount() == (size_t)N, "frame shape");
    std::vector<std::string> nm;
    for (int c = 0; c < N; c++) if (subset >> c & 1) nm.push_back(f.cols[c].name);
    Dec d(fr, nm);
    for (size_t k = 0; k < nm.size(); k++) {
        int c = 0; while (f.cols[c].name != nm[k]) c++;
        for (int r = 0; r < R; r++) {
            if (c == 2) {
                const char* p = (const char*)&d.v[k][r * d.w[k]];
                bool one = cell[r][c] == 1;
                char want[16]; memset(want, 0, 16);
                if (one) memcpy(want, "twelve bytes", 12); else if (cell[r][c] == 0) want[0] = 'a';
                sym::check(d.w[k] == 2 && memcmp(p, want, 16) == 0, "string cell differs from the row model");
            }
            else sym::check(d.at(k, r) == cell[r][c], "cell differs from the row model");
        }
    }
    sym::reach("done");
}
SYM_CASE(read3) { mixed(3, false, false, true, 31); }
SYM_CASE(read3int) { mixed(3, false, true, false, 31); }
SYM_CASE(read4sub) { mixed(4, false, false, true, 0x11); }
SYM_CASE(first) { bool d = sym::flag(); bool sw = sym::flag(); mixed(2, true, sw, d, 0x1f); }

// 300 columns; each row's marker is any of the values around the byte boundary
static int bigMarker(int BIG) {
    static const int m[] = {0, 254, 255, 256, 257, 511, 512, 513};
    int k = sym::choice(0, 9);
    int v = k < 8 ? m[k] : BIG - 9 + k;
    sym::assume(v <= BIG);
    return v;
}
static void wide_read(int BIG, int R) {
    FFrame f;
    f.rows = R;
    for (int c = 0; c < BIG; c++) { char b[16]; snprintf(b, 16, "c%d@t", c); f.cols.push_back(fcol(b, T_INT, "int8", c, c + 255)); }
    std::vector<std::vector<double>> cell(R, std::vector<double>(BIG));
    for (int r = 0; r < R; r++) {
        int mk = r ? bigMarker(BIG) : 0;
        f.data.marker(mk);
        uint8_t k = sym::any<uint8_t>();
        for (int c = 0; c < BIG; c++) {
            if (c < mk) { cell[r][c] = cell[r - 1][c]; continue; }
            uint8_t b = (c == mk || c == 256 || c == BIG - 1) ? k : (uint8_t)(r * 31 + c);
            f.data.u8(b);
            cell[r][c] = c + b;
        }
    }
    Mem m(f.bytes());
    m.openForRead();
    Reader rd(m);
    Frame fr = rd.next();
    std::vector<std::string> nm;
    for (auto& c : f.cols) nm.push_back(c.name);
    Dec d(fr, nm);
    for (int c = 0; c < BIG; c++) for (int r = 0; r < R; r++) sym::check(d.getD(c, r) == cell[r][c], "cell of a wide table differs from the row model");
    sym::reach("done");
}
SYM_CASE(wide_read) { wide_read(300, 3); }
SYM_CASE(wider_read) { wide_read(530, 3); }
static void wide_write(int BIG, int R) {
    Tab t; t.rows = R;
    for (int c = 0; c < BIG; c++) { char b[16]; snprintf(b, 16, "c%d", c); t.add(b, c % 7 == 3 ? DOUBLE : INTEGER); }
    for (int r = 0; r < R; r++) {
        int mk = r ? bigMarker(BIG) : 0;
        for (int c = 0; c < BIG; c++) {
            if (c < mk) t.at(c, r) = t.at(c, r - 1);
            else t.setD(c, r, c == mk ? (double)sym::any<uint8_t>() : (double)((r * 5 + c) % 11));
        }
    }
    Mem m;
    encode(t, m);
    Mem in(m.d);
    in.openForRead();
    Reader rd(in);
    Frame fr = rd.next();
    sym::check(fr.rowCount() == (size_t)R, "rows");
    Dec d(fr, names(t));
    for (int c = 0; c < BIG; c++) for (int r = 0; r < R; r++) sym::check(d.getD(c, r) == t.getD(c, r), "cell of a wide table changed");
    sym::reach("done");
}
SYM_CASE(wide_write) { wide_write(300, 3); }
SYM_CASE(wider_write) { wide_write(530, 3); }

// writing: every pattern of equal / different cells in a small table of mixed widths
SYM_CASE(write) {
    const int R = 3;
    Tab t; t.rows = R;
    t.add("i", INTEGER); t.add("s", STRING, 24); t.add("d", DOUBLE); t.add("r", REAL);
    for (int r = 0; r < R; r++) {
        t.setD(0, r, (double)(sym::any<uint8_t>() & 1));
        char* p = (char*)&t.at(1, r);
        memcpy(p, "abcdefghijklmnopqrstuvwx", 24);
        p[7] = 'A' + (sym::any<uint8_t>() & 1);
        p[23] = 'A' + (sym::any<uint8_t>() & 1);
        t.at(2, r) = bits(1.0) + (sym::any<uint8_t>() & 1) ;          // last bit of the mantissa
        t.setD(3, r, 1.0);
    }
    Mem m;
    encode(t, m);
    Mem in(m.d);
    in.openForRead();
    Reader rd(in);
    Frame fr = rd.next();
    Dec d(fr, names(t));
    for (int r = 0; r < R; r++) {
        sym::check(d.getD(0, r) == t.getD(0, r), "INTEGER cell changed");
        sym::check(d.w[1] == 3 && memcmp(&d.v[1][r * 3], &t.at(1, r), 24) == 0, "STRING cell changed");
        sym::check(d.at(2, r) == t.at(2, r), "DOUBLE cell changed");
        sym::check(d.at(3, r) == t.at(3, r), "REAL cell changed");
    }
    sym::reach("done");
}
