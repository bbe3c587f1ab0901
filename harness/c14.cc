// C14: the row iterator (odc::Reader) delivers exactly the rows of the stored frames, in order, with their columns,
// properties and dataset boundaries, and refuses truncated files.
#include "enc.h"
#include "odbfile.h"
#include "odc/Reader.h"
#include "odc/core/MetaData.h"
using namespace hs;

static bool anyString = false;

// one stored frame with every kind of column, any markers; model cells as doubles / strings
struct Model { std::vector<std::string> names; std::vector<int> types; std::vector<std::vector<double>> num; std::vector<std::vector<std::string>> str; std::map<std::string, std::string> props; };

static Model put(std::vector<char>& file, int kind, int rows, bool swap, bool firstPartial, int tag) {
    FFrame f(swap);
    f.rows = rows;
    FCol s = fcol("s@t", T_STRING, tag & 1 ? "int16_string" : "int8_string");
    s.strings = {"", "twelve bytes", "x"};
    if (kind == 2) s.strings[1] = "three";
    FCol i = fcol("i@t", T_INT, "int8_missing", 10 + tag, 265, -7, 1), d = fcol("d@t", T_REAL, "short_real", 0, 0, -1.5), m = fcol("m@t", T_DOUBLE, "long_real", 0, 0, 9.5);
    if (kind == 0) f.cols = {i, s, d, m};
    else if (kind == 1) f.cols = {m, d, s, i};
    else f.cols = {s, i};
    f.props["k" + std::to_string(tag)] = "v";
    f.props["common"] = std::to_string(tag);
    Model o;
    o.props = f.props;
    for (auto& c : f.cols) { o.names.push_back(c.name); o.types.push_back(c.type); }
    int N = (int)f.cols.size();
    for (int r = 0; r < rows; r++) {
        int mk = (r == 0 && !firstPartial) ? 0 : sym::choice(0, N);
        f.data.marker(mk);
        std::vector<double> num(N); std::vector<std::string> str(N);
        for (int c = 0; c < N; c++) {
            char w = f.cols[c].name[0];
            if (c < mk) {
                if (r) { num[c] = o.num[r - 1][c]; str[c] = o.str[r - 1][c]; }
                else { num[c] = w == 's' ? 0 : f.cols[c].missing; str[c] = ""; }      // an unset string reads as empty
                continue;
            }
            if (w == 'i') { uint8_t b = sym::any<uint8_t>(); f.data.u8(b); num[c] = b == 0xff ? -7 : 10 + tag + b; }
            if (w == 'd') { float v = sym::any<uint8_t>() & 1 ? -2.5f : 3.25f; f.data.f32(v); num[c] = v; }
            if (w == 'm') { double v = sym::any<double>(); f.data.f64(v); num[c] = v; }
            if (w == 's') { uint8_t k = anyString && r == rows - 1 ? sym::choice(0, 2) : (r + 1) % 3; if (tag & 1) f.data.u16(k); else f.data.u8(k); str[c] = s.strings[k]; }
        }
        o.num.push_back(num); o.str.push_back(str);
    }
    append(file, f.bytes());
    return o;
}

static void readAll(Mem& m, std::vector<Model>& ms, long limitRows = -1) {
    odc::Reader rd(m);
    size_t f = 0, r = 0;
    while (f < ms.size() && ms[f].num.empty()) f++;
    bool fresh = true;
    long n = 0;
    auto end = rd.end();
    for (auto it = rd.begin(); it != end; ++it) {
        sym::check(f < ms.size(), "more rows than stored");
        Model& o = ms[f];
        sym::check(it->columns().size() == o.names.size(), "number of columns of the row's dataset");
        if (n) sym::check(it->isNewDataset() == fresh, "dataset boundary reported at the wrong row");   // (the first row of all: unspecified)
        for (size_t c = 0; c < o.names.size(); c++) {
            sym::check(it->columns()[c]->name() == o.names[c] && (int)it->columns()[c]->type() == o.types[c], "column of the row's dataset");
            if (o.types[c] == T_STRING) {
                sym::check(it->string(c) == o.str[r][c], "string of a row differs from the stored one");
                size_t w = it->dataSizeDoubles(c) * 8;
                const char* p = (const char*)&it->data(c);
                for (size_t k = o.str[r][c].size(); k < w; k++) sym::check(p[k] == 0, "string cell is not padded with NULs");
            } else
                sym::check(sameNum(it->data(c), o.num[r][c]), "number of a row differs from the stored one");
        }
        if (fresh) {
            for (auto& kv : o.props) {
                auto q = it->properties().find(kv.first);
                sym::check(q != it->properties().end() && q->second == kv.second, "property of the dataset is not reported");
            }
        }
        fresh = false;
        n++;
        if (++r == o.num.size()) { r = 0; f++; fresh = true; while (f < ms.size() && ms[f].num.empty()) f++; }
        if (limitRows >= 0 && n >= limitRows) return;
    }
    sym::check(f == ms.size() && r == 0, "rows are missing");
}
static void markers(int kind, int rows, bool partial) {
    std::vector<char> file;
    std::vector<Model> ms;
    bool sw = sym::flag();
    anyString = true;
    ms.push_back(put(file, kind, rows, sw, partial, sw));
    Mem m(file);
    readAll(m, ms);
    sym::reach("done");
}
SYM_CASE(rows3) { markers(0, 3, false); }
SYM_CASE(rows2) { markers(1, 2, true); }
SYM_CASE(firstPartial) { markers(2, 2, true); }
SYM_CASE(firstPartialWide) { markers(0, 2, true); }
// several frames of different layouts and row counts, in either byte order
static void datasets(int nf, int maxRows) {
    std::vector<char> file;
    std::vector<Model> ms;
    for (int i = 0; i < nf; i++) ms.push_back(put(file, sym::choice(0, 2), sym::choice(0, maxRows), sym::flag(), false, i));
    Mem m(file);
    readAll(m, ms);
    sym::reach("done");
}
SYM_CASE(frames2) { datasets(2, 2); }
SYM_CASE(frames3) { datasets(3, 1); }
// frames without rows anywhere in between
SYM_CASE(frames5) {
    std::vector<char> file;
    std::vector<Model> ms;
    for (int i = 0; i < 5; i++) ms.push_back(put(file, i % 3, sym::choice(0, 1), i & 1, false, i));
    Mem m(file);
    readAll(m, ms);
    sym::reach("done");
}
// more columns than one byte of the marker counts
static void wide(int big, int rows) {
    static const int mks[] = {0, 1, 255, 256, 257, 511, 512, 513};
    FFrame f(sym::flag());
    f.rows = rows;
    for (int c = 0; c < big; c++) { char b[16]; snprintf(b, 16, "c%d@t", c); f.cols.push_back(fcol(b, T_INT, "int8", c, c + 255)); }
    std::vector<std::vector<double>> cell(rows, std::vector<double>(big));
    for (int r = 0; r < rows; r++) {
        int k = r ? sym::choice(0, 9) : 0, mk = k < 8 ? mks[k] : big - 9 + k;
        sym::assume(mk <= big);
        f.data.marker(mk);
        uint8_t x = sym::any<uint8_t>();
        for (int c = 0; c < big; c++) {
            if (c < mk) { cell[r][c] = cell[r - 1][c]; continue; }
            uint8_t b = (c == mk || c == 256 || c == big - 1) ? x : (uint8_t)(r * 31 + c);
            f.data.u8(b);
            cell[r][c] = c + b;
        }
    }
    Mem m(f.bytes());
    odc::Reader rd(m);
    int r = 0;
    auto end = rd.end();
    for (auto it = rd.begin(); it != end; ++it, ++r) {
        sym::check(r < rows, "more rows than stored");
        for (int c = 0; c < big; c++) sym::check(it->data(c) == cell[r][c], "cell of a wide row");
    }
    sym::check(r == rows, "rows are missing");
    sym::reach("done");
}
SYM_CASE(wide) { wide(520, 3); }

// what encode writes, the row reader and decode read alike
SYM_CASE(agree) {
    Tab t;
    t.rows = 3;
    int ci = t.add("i@t", odc::api::INTEGER), cr = t.add("r@t", odc::api::REAL), cs = t.add("s@t", odc::api::STRING, 16), cd = t.add("d@t", odc::api::DOUBLE);
    for (size_t r = 0; r < 3; r++) {
        t.setD(ci, r, r == 1 ? (sym::flag() ? 2147483647. : 5.) : (double)sym::choice(3, 4));
        t.setD(cr, r, r == 2 ? (double)sym::any<float>() : 1.5);
        unsigned char b = r == 2 ? sym::any<unsigned char>() : 'b';
        memset(&t.at(cs, r), 0, 16);
        if (r != 1) { char* p = (char*)&t.at(cs, r); p[0] = 'a'; p[1] = b; for (int k = 2; k < 11; k++) p[k] = 'c'; if (!b) memset(p + 1, 0, 15); }
        t.setD(cd, r, r ? sym::any<double>() : 2.);
    }
    Mem out;
    encode(t, out);
    Mem a(out.d);
    a.openForRead();
    odc::api::Reader rd(a, false);
    auto f = rd.next();
    Dec d(f, names(t));
    Mem b(out.d);
    odc::Reader lr(b);
    size_t r = 0;
    auto end = lr.end();
    for (auto it = lr.begin(); it != end; ++it, ++r) {
        sym::check(r < 3, "too many rows");
        for (int c : {ci, cr, cd}) sym::check(sameNum(it->data(c), d.getD(c, r)), "row reader and decode disagree on a number");
        sym::check(it->string(cs) == d.getS(cs, r), "row reader and decode disagree on a string");
    }
    sym::check(r == 3, "rows missing");
    sym::reach("done");
}
// a file cut anywhere but between frames is refused, after the rows of the complete frames
SYM_CASE(cut) {
    std::vector<char> file;
    std::vector<Model> ms;
    ms.push_back(put(file, 1, 1, sym::flag(), false, 0));
    size_t first = file.size();
    ms.push_back(put(file, 2, 2, false, false, 1));
    size_t n = sym::choice(0, (int)file.size());
    std::vector<char> c(file.begin(), file.begin() + n);
    Mem m(c);
    m.estimates = sym::flag();
    bool threw = false;
    try {
        if (n < first) ms.clear(); else if (n < file.size()) ms.pop_back();
        readAll(m, ms);
    } catch (std::exception&) { threw = true; }
    bool boundary = n == 0 || n == first || n == file.size();
    sym::check(threw == !boundary, boundary ? "complete frames are refused" : "a truncated file is read without an error");
    sym::reach("done");
}
