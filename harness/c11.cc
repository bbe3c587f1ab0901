// C11: frames tile the file; every frame stays independently usable whatever else is done with the reader
#include "enc.h"
#include "odbfile.h"
using namespace hs;
using namespace odc::api;

static Tab table(size_t rows) {
    Tab t; t.rows = rows;
    t.add("a@t", INTEGER); t.add("s@t", STRING, 16); t.add("d@t", DOUBLE);
    for (size_t r = 0; r < rows; r++) {
        t.setD(0, r, rows > 4 && r % 3 ? (double)r * 7 : (double)sym::any<uint8_t>());
        memcpy(&t.at(1, r), r & 1 ? "x" : "longer-value", r & 1 ? 1 : 12);
        t.setD(2, r, r * 1.25);
    }
    return t;
}
static void sameRows(const Frame& f, Tab& t, size_t from, size_t n) {
    sym::check(f.rowCount() == n && f.columnCount() == 3, "frame shape");
    Dec d(f, {"d@t", "a@t", "s@t"});
    for (size_t r = 0; r < n; r++) {
        sym::check(d.getD(1, r) == t.getD(0, from + r), "INTEGER cell of a frame");
        sym::check(d.getD(0, r) == t.getD(2, from + r), "DOUBLE cell of a frame");
        std::string want((const char*)&t.at(1, from + r), strnlen((const char*)&t.at(1, from + r), 16));
        sym::check(d.getS(2, r) == want, "STRING cell of a frame");
    }
}
// rows split into frames of at most k rows
static void tile(int lo, int hi) {
    int n = sym::choice(lo, hi), k = sym::choice(1, hi + 1);
    Tab t = table(n);
    Mem m;
    encode(t, m, {{"p", "q"}}, k);
    const std::vector<char>& file = *m.d;
    Mem in(m.d);
    in.estimates = sym::flag();
    in.openForRead();
    Reader rd(in, false);
    size_t row = 0, off = 0, frames = 0;
    std::vector<Frame> all;
    while (true) {
        Frame f = rd.next();
        if (!f) break;
        sym::check((long long)f.offset() == (long long)off, "a frame does not start where the one before ended");
        size_t len = (size_t)(long long)f.length();
        sym::check(len > 0 && off + len <= file.size(), "frame length");
        sym::check(f.rowCount() == std::min<size_t>(k, n - row), "number of rows of a frame");
        eckit::Buffer b = f.encodedData();
        sym::check(b.size() == len && memcmp(b.data(), file.data() + off, len) == 0, "encodedData() is not the bytes of the frame in the file");
        sameRows(f, t, row, f.rowCount());
        // the bytes of one frame are a file of their own
        Mem one(std::vector<char>((const char*)b.data(), (const char*)b.data() + b.size()));
        one.openForRead();
        Reader r1(one);
        Frame g = r1.next();
        sym::check(!!g, "a frame's bytes do not stand alone");
        sameRows(g, t, row, f.rowCount());
        sym::check(!r1.next(), "extra frame");
        off += len; row += f.rowCount(); frames++;
        all.push_back(f);
    }
    sym::check(off == file.size(), "frames do not cover the file");
    sym::check(row == (size_t)n && frames == (size_t)(n ? (n + k - 1) / k : 1), "number of frames");
    sym::check(!rd.next(), "next() after the end");
    row = n;
    for (size_t i = all.size(); i-- > 0;) { row -= all[i].rowCount(); sameRows(all[i], t, row, all[i].rowCount()); }   // later, backwards
    sym::reach("done");
}
SYM_CASE(tile0_3) { tile(0, 3); }
SYM_CASE(tile5) { tile(5, 5); }
// files concatenated byte-wise: k files of any number of frames each
SYM_CASE(concat) {
    std::vector<char> file;
    std::vector<size_t> from, cnt;
    Tab t = table(6);
    size_t row = 0;
    int parts = sym::choice(1, 3);
    for (int p = 0; p < parts; p++) {
        int n = sym::choice(0, 2), k = sym::choice(1, 2);
        Tab u; u.rows = n; u.cols = t.cols;
        for (size_t c = 0; c < 3; c++) u.v.emplace_back(t.v[c].begin() + row * t.width(c), t.v[c].begin() + (row + n) * t.width(c));
        Mem m;
        encode(u, m, {}, k);
        append(file, *m.d);
        for (int i = 0; i < n || (n == 0 && i == 0); i += k) { from.push_back(row + i); cnt.push_back(std::min(k, n - i)); }
        row += n;
    }
    Mem in(file);
    in.openForRead();
    Reader rd(in, false);
    for (size_t i = 0; i < from.size(); i++) {
        Frame f = rd.next();
        sym::check(!!f, "a frame of the concatenated file is missing");
        sameRows(f, t, from[i], cnt[i]);
    }
    sym::check(!rd.next(), "extra frame");
    sym::reach("done");
}
// any history of operations on two readers of one file and the frames they returned
static void history(int steps, bool swap, bool shared) {
    FFrame f[3] = {FFrame(swap), FFrame(!swap), FFrame(swap)};
    std::vector<char> file;
    std::vector<double> val[3];
    size_t off[4] = {0};
    for (int i = 0; i < 3; i++) {
        FCol s = fcol("s", T_STRING, "int8_string"); s.strings = {"ab", "cdefghijk"};
        f[i].cols = {fcol("x", T_INT, i == 1 ? "int16" : "int8", 100 * i, 100 * i + 255), s};
        f[i].rows = 2;
        for (int r = 0; r < 2; r++) {
            f[i].data.marker(0);
            uint8_t v = sym::any<uint8_t>();
            if (i == 1) f[i].data.u16(v); else f[i].data.u8(v);
            f[i].data.u8((uint8_t)(r ^ (i & 1)));
            val[i].push_back(100 * i + v);
        }
        std::vector<char> b = f[i].bytes();
        append(file, b);
        off[i + 1] = file.size();
    }
    Mem h0(file), h1(shared ? h0.d : std::make_shared<std::vector<char>>(file));
    h0.openForRead(); h1.openForRead();
    Reader r0(h0, false), r1(h1, false);
    Reader* rd[2] = {&r0, &r1};
    std::vector<Frame> got[2];
    std::vector<int> idx[2];
    bool end[2] = {false, false};
    for (int s = 0; s < steps; s++) {
        int w = sym::choice(0, 1);
        int op = sym::choice(0, 3);
        if (op == 0) {
            Frame g = rd[w]->next();
            int expect = (int)idx[w].size();
            sym::check(!!g == (expect < 3), "next() returned the wrong number of frames");
            if (g) { got[w].push_back(std::move(g)); idx[w].push_back(expect); }
            continue;
        }
        sym::assume(!got[w].empty());
        int k = sym::choice(0, 2);
        sym::assume(k < (int)got[w].size());
        Frame& g = got[w][k];
        int i = idx[w][k];
        if (op == 1) {
            Dec d(g, {"x", "s"});
            for (int r = 0; r < 2; r++) {
                sym::check(d.getD(0, r) == val[i][r], "value of a frame used later");
                sym::check(d.getS(1, r) == ((r ^ (i & 1)) ? "cdefghijk" : "ab"), "string of a frame used later");
            }
        } else if (op == 2) {
            eckit::Buffer b = g.encodedData();
            sym::check(b.size() == off[i + 1] - off[i] && memcmp(b.data(), file.data() + off[i], b.size()) == 0, "bytes of a frame used later");
        } else {
            Span sp = g.span({"s"}, false);
            sym::check(sp.getStringValues("s").size() == 2, "span of a frame used later");
            Frame c = g;                                    // a copy is independent
            Dec d(c, {"x"});
            for (int r = 0; r < 2; r++) sym::check(d.getD(0, r) == val[i][r], "value of a copied frame");
        }
    }
    sym::reach("done");
}
SYM_CASE(history4) { history(4, false, true); }
SYM_CASE(history5) { history(5, true, false); }
