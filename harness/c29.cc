// C29: odc::api::encode() writes the cells its strided arrays describe, whatever the layout, in frames of at most the rows asked for
#include "enc.h"
using namespace hs;
using namespace odc::api;

static const uint64_t P = Dec::POISON;
// a table in any arrangement of arrays: integer, string of sw words, double
struct Arr {
    static const int N = 3;
    int rows; size_t w[N];
    std::vector<ColumnInfo> cols;
    std::vector<uint64_t> cell[N];            // the values meant
    std::vector<std::vector<uint64_t>> mem;
    std::vector<ConstStridedData> sd;
    Arr(int n, size_t sw) : rows(n) {
        static const char* nm[N] = {"id@hdr", "name@hdr", "val@body"};
        static const ColumnType ty[N] = {INTEGER, STRING, DOUBLE};
        for (int c = 0; c < N; c++) { w[c] = c == 1 ? sw : 1; cols.push_back(ColumnInfo{nm[c], ty[c], 8 * w[c], {}}); }
        for (int r = 0; r < n; r++) {
            cell[0].push_back(bits(n > 3 && r % 3 ? r - 2. : (double)sym::any<int8_t>()));
            char t[24] = {0};
            t[0] = 'x';
            if (r & 1) for (size_t k = 1; k < 8 * sw; k++) t[k] = 'a' + k;
            t[8 * sw - 1] = (n > 3 && r % 2 ? r & 2 : sym::any<uint8_t>() & 1) ? 'y' : 'z';
            if (!(r & 1)) t[8 * sw - 2] = 'q', t[1] = 'w';
            for (size_t k = 0; k < 8 * sw; k++) if (!t[k]) t[k] = '.';
            for (size_t k = 0; k < sw; k++) { uint64_t u; memcpy(&u, t + 8 * k, 8); cell[1].push_back(u); }
            cell[2].push_back(bits(r / 2 * 0.5 - 1));
        }
    }
    // how: 0 dense, 1 with gaps, 2 the first row's values for all rows (stride 0), 3 interleaved, elements described wider than the values
    void lay(const int* how) {
        size_t row = 0;
        for (int c = 0; c < N; c++) row += w[c];
        std::vector<uint64_t> all(row * rows + 1, P);
        size_t off = 0;
        mem.reserve(N + 1);
        mem.push_back(all);
        for (int c = 0; c < N; c++, off += w[c - 1]) {
            if (how[c] == 2) for (int r = 1; r < rows; r++) for (size_t k = 0; k < w[c]; k++) cell[c][r * w[c] + k] = cell[c][k];
            size_t st = how[c] == 0 ? w[c] : how[c] == 1 ? w[c] + 1 : how[c] == 2 ? 0 : row;
            if (how[c] != 3) mem.push_back(std::vector<uint64_t>((how[c] == 2 ? w[c] : st * rows) + 1, P));
            uint64_t* p = how[c] == 3 ? mem[0].data() + off : mem.back().data();
            for (int r = 0; r < rows; r++) for (size_t k = 0; k < w[c]; k++) p[r * st + k] = cell[c][r * w[c] + k];
            // what lies between the cells must not matter
            if (how[c] == 1) for (int r = 0; r < rows; r++) p[r * st + w[c]] = sym::any<uint64_t>();
            sd.emplace_back(p, rows, 8 * w[c], 8 * st);
        }
    }
    void expect(const std::vector<char>& file, size_t per) {
        Mem m(file);
        m.openForRead();
        Reader r(m, false);
        int done = 0;
        size_t nf = 0;
        while (Frame f = r.next()) {
            nf++;
            sym::check(f.rowCount() == std::min<size_t>(per, rows - done), "rows of a frame");
            sym::check((int)f.columnCount() == N, "columns of a frame");
            auto p = f.properties();
            sym::check(p.size() == 3 && p["k"] == "v" && p.count("other") && p["other"].empty() && p.count("encoder"), "properties of a frame");
            std::vector<std::string> nm;
            for (auto& c : cols) nm.push_back(c.name);
            Dec d(f, nm);
            for (size_t q = 0; q < f.rowCount(); q++, done++)
                for (int c = 0; c < N; c++) {
                    sym::check(f.columnInfo()[c].decodedSize == 8 * w[c] || c == 1, "decoded size");
                    for (size_t k = 0; k < w[c]; k++) {
                        uint64_t got = d.w[c] > k ? d.v[c][q * d.w[c] + k] : 0;
                        sym::check(got == cell[c][done * w[c] + k], "encoded cell has the wrong value");
                    }
                }
        }
        sym::check(done == rows, "rows of all frames");
        sym::check(nf == (rows == 0 ? 1 : (rows + per - 1) / per), "number of frames");
    }
};
static std::vector<char> enc(Arr& a, size_t per) { Mem m; encode(m, a.cols, a.sd, {{"k", "v"}, {"other", ""}}, per); return *m.d; }

static void layout(int rows, int maxPer) {
    Arr a(rows, sym::choice(1, 2));
    int how[3] = {sym::choice(0, 3), sym::choice(0, 3), sym::choice(0, 3)};
    a.lay(how);
    size_t per = sym::choice(1, maxPer);
    a.expect(enc(a, per), per);
    sym::reach("done");
}
SYM_CASE(layout0) { layout(0, 1); }
SYM_CASE(layout1) { layout(1, 2); }
SYM_CASE(layout2) { layout(2, 3); }
SYM_CASE(layout3) { layout(3, 4); }
SYM_CASE(layout5) {
    Arr a(5, 2);
    int h = sym::choice(0, 3), how[3] = {h, h == 2 ? 0 : h, (h + 1) % 4};
    a.lay(how);
    size_t per = sym::choice(1, 6);
    a.expect(enc(a, per), per);
    sym::reach("done");
}
// the bytes do not depend on the arrangement, and row-limited encoding is encoding the slices one after the other
SYM_CASE(same) {
    int rows = 4;
    Arr a(rows, 2), b = a;
    int h0[3] = {0, 0, 0}, h1[3] = {sym::flag() ? 1 : 3, sym::flag() ? 1 : 3, 3};
    a.lay(h0);
    b.lay(h1);
    size_t per = sym::choice(1, 5);
    std::vector<char> x = enc(a, per), y = enc(b, per), z;
    sym::check(x.size() == y.size(), "the layout of the arrays changes the file");
    for (size_t i = 0; i < x.size(); i++) sym::check(x[i] == y[i], "the layout of the arrays changes the file");
    for (size_t s = 0; s < (size_t)rows; s += per) {
        size_t n = std::min(per, rows - s);
        std::vector<ConstStridedData> part;
        for (auto& d : a.sd) part.push_back(d.slice(s, n));
        Mem m;
        encode(m, a.cols, part, {{"k", "v"}, {"other", ""}}, sym::flag() ? 10000 : n);
        z.insert(z.end(), m.d->begin(), m.d->end());
    }
    sym::check(x.size() == z.size(), "row-limited encoding differs from encoding the rows one part after the other");
    for (size_t i = 0; i < x.size(); i++) sym::check(x[i] == z[i], "row-limited encoding differs from encoding the rows one part after the other");
    sym::reach("done");
}
// requests that make no sense are refused, and nothing is written
SYM_CASE(refused) {
    int kind = sym::choice(0, 6);
    Arr a(3, 2);
    int how[3] = {sym::choice(0, 1), 0, 3};
    a.lay(how);
    for (auto& d : a.sd) d = ConstStridedData(d.get(0), 2, d.dataSize(), d.stride());
    size_t per = sym::choice(1, 3);
    int c = sym::choice(0, 2);
    ConstStridedData& d = a.sd[c];
    if (kind == 0) { int n = sym::choice(0, 2); d = ConstStridedData(d.get(0), n == 2 ? 3 : n, d.dataSize(), d.stride()); }   // other number of rows
    if (kind == 1) a.sd.pop_back();                                                                       // fewer arrays than columns
    if (kind == 2) a.cols.pop_back();
    if (kind == 3) a.sd.clear(), a.cols.clear();
    if (kind == 4) { sym::assume(c != 2); a.cols[2].name = a.cols[c].name; }
    if (kind == 5) { size_t z = sym::choice(1, 15); sym::assume(z < d.dataSize()); d = ConstStridedData(d.get(0), 2, z, d.stride()); }   // elements smaller than the values
    if (kind == 6) { per = 0; }
    if (kind == 5 && sym::flag()) { size_t z = sym::choice(1, 31); sym::assume(z % 8); d = ConstStridedData(d.get(0), 2, 32, d.stride()); a.cols[c].decodedSize = z; }
    Mem m;
    m.failWriteAt = kind == 6 ? 20000 : -1;        // an encoder that writes for ever ends there
    bool threw = false;
    try { encode(m, a.cols, a.sd, {}, per); } catch (std::exception&) { threw = true; }
    sym::check(threw, "an encode request that makes no sense was accepted");
    sym::check(m.d->empty(), "a refused encode wrote data");
    sym::reach("done");
}
// elements described wider than their values: only the values count
SYM_CASE(wider) {
    Arr a(3, 1);
    int how[3] = {1, 1, 1};
    a.lay(how);
    for (auto& d : a.sd) d = ConstStridedData(d.get(0), 3, sym::flag() ? 16 : 8, 16);
    size_t per = sym::choice(1, 4);
    a.expect(enc(a, per), per);
    sym::reach("done");
}
