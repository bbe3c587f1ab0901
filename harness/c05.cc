// C05: decoding any selection of columns, in any order, into any layout, writes exactly the requested cells.
#include "enc.h"
#include "odbfile.h"
using namespace hs;
using namespace odc::api;

// Frame with six columns, three rows, changing markers; cell model computed alongside
struct Model {
    FFrame f;
    static const int N = 6, R = 3;
    std::vector<uint64_t> cell[N];             // one or (strings) two words per row
    size_t w[N];
    explicit Model(bool swap) : f(swap) {
        f.rows = R;
        FCol s = fcol("name@hdr", T_STRING, "int8_string"); s.strings = {"x", "0123456789"};
        FCol b = fcol("flags@body", T_BITFIELD, "int8", 0, 255); b.bfNames = {"p", "q"}; b.bfSizes = {3, 5};
        f.cols = {fcol("seqno@hdr", T_INT, "int32"), s, fcol("lat@hdr", T_REAL, "short_real2", 0, 0, -9), b,
                  fcol("obsvalue@body", T_DOUBLE, "long_real", 0, 0, -9), fcol("k@body", T_INT, "constant", 5, 5, -9)};
        for (int c = 0; c < N; c++) w[c] = c == 1 ? 2 : 1;
        static const int mk[R] = {0, 3, 1};
        for (int r = 0; r < R; r++) {
            f.data.marker(mk[r]);
            for (int c = 0; c < N; c++) {
                if (c < mk[r]) { for (size_t k = 0; k < w[c]; k++) cell[c].push_back(cell[c][cell[c].size() - w[c]]); continue; }
                if (c == 0) { int32_t v = sym::any<int16_t>(); f.data.i32(v); cell[c].push_back(bits((double)v)); }
                if (c == 1) { uint8_t v = sym::any<uint8_t>() & 1; f.data.u8(v); char t[16] = {0}; if (v) memcpy(t, "0123456789", 10); else t[0] = 'x';
                              uint64_t u[2]; memcpy(u, t, 16); cell[c].push_back(u[0]); cell[c].push_back(u[1]); }
                if (c == 2) { float v = (float)r + 0.25f; f.data.f32(v); cell[c].push_back(bits(v)); }
                if (c == 3) { uint8_t v = sym::any<uint8_t>(); f.data.u8(v); cell[c].push_back(bits((double)v)); }
                if (c == 4) { double v = r * 3.5; f.data.f64(v); cell[c].push_back(bits(v)); }
                if (c == 5) cell[c].push_back(bits(5.0));
            }
        }
    }
};

// n distinct columns chosen in any order, each named fully or without the table name, each with its own stride;
// `extra` rows beyond the frame
static void select(int n, bool swap, bool threads) {
    Model md(swap);
    bool used[Model::N] = {false};
    std::vector<int> col; std::vector<std::string> nm;
    for (int i = 0; i < n; i++) {
        int c = sym::choice(0, Model::N - 1);
        sym::assume(!used[c]);
        used[c] = true;
        col.push_back(c);
        std::string s = md.f.cols[c].name;
        nm.push_back(sym::flag() ? s : s.substr(0, s.find('@')));
    }
    int gap = n <= 2 ? sym::choice(0, 2) : 1, extra = n <= 2 ? sym::choice(0, 1) : 0;      // words between cells
    const uint64_t P = Dec::POISON;
    std::vector<std::vector<uint64_t>> buf(n);
    std::vector<StridedData> sd;
    for (int i = 0; i < n; i++) {
        size_t w = md.w[col[i]], stride = w + gap;
        buf[i].assign(1 + stride * (Model::R + extra) + 1, P);
        sd.emplace_back(buf[i].data() + 1, Model::R + extra, 8 * w, 8 * stride);
    }
    Mem m(md.f.bytes());
    m.openForRead();
    Reader rd(m);
    Frame fr = rd.next();
    Decoder(nm, sd).decode(fr, threads ? 4 : 1);
    for (int i = 0; i < n; i++) {
        size_t w = md.w[col[i]], stride = w + gap;
        sym::check(buf[i][0] == P, "decode wrote before the buffer");
        for (size_t k = 0; k < buf[i].size() - 1; k++) {
            size_t r = k / stride, o = k % stride;
            if (r < (size_t)Model::R && o < w) sym::check(buf[i][1 + k] == md.cell[col[i]][r * w + o], "requested cell has the wrong value");
            else sym::check(buf[i][1 + k] == P, "decode wrote outside the requested cells");
        }
    }
    sym::reach("done");
}
SYM_CASE(one) { bool s = sym::flag(); select(1, s, false); }
SYM_CASE(two) { select(2, false, true); }
SYM_CASE(three) { select(3, true, false); }
SYM_CASE(none) { select(0, false, false); }

// all columns in a row-major buffer: strides are the row size
SYM_CASE(rowmajor) {
    Model md(false);
    size_t row = 0, off[Model::N];
    std::vector<std::string> nm;
    for (int c = 0; c < Model::N; c++) { off[c] = row; row += md.w[c]; nm.push_back(md.f.cols[c].name); }
    size_t pad = sym::choice(0, 1);
    row += pad;
    std::vector<uint64_t> buf(row * Model::R, Dec::POISON);
    std::vector<StridedData> sd;
    for (int c = 0; c < Model::N; c++) sd.emplace_back(buf.data() + off[c], Model::R, 8 * md.w[c], 8 * row);
    Mem m(md.f.bytes());
    m.openForRead();
    Reader rd(m);
    Decoder(nm, sd).decode(rd.next());
    for (int r = 0; r < Model::R; r++) {
        for (int c = 0; c < Model::N; c++)
            for (size_t k = 0; k < md.w[c]; k++) sym::check(buf[r * row + off[c] + k] == md.cell[c][r * md.w[c] + k], "row-major cell has the wrong value");
        if (pad) sym::check(buf[r * row + row - 1] == Dec::POISON, "decode wrote outside the requested cells");
    }
    sym::reach("done");
}
// requests that cannot be satisfied are refused, and nothing outside the targets is touched
SYM_CASE(refused) {
    Model md(false);
    int kind = sym::choice(0, 3);
    std::vector<std::string> nm = {"lat@hdr", "seqno"};
    size_t rows[2] = {Model::R, Model::R};
    char nb[3]; sym::bytes(nb, 3);
    switch (kind) {
        case 0: {   // a name that is not a column
            std::string s(nb, strnlen(nb, 3));
            sym::assume(s != "lat" && s != "k");
            nm[1] = s; break;
        }
        case 1: nm[1] = sym::flag() ? "lat" : "lat@hdr"; break;     // the same column twice
        case 2: { int w = sym::choice(0, 1); rows[w] = sym::choice(0, Model::R - 1); rows[1 - w] += sym::choice(0, 1); break; }   // too few rows in one target
        case 3: nm[1] = std::string("lat@") + nb[0]; break;          // wrong table
    }
    const uint64_t P = Dec::POISON;
    std::vector<std::vector<uint64_t>> buf(2, std::vector<uint64_t>(Model::R + 2, P));
    std::vector<StridedData> sd;
    for (int k = 0; k < 2; k++) sd.emplace_back(buf[k].data() + 1, rows[k], 8, 8);
    Mem m(md.f.bytes());
    m.openForRead();
    Reader rd(m);
    Frame fr = rd.next();
    bool threw = false;
    try { Decoder(nm, sd).decode(fr); } catch (std::exception&) { threw = true; }
    sym::check(threw, "a decode request that cannot be satisfied was accepted");
    for (int k = 0; k < 2; k++) { auto& b = buf[k]; for (size_t i = 0; i < b.size(); i++) if (i == 0 || i > rows[k]) sym::check(b[i] == P, "a refused decode wrote outside the targets"); }
    sym::reach("done");
}
// Decoder::slice addresses the given rows of the targets
SYM_CASE(slice) {
    Model md(false);
    const uint64_t P = Dec::POISON;
    int off = sym::choice(0, 2), gap = sym::choice(0, 1);
    size_t w0 = 2 + gap, w1 = 1 + gap;
    std::vector<uint64_t> a(w0 * 5, P), b(w1 * 5, P);
    std::vector<StridedData> sd;
    sd.emplace_back(a.data(), 5, 16, 8 * w0);
    sd.emplace_back(b.data(), 5, 8, 8 * w1);
    Mem m(md.f.bytes());
    m.openForRead();
    Reader rd(m);
    Frame fr = rd.next();
    Decoder d({"name", "flags@body"}, sd);
    Decoder s = d.slice(off, Model::R);
    s.decode(fr);
    for (int r = 0; r < 5; r++) {
        bool in = r >= off && r < off + Model::R;
        for (size_t k = 0; k < w0; k++) sym::check(a[r * w0 + k] == (in && k < 2 ? md.cell[1][(r - off) * 2 + k] : P), "sliced string target");
        for (size_t k = 0; k < w1; k++) sym::check(b[r * w1 + k] == (in && k < 1 ? md.cell[3][r - off] : P), "sliced bitfield target");
    }
    sym::reach("done");
}
