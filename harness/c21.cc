// C21: decoding through the C interface, into any arrangement of arrays, of one frame or several.
#include "enc.h"
#include "odbfile.h"
#include "odc/api/odc.h"
using namespace hs;

static const uint64_t P = Dec::POISON;
#define OK(x) sym::check((x) == ODC_SUCCESS, "a documented use of the C interface failed: " #x)

// the bytes of a file, delivered through the stream callback
struct Src { std::vector<char> b; size_t pos = 0; };
static long rd(void* c, void* p, long n) {
    Src* s = (Src*)c;
    if (n > (long)(s->b.size() - s->pos)) n = s->b.size() - s->pos;
    memcpy(p, s->b.data() + s->pos, n);
    s->pos += n;
    return n;
}
static int handled;
static void onError(void* c, int code) { handled += (c == &handled && code == ODC_ERROR_GENERAL_EXCEPTION) ? 1 : 100; }

// columns: integer, string of sw words, double, constant bitfield
struct Model {
    FFrame f;
    static const int N = 4;
    size_t w[N];
    std::vector<uint64_t> cell[N];
    const char* name[N] = {"id@hdr", "name@hdr", "val@body", "fl@body"};
    Model(int rows, size_t sw, bool strings = true) : f(false) {
        f.rows = rows;
        const char* longest = sw == 1 ? "abcdefgh" : sw == 2 ? "0123456789abc" : "0123456789abcdefghij";
        FCol s = fcol(name[1], T_STRING, "int8_string"); s.strings = {"x", longest};
        FCol b = fcol(name[3], T_BITFIELD, "constant", 6, 6); b.bfNames = {"p", "q"}; b.bfSizes = {3, 5};
        f.cols = {fcol(name[0], T_INT, "int16", 100), s, fcol(name[2], T_DOUBLE, "long_real", 0, 0, -9), b};
        for (int c = 0; c < N; c++) w[c] = c == 1 ? sw : 1;
        for (int r = 0; r < rows; r++) {
            f.data.marker(r % 3 == 2 ? 1 : 0);
            if (r % 3 == 2) cell[0].push_back(cell[0].back());
            else { uint16_t v = sym::any<uint16_t>(); f.data.u16(v); cell[0].push_back(bits(100.0 + v)); }
            uint8_t i = strings ? sym::any<uint8_t>() & 1 : r & 1;
            f.data.u8(i);
            char t[24] = {0};
            if (i) memcpy(t, longest, strlen(longest)); else t[0] = 'x';
            for (size_t k = 0; k < sw; k++) { uint64_t u; memcpy(&u, t + 8 * k, 8); cell[1].push_back(u); }
            double d = r * 1.5 + sw; f.data.f64(d); cell[2].push_back(bits(d));
            cell[3].push_back(bits(6.0));
        }
    }
    uint64_t at(int c, size_t r, size_t k) { return cell[c][r * w[c] + k]; }
};

struct File {
    Src src;
    odc_reader_t* reader = nullptr;
    odc_frame_t* frame = nullptr;
    explicit File(std::vector<Model*> ms) {
        for (auto* m : ms) { auto b = m->f.bytes(); src.b.insert(src.b.end(), b.begin(), b.end()); }
        OK(odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES));
        OK(odc_set_failure_handler(onError, &handled));
        handled = 0;
        OK(odc_open_stream(&reader, &src, rd));
        OK(odc_new_frame(&frame, reader));
        OK(odc_next_frame(frame));
    }
    ~File() { odc_free_frame(frame); odc_close(reader); }
};

// the value of column c, row r, word k in an arrangement of the documented kind
struct Where { uint64_t* base; size_t stride; size_t wordStep; };      // in words
static Where place(const odc_decoder_t* d, int col, size_t height, bool transposed) {
    int es, st; const void* p;
    OK(odc_decoder_column_data_array(d, col, &es, &st, &p));
    sym::check(p != nullptr && st % 8 == 0 && st > 0, "a decoded column has no data or a bad stride");
    Where w{(uint64_t*)p, (size_t)st / 8, 1};
    if (transposed) { w.stride = 1; w.wordStep = height; }
    return w;
}
static void same(Model& m, int c, const Where& w, size_t rows) {
    for (size_t r = 0; r < rows; r++)
        for (size_t k = 0; k < m.w[c]; k++) sym::check(w.base[r * w.stride + k * w.wordStep] == m.at(c, r, k), "decoded cell has the wrong value");
}

// everything in the frame, into memory the decoder allocates
static void defaults(bool major, size_t sw) {
    Model m(3, sw);
    File f({&m});
    int extra = sym::choice(0, 2);
    odc_decoder_t* d;
    OK(odc_new_decoder(&d));
    OK(odc_decoder_defaults_from_frame(d, f.frame));
    OK(odc_decoder_set_column_major(d, major));
    if (extra) OK(odc_decoder_set_row_count(d, 3 + extra));
    if (sym::flag()) OK(odc_decoder_column_set_data_size(d, 1, 8 * sw));
    int nc; long rows = 0, width, height; bool cm; const void* p;
    OK(odc_decoder_column_count(d, &nc));
    sym::check(nc == Model::N, "column count of the default decoder");
    OK(odc_decode(d, f.frame, &rows));
    sym::check(rows == 3, "number of rows decoded");
    OK(odc_decoder_data_array(d, &p, &width, &height, &cm));
    sym::check(height == 3 + extra && width == (long)(8 * (3 + sw)) && cm == major, "shape of the decoded array");
    long rc;
    OK(odc_decoder_row_count(d, &rc));
    sym::check(rc == 3 + extra, "row count of the decoder");
    size_t off = 0;
    for (int c = 0; c < Model::N; c++) {
        Where w = place(d, c, height, major && m.w[c] > 1);
        sym::check((char*)w.base == (char*)p + off, "position of a column in the decoded array");
        off += major ? 8 * m.w[c] * height : 8 * m.w[c];
        same(m, c, w, 3);
    }
    OK(odc_free_decoder(d));
    sym::check(handled == 0, "failure handler called without a failure");
    sym::reach("done");
}
SYM_CASE(defaults_row) { defaults(false, sym::choice(1, 2)); }
SYM_CASE(defaults_col) { defaults(true, sym::choice(1, 3)); }

// some columns, in any order, into an array of the caller with room to spare
static void array(bool major) {
    Model m(3, 2, false);
    File f({&m});
    odc_decoder_t* d;
    OK(odc_new_decoder(&d));
    std::vector<int> col;
    std::vector<size_t> sz;
    int n = sym::choice(1, 3);
    bool used[Model::N] = {false};
    size_t need = 0;
    for (int i = 0; i < n; i++) {
        int c = sym::choice(0, Model::N - 1);
        sym::assume(!used[c]);
        used[c] = true;
        OK(odc_decoder_add_column(d, m.name[c]));
        size_t s = m.w[c];
        if (sym::flag()) {
            s += c == 1 ? sym::choice(0, 1) : 0;
            OK(odc_decoder_column_set_data_size(d, i, 8 * s));
        }
        col.push_back(c);
        sz.push_back(s);
        need += s;
    }
    int dw = sym::choice(0, 1), dh = sym::choice(0, 2);
    long width = need + dw, height = 3 + dh;
    std::vector<uint64_t> a(width * height + 2, P);
    OK(odc_decoder_set_data_array(d, a.data() + 1, 8 * width, height, major));
    if (sym::flag()) OK(odc_decoder_set_row_count(d, 3 + (dh ? sym::choice(0, dh) : 0)));
    OK(odc_decode(d, f.frame, nullptr));
    std::vector<char> mine(a.size(), 0);
    size_t off = 1;
    for (int i = 0; i < n; i++) {
        bool t = major && sz[i] > 1;
        Where w = place(d, i, height, t);
        sym::check(w.base == &a[off], "position of a column in the array of the caller");
        sym::check(t || w.stride == (major ? sz[i] : width), "stride of a column in the array of the caller");
        same(m, col[i], w, 3);
        for (int r = 0; r < 3; r++)
            for (size_t k = 0; k < sz[i]; k++) mine[off + r * w.stride + k * w.wordStep] = 1;
        off += major ? sz[i] * height : sz[i];
    }
    for (size_t i = 0; i < a.size(); i++) if (!mine[i]) sym::check(a[i] == P, "decode wrote outside the requested cells");
    OK(odc_free_decoder(d));
    sym::reach("done");
}
SYM_CASE(array_row) { array(false); }
SYM_CASE(array_col) { array(true); }

// arrays for some of the columns supplied by the caller, the others in memory of the decoder
SYM_CASE(columns) {
    Model m(3, 2);
    File f({&m});
    odc_decoder_t* d;
    OK(odc_new_decoder(&d));
    bool major = sym::flag(), own[Model::N];
    size_t stride[Model::N];
    std::vector<std::vector<uint64_t>> buf(Model::N);
    if (sym::flag()) OK(odc_decoder_defaults_from_frame(d, f.frame));
    else for (int c = 0; c < Model::N; c++) OK(odc_decoder_add_column(d, m.name[c]));
    OK(odc_decoder_set_column_major(d, major));
    OK(odc_decoder_set_row_count(d, 4));
    for (int c = 0; c < Model::N; c++) {
        own[c] = sym::flag();
        stride[c] = m.w[c];
        if (!own[c]) continue;
        int how = sym::choice(0, 2);          // dense by default, dense, with gaps
        if (how == 2) stride[c]++;
        buf[c].assign(stride[c] * 4 + 2, P);
        OK(odc_decoder_column_set_data_array(d, c, c == 1 || sym::flag() ? 8 * m.w[c] : 0, how ? 8 * stride[c] : 0, buf[c].data() + 1));
    }
    long rows;
    OK(odc_decode(d, f.frame, &rows));
    sym::check(rows == 3, "number of rows decoded");
    for (int c = 0; c < Model::N; c++) {
        Where w = place(d, c, 4, major && !own[c] && m.w[c] > 1);
        same(m, c, w, 3);
        if (!own[c]) continue;
        sym::check(w.base == buf[c].data() + 1 && w.stride == stride[c], "array of the caller not used for its column");
        for (size_t i = 0; i < buf[c].size(); i++) {
            size_t k = i - 1;
            if (i == 0 || k / stride[c] >= 3 || k % stride[c] >= m.w[c]) sym::check(buf[c][i] == P, "decode wrote outside the requested cells");
        }
    }
    OK(odc_free_decoder(d));
    sym::reach("done");
}
// one decoder for the columns that consecutive, different frames have in common
SYM_CASE(reuse) {
    int r1 = sym::choice(0, 3), r2 = sym::choice(1, 3);
    size_t w1 = sym::choice(1, 2), w2 = sym::choice(1, 2);
    Model a(r1, w1), b(r2, w2);
    bool major = sym::flag();
    int mode = sym::choice(0, 2);             // row count set once / per frame / array of the caller per frame
    File f({&a, &b});
    odc_decoder_t* d;
    OK(odc_new_decoder(&d));
    OK(odc_decoder_add_column(d, "name@hdr"));
    OK(odc_decoder_add_column(d, "id@hdr"));
    OK(odc_decoder_set_column_major(d, major));
    if (mode == 0) OK(odc_decoder_set_row_count(d, 3));
    std::vector<std::vector<uint64_t>> arr(2);
    for (int i = 0; i < 2; i++) {
        Model& m = i ? b : a;
        int nr = m.f.rows;
        if (i && sym::flag()) { major = !major; OK(odc_decoder_set_column_major(d, major)); }      // the layout may change, too
        if (i) OK(odc_next_frame(f.frame));
        long height = mode == 0 ? 3 : nr;
        if (mode == 1) OK(odc_decoder_set_row_count(d, nr));
        if (mode == 2) {
            height = std::max(nr, 1);
            arr[i].assign((m.w[1] + 1) * height + 2, P);
            OK(odc_decoder_set_data_array(d, arr[i].data() + 1, 8 * (m.w[1] + 1), height, major));
        }
        long rows = -1;
        OK(odc_decode(d, f.frame, &rows));
        sym::check(rows == nr, "number of rows decoded");
        if (nr) {
            same(m, 1, place(d, 0, height, major && m.w[1] > 1), nr);
            same(m, 0, place(d, 1, height, false), nr);
        }
        if (mode == 2) sym::check(arr[i].front() == P && arr[i].back() == P, "decode wrote outside the array");
    }
    if (mode == 2) for (size_t k = 0; k < (w1 + 1) * std::max(r1, 1); k++) if (!r1) sym::check(arr[0][k] == P, "an array given up was written");
    sym::check(odc_next_frame(f.frame) == ODC_ITERATION_COMPLETE, "end of the file not reported");
    OK(odc_free_decoder(d));
    sym::reach("done");
}
// what cannot be decoded is refused with an error code, the handler is told once, nothing outside the targets is
// written, and the objects can be used again
SYM_CASE(refused) {
    Model m(3, 2);
    File f({&m});
    odc_decoder_t* d;
    OK(odc_new_decoder(&d));
    OK(odc_decoder_add_column(d, "name@hdr"));
    int kind = sym::choice(0, 7);
    bool major = sym::flag();
    long width = 4, height = 3;
    if (kind == 0) height = sym::choice(1, 2);                       // too few rows
    if (kind == 1) width = sym::choice(1, 2);                        // too narrow (with id@hdr)
    if (kind == 6) width = 1;                                        // too narrow
    std::vector<uint64_t> a(width * height + 2, P), c(6 + 2, P);
    if (kind != 3) OK(odc_decoder_set_data_array(d, a.data() + 1, 8 * width, height, major));
    if (kind == 1) OK(odc_decoder_add_column(d, "id@hdr"));
    if (kind == 2) OK(odc_decoder_add_column(d, sym::flag() ? "nosuch" : "id@body"));
    if (kind == 3) ;                                                 // no number of rows
    if (kind == 4) { OK(odc_decoder_column_set_data_size(d, 0, 8)); }    // elements too small for the strings
    if (kind == 5) { OK(odc_decoder_column_set_data_array(d, 0, sym::flag() ? 8 : 0, 16, c.data() + 1)); }
    if (kind == 7) OK(odc_decoder_set_row_count(d, sym::choice(4, 6)));  // more rows than the array has
    sym::check(handled == 0, "failure handler called without a failure");
    long rows = -7;
    int rc = odc_decode(d, f.frame, &rows);
    sym::check(rc == ODC_ERROR_GENERAL_EXCEPTION, "a decode request that cannot be satisfied was accepted");
    sym::check(handled == 1 && rows == -7, "a refused decode is not reported once");
    sym::check(odc_error_string(rc) != nullptr && odc_error_string(rc)[0], "no error message");
    sym::check(a.front() == P && a.back() == P && c.front() == P && c.back() == P, "a refused decode wrote outside the targets");
    odc_decoder_t* e;
    OK(odc_new_decoder(&e));
    OK(odc_decoder_defaults_from_frame(e, f.frame));
    OK(odc_decode(e, f.frame, &rows));
    for (int k = 0; k < Model::N; k++) same(m, k, place(e, k, 3, false), 3);
    // misuse of the setters
    sym::check(odc_decoder_column_set_data_size(e, 4, 8) != 0 && odc_decoder_column_set_data_size(e, -1, 8) != 0, "column index not checked");
    sym::check(odc_decoder_column_set_data_array(e, 4, 8, 8, c.data()) != 0 && odc_decoder_column_data_array(e, 4, nullptr, nullptr, nullptr) != 0, "column index not checked");
    sym::check(odc_decoder_set_data_array(e, nullptr, 8, 8, false) != 0 && odc_decoder_set_data_array(e, c.data(), 0, 8, false) != 0, "array not checked");
    sym::check(handled == 7, "failure handler not called for every failure");
    OK(odc_free_decoder(d));
    OK(odc_free_decoder(e));
    sym::reach("done");
}
// a logical frame made of several
SYM_CASE(aggregated) {
    Model a(2, 2), b(1, 2, false), c(3, 2, false);
    Src s;
    for (auto* m : {&a, &b, &c}) { auto x = m->f.bytes(); s.b.insert(s.b.end(), x.begin(), x.end()); }
    OK(odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES));
    odc_reader_t* r; odc_frame_t* f;
    OK(odc_open_buffer(&r, s.b.data(), s.b.size()));
    OK(odc_new_frame(&f, r));
    int limit = sym::choice(3, 7);
    bool major = sym::flag();
    Model* ms[3] = {&a, &b, &c};
    int i = 0;
    while (true) {
        int rc = odc_next_frame_aggregated(f, limit == 7 ? -1 : limit);
        if (rc == ODC_ITERATION_COMPLETE) break;
        OK(rc);
        int j = i, want = 0;
        while (j < 3 && (limit == 7 || want + ms[j]->f.rows <= limit)) want += ms[j++]->f.rows;
        long rows; OK(odc_frame_row_count(f, &rows));
        sym::check(rows == want, "rows of a logical frame");
        odc_decoder_t* d;
        OK(odc_new_decoder(&d));
        OK(odc_decoder_defaults_from_frame(d, f));
        OK(odc_decoder_set_column_major(d, major));
        OK(odc_decode(d, f, &rows));
        sym::check(rows == want, "rows decoded from a logical frame");
        size_t row = 0;
        for (; i < j; i++) {
            for (int col = 0; col < Model::N; col++) {
                Where w = place(d, col, want, major && ms[i]->w[col] > 1);
                w.base += row * w.stride;
                same(*ms[i], col, w, ms[i]->f.rows);
            }
            row += ms[i]->f.rows;
        }
        OK(odc_free_decoder(d));
    }
    sym::check(i == 3, "frames left out");
    OK(odc_free_frame(f));
    OK(odc_close(r));
    sym::reach("done");
}
