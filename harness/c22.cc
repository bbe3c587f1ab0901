// C22: encoding through the C interface, from any arrangement of arrays.
#include "enc.h"
#include "odc/api/odc.h"
using namespace hs;

#define OK(x) sym::check((x) == ODC_SUCCESS, "a documented use of the C interface failed: " #x)
static const uint64_t P = Dec::POISON;

struct Sink { std::vector<char> b; };
static long wr(void* c, const void* p, long n) { auto& b = ((Sink*)c)->b; b.insert(b.end(), (const char*)p, (const char*)p + n); return n; }
static int handled;
static void onError(void* c, int code) { handled += (c == &handled && code == ODC_ERROR_GENERAL_EXCEPTION) ? 1 : 100; }
static void begin() {
    OK(odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES));
    OK(odc_set_failure_handler(onError, &handled));
    handled = 0;
}

// a table: integer, string of sw words, double
struct T {
    static const int N = 3;
    int rows; size_t w[N];
    std::vector<uint64_t> cell[N];
    const char* name[N] = {"id@hdr", "name@hdr", "val@body"};
    int type[N] = {ODC_INTEGER, ODC_STRING, ODC_REAL};
    T(int n, size_t sw, bool symbolic = true) : rows(n) {
        for (int c = 0; c < N; c++) w[c] = c == 1 ? sw : 1;
        for (int r = 0; r < n; r++) {
            cell[0].push_back(bits(!symbolic || (r && r < n - 1) ? r : (double)sym::any<int8_t>()));
            char t[24] = {0};
            t[0] = symbolic && r == n - 1 && sym::flag() ? 'x' : 'y';
            if (r & 1) for (size_t k = 1; k < 8 * sw; k++) t[k] = 'a' + k;     // fills the element, no terminator
            for (size_t k = 0; k < sw; k++) { uint64_t u; memcpy(&u, t + 8 * k, 8); cell[1].push_back(u); }
            cell[2].push_back(bits(r * 0.5 - 1));
        }
    }
    size_t total() const { size_t n = 0; for (int c = 0; c < N; c++) n += w[c]; return n; }
    void columns(odc_encoder_t* e) {
        for (int c = 0; c < N; c++) {
            OK(odc_encoder_add_column(e, name[c], type[c]));
            if (w[c] > 1) OK(odc_encoder_column_set_data_size(e, c, 8 * w[c]));
        }
    }
    // row-major / column-major image with spare columns and rows
    std::vector<uint64_t> image(bool major, size_t width, size_t height) {
        std::vector<uint64_t> a(width * height, P);
        size_t off = 0;
        for (int c = 0; c < N; c++) {
            for (int r = 0; r < rows; r++)
                for (size_t k = 0; k < w[c]; k++) a[major ? (off + k) * height + r : r * width + off + k] = cell[c][r * w[c] + k];
            off += w[c];
        }
        return a;
    }
    // the file holds rows [first, last) of the table in frames of at most perFrame rows
    void expect(const std::vector<char>& file, int last, int perFrame, const std::map<std::string, std::string>& props = {}) {
        Mem m(file);
        m.openForRead();
        odc::api::Reader rd(m, false);
        int row = 0;
        while (true) {
            odc::api::Frame f = rd.next();
            if (!f) break;
            int n = f.rowCount();
            sym::check(n == std::min(perFrame, last - row), "rows per frame");
            auto have = f.properties();
            have.erase("encoder");
            sym::check(have == props, "properties of a frame");
            sym::check(f.columnInfo().size() == N, "number of columns");
            for (int c = 0; c < N; c++) sym::check(f.columnInfo()[c].name == name[c] && f.columnInfo()[c].type == type[c] && (f.columnInfo()[c].decodedSize == 8 * w[c] || (type[c] == ODC_STRING && f.columnInfo()[c].decodedSize == 8)), "description of a column");
            Dec d(f, {name[0], name[1], name[2]});
            for (int c = 0; c < N; c++)
                for (int r = 0; r < n; r++)
                    for (size_t k = 0; k < w[c]; k++) sym::check((k < d.w[c] ? d.v[c][r * d.w[c] + k] : 0) == cell[c][(row + r) * w[c] + k], "encoded cell has the wrong value");
            row += n;
        }
        sym::check(row == last, "number of rows encoded");
    }
};

static void array(bool major) {
    begin();
    int rows = sym::choice(1, 3);
    T t(rows, sym::choice(1, 3));
    odc_encoder_t* e;
    OK(odc_new_encoder(&e));
    t.columns(e);
    int dw = major ? 0 : sym::choice(0, 1), dh = sym::choice(0, 1), n = rows;
    if (dh || sym::flag()) { n = sym::choice(1, rows); OK(odc_encoder_set_row_count(e, n)); }
    int per = 10000;
    if (sym::flag()) { per = sym::choice(1, 2); OK(odc_encoder_set_rows_per_frame(e, per)); }
    auto a = t.image(major, t.total() + dw, rows + dh);
    OK(odc_encoder_set_data_array(e, a.data(), 8 * (t.total() + dw), rows + dh, major ? 8 : 0));
    Sink s; long bytes = -1;
    OK(odc_encode_to_stream(e, &s, wr, &bytes));
    sym::check(bytes == (long)s.b.size(), "number of bytes encoded");
    OK(odc_free_encoder(e));
    t.expect(s.b, n, per);
    sym::check(handled == 0, "failure handler called without a failure");
    sym::reach("done");
}
SYM_CASE(array_row) { array(false); }
SYM_CASE(array_col) { array(true); }
// column-major data whose unit is wider than 8 bytes
SYM_CASE(units) {
    begin();
    int rows = sym::choice(1, 3), unit = sym::choice(1, 3), wa = sym::choice(1, 4), wb = sym::choice(1, 4);
    odc_encoder_t* e;
    OK(odc_new_encoder(&e));
    OK(odc_encoder_add_column(e, "a", ODC_STRING));
    OK(odc_encoder_add_column(e, "b", ODC_STRING));
    OK(odc_encoder_column_set_data_size(e, 0, 8 * wa));
    OK(odc_encoder_column_set_data_size(e, 1, 8 * wb));
    std::vector<char> a(8 * (wa + wb) * rows);
    auto val = [&](int c, int r, int i) { return char('A' + (c * 7 + r * 13 + i * 5) % 57); };
    size_t off = 0;
    for (int c = 0; c < 2; c++) {
        int w = c ? wb : wa;
        for (int r = 0; r < rows; r++)
            for (int i = 0; i < 8 * w; i++) {
                size_t u = i / (8 * unit), o = i % (8 * unit), at = off + (u * rows + r) * 8 * unit + o;
                if (at < a.size()) a[at] = val(c, r, i);
            }
        off += 8 * w * rows;
    }
    int x = sym::choice(0, rows - 1);
    sym::assume((size_t)(8 * unit * x) < a.size());
    char& probe = a[8 * unit * x];
    probe = sym::any<int8_t>() & 1 ? 'q' : 'r';
    char want = probe;
    OK(odc_encoder_set_data_array(e, a.data(), 8 * (wa + wb), rows, 8 * unit));
    Sink s;
    int rc = odc_encode_to_stream(e, &s, wr, nullptr);
    bool fits = wa % unit == 0 && wb % unit == 0;
    sym::check((rc == 0) == fits, "units that do (not) divide the columns were refused (accepted)");
    if (fits) {
        Mem m(s.b);
        m.openForRead();
        odc::api::Reader rd(m, false);
        odc::api::Frame f = rd.next();
        sym::check(f.rowCount() == (size_t)rows, "number of rows encoded");
        Dec d(f, {"a", "b"});
        for (int c = 0; c < 2; c++)
            for (int r = 0; r < rows; r++)
                for (int i = 0; i < 8 * (c ? wb : wa); i++)
                    sym::check(((char*)&d.v[c][r * d.w[c]])[i] == (c == 0 && r == x && i == 0 ? want : val(c, r, i)), "encoded cell has the wrong value");
    }
    OK(odc_free_encoder(e));
    sym::reach("done");
}
// an array per column
SYM_CASE(columns) {
    begin();
    int rows = sym::choice(1, 3);
    T t(rows, sym::choice(1, 2));
    odc_encoder_t* e;
    OK(odc_new_encoder(&e));
    std::vector<uint64_t> buf[T::N];
    for (int c = 0; c < T::N; c++) {
        OK(odc_encoder_add_column(e, t.name[c], t.type[c]));
        int how = sym::choice(0, 2);
        size_t stride = t.w[c] + (how == 2);
        buf[c].assign(stride * rows, P);
        for (int r = 0; r < rows; r++) for (size_t k = 0; k < t.w[c]; k++) buf[c][r * stride + k] = t.cell[c][r * t.w[c] + k];
        OK(odc_encoder_column_set_data_array(e, c, t.w[c] == 1 && sym::flag() ? 0 : 8 * t.w[c], how ? 8 * stride : 0, buf[c].data()));
    }
    int n = sym::choice(1, rows);
    OK(odc_encoder_set_row_count(e, n));
    OK(odc_encoder_add_property(e, "key", "one"));
    OK(odc_encoder_add_property(e, "other", ""));
    OK(odc_encoder_add_property(e, "key", "two"));
    int per = sym::choice(1, 3);
    OK(odc_encoder_set_rows_per_frame(e, per));
    Sink s; long bytes = -1;
    OK(odc_encode_to_stream(e, &s, wr, &bytes));
    t.expect(s.b, n, per, {{"key", "two"}, {"other", ""}});
    // again, from the same description
    Sink s2;
    OK(odc_encode_to_stream(e, &s2, wr, &bytes));
    t.expect(s2.b, n, per, {{"key", "two"}, {"other", ""}});
    OK(odc_free_encoder(e));
    sym::reach("done");
}
// an encoder given another array encodes what is in that array
SYM_CASE(reuse) {
    begin();
    int r1 = sym::choice(1, 3), r2 = sym::choice(1, 3);
    size_t sw = sym::choice(1, 2);
    T a(r1, sw, false), b(r2, sw);
    odc_encoder_t* e;
    OK(odc_new_encoder(&e));
    a.columns(e);
    bool m1 = sym::flag(), m2 = sym::flag();
    int set1 = sym::choice(0, r1), set2 = sym::choice(0, r2);
    auto x = a.image(m1, a.total(), r1), y = b.image(m2, b.total(), r2);
    Sink s;
    if (set1) OK(odc_encoder_set_row_count(e, set1));
    OK(odc_encoder_set_data_array(e, x.data(), 8 * a.total(), r1, m1 ? 8 : 0));
    OK(odc_encode_to_stream(e, &s, wr, nullptr));
    a.expect(s.b, set1 ? set1 : r1, 10000);
    std::fill(x.begin(), x.end(), P);
    s.b.clear();
    if (set2) OK(odc_encoder_set_row_count(e, set2));
    OK(odc_encoder_set_data_array(e, y.data(), 8 * b.total(), r2, m2 ? 8 : 0));
    int rc = odc_encode_to_stream(e, &s, wr, nullptr);
    int n = set2 ? set2 : set1 ? set1 : r2;
    sym::check((rc == 0) == (n <= r2), "more rows than the array holds were accepted (or fewer refused)");
    if (rc == 0) b.expect(s.b, n, 10000);
    else sym::check(s.b.empty(), "a refused encode wrote data");
    OK(odc_free_encoder(e));
    sym::reach("done");
}
// the same memory is used again for another table, arranged another way
SYM_CASE(reuse_same) {
    begin();
    int r1 = sym::choice(1, 2), r2 = sym::choice(1, 2);
    size_t sw = sym::choice(1, 2);
    T a(r1, sw, false), b(r2, sw);
    odc_encoder_t* e;
    OK(odc_new_encoder(&e));
    a.columns(e);
    bool m1 = sym::flag(), m2 = sym::flag();
    int d1 = m1 ? 0 : sym::choice(0, 1), d2 = m2 ? 0 : sym::choice(0, 1);
    auto x = a.image(m1, a.total() + d1, r1), y = b.image(m2, b.total() + d2, r2);
    std::vector<uint64_t> mem(std::max(x.size(), y.size()), P);
    std::copy(x.begin(), x.end(), mem.begin());
    Sink s;
    OK(odc_encoder_set_row_count(e, r1));
    OK(odc_encoder_set_data_array(e, mem.data(), 8 * (a.total() + d1), r1, m1 ? 8 : 0));
    OK(odc_encode_to_stream(e, &s, wr, nullptr));
    a.expect(s.b, r1, 10000);
    std::fill(mem.begin(), mem.end(), P);
    std::copy(y.begin(), y.end(), mem.begin());
    s.b.clear();
    OK(odc_encoder_set_row_count(e, r2));
    OK(odc_encoder_set_data_array(e, mem.data(), 8 * (b.total() + d2), r2, m2 ? 8 : 0));
    OK(odc_encode_to_stream(e, &s, wr, nullptr));
    b.expect(s.b, r2, 10000);
    OK(odc_free_encoder(e));
    sym::reach("done");
}
// requests that make no sense are refused with an error code and write nothing
SYM_CASE(refused) {
    begin();
    T t(2, 2);
    odc_encoder_t* e;
    OK(odc_new_encoder(&e));
    int kind = sym::choice(0, 9), now = 0, at = 0;
    auto a = t.image(false, t.total(), 2);
    long width = 8 * t.total(), height = 2;
    if (kind != 0) t.columns(e);                                            // no columns
    if (kind == 1) OK(odc_encoder_set_row_count(e, sym::choice(3, 5)));     // more rows than the array has
    if (kind == 2) width -= 8 * sym::choice(1, 2);                          // array too narrow
    if (kind == 3) { OK(odc_encoder_set_rows_per_frame(e, 0)); }
    if (kind == 4) OK(odc_encoder_add_column(e, t.name[sym::choice(0, 2)], ODC_INTEGER)), width += 8, a.resize(a.size() + 2);   // duplicate
    if (kind == 5) { int z = sym::choice(1, 23); sym::assume(z % 8); now = odc_encoder_column_set_data_size(e, 0, z); at = 1; }
    if (kind == 6) { int z = sym::choice(-3, 3); sym::assume(z < 0 || z > 2); now = odc_encoder_column_set_data_size(e, z, 8); at = 1; }
    if (kind == 7) { int z = sym::choice(1, 23); sym::assume(z % 8); now = odc_encoder_set_data_array(e, a.data(), width, height, z); at = 1; }
    if (kind == 8) { OK(odc_encoder_column_add_bitfield(e, 0, "p", 30)); now = odc_encoder_column_add_bitfield(e, 0, "q", sym::choice(3, 40)); at = 1; }
    if (kind == 9) { OK(odc_encoder_set_row_count(e, 2)); }                  // no data
    Sink s; long bytes = -7;
    if (!at) {
        if (kind != 9) OK(odc_encoder_set_data_array(e, a.data(), width, height, 0));
        now = odc_encode_to_stream(e, &s, wr, &bytes);
        sym::check(s.b.empty() && bytes == -7, "a refused encode wrote data");
    }
    sym::check(now == ODC_ERROR_GENERAL_EXCEPTION, "a request that makes no sense was accepted");
    sym::check(handled == 1, "the failure handler was not called once");
    OK(odc_free_encoder(e));
    // others are not affected
    OK(odc_new_encoder(&e));
    t.columns(e);
    OK(odc_encoder_set_data_array(e, a.data(), 8 * t.total(), 2, 0));
    if (kind != 4) {
        OK(odc_encode_to_stream(e, &s, wr, &bytes));
        t.expect(s.b, 2, 10000);
    }
    OK(odc_free_encoder(e));
    sym::reach("done");
}
// bitfield members and missing values set through the C interface
SYM_CASE(settings) {
    begin();
    long mi = sym::any<int32_t>();
    sym::assume(mi > -1000 && mi < 1000);
    double md = -1e30;
    OK(odc_set_missing_integer(mi));
    OK(odc_set_missing_double(md));
    long gi; double gd;
    OK(odc_missing_integer(&gi));
    OK(odc_missing_double(&gd));
    sym::check(gi == mi && gd == md, "missing values reported");
    OK(odc_integer_behaviour(ODC_INTEGERS_AS_LONGS));
    sym::check(odc_integer_behaviour(5) == ODC_ERROR_GENERAL_EXCEPTION, "unknown integer behaviour accepted");
    int32_t k = sym::any<int8_t>();
    int64_t ints[3] = {k, mi, 7};
    double reals[3] = {1.5, md, 2.5};
    int64_t flags[3] = {5, 1, 0};
    odc_encoder_t* e;
    OK(odc_new_encoder(&e));
    OK(odc_encoder_add_column(e, "i", ODC_INTEGER));
    OK(odc_encoder_add_column(e, "r", ODC_DOUBLE));
    OK(odc_encoder_add_column(e, "f", ODC_BITFIELD));
    int n1 = sym::choice(1, 31), n2 = sym::choice(1, 32 - n1);
    OK(odc_encoder_column_add_bitfield(e, 2, "p", n1));
    OK(odc_encoder_column_add_bitfield(e, 2, "q", n2));
    OK(odc_encoder_set_row_count(e, 3));
    OK(odc_encoder_column_set_data_array(e, 0, 8, 8, ints));
    OK(odc_encoder_column_set_data_array(e, 1, 8, 8, reals));
    OK(odc_encoder_column_set_data_array(e, 2, 8, 8, flags));
    Sink s;
    OK(odc_encode_to_stream(e, &s, wr, nullptr));
    OK(odc_free_encoder(e));
    // whatever the settings of the reader, missing values read back as the values they were encoded with
    OK(odc_set_missing_integer(12345));
    OK(odc_set_missing_double(-5));
    Mem m(s.b);
    m.openForRead();
    odc::api::Reader rd(m, false);
    odc::api::Frame f = rd.next();
    Dec d(f, {"i", "r", "f"});
    for (int r = 0; r < 3; r++) sym::check(d.getI(0, r) == ints[r] && d.at(1, r) == bits(reals[r]) && d.getI(2, r) == flags[r], "value encoded with other missing values");
    auto& b = f.columnInfo()[2].bitfield;
    sym::check(b.size() == 2 && b[0].name == "p" && b[0].size == n1 && b[0].offset == 0 && b[1].name == "q" && b[1].size == n2 && b[1].offset == n1, "bitfield members");
    sym::reach("done");
}
