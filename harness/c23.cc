// C23: readers, streams, frames and errors of the C interface.
#include <unistd.h>
#include "enc.h"
#include "odbfile.h"
#include "odc/api/odc.h"
using namespace hs;

#define OK(x) sym::check((x) == ODC_SUCCESS, "a documented use of the C interface failed: " #x)
static int handled, lastCode;
static void onError(void* c, int code) { handled += c == &handled ? 1 : 100; lastCode = code; }
static void begin() {
    OK(odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES));
    OK(odc_set_failure_handler(onError, &handled));
    handled = 0;
}

// frame i: one int16 column and one constant, `rows` rows, one property more per frame
struct F1 {
    FFrame f;
    std::vector<double> v;
    F1(int i, int rows) : f(false) {
        f.rows = rows;
        f.cols = {fcol("a" + std::string(1, '0' + i), T_INT, "int16", 1000), fcol("c", T_DOUBLE, "constant", i, i)};
        for (int k = 0; k <= i; k++) f.props["p" + std::string(1, '0' + k)] = std::string(1, 'A' + i);
        for (int r = 0; r < rows; r++) { f.data.marker(0); uint16_t x = sym::any<uint16_t>(); f.data.u16(x); v.push_back(1000.0 + x); }
    }
    // every property of the frame, and no other
    void props(odc_frame_t* fr, bool byIndex) {
        int n; const char *k, *v;
        if (byIndex) {
            OK(odc_frame_properties_count(fr, &n));
            sym::check(n == (int)f.props.size(), "number of properties");
            for (int i = 0; i < n; i++) {
                OK(odc_frame_property_idx(fr, i, &k, &v));
                auto p = f.props.find(k);
                sym::check(p != f.props.end() && p->second == v, "property of a frame by index");
            }
        }
        else for (const char* key : {"p0", "p1", "p2"}) {
            OK(odc_frame_property(fr, key, &v));
            auto p = f.props.find(key);
            sym::check(p == f.props.end() ? v == nullptr : v && p->second == v, "property of a frame by name");
        }
    }
    void same(odc_frame_t* fr) {
        odc_decoder_t* d;
        OK(odc_new_decoder(&d));
        OK(odc_decoder_defaults_from_frame(d, fr));
        long rows;
        OK(odc_decode(d, fr, &rows));
        sym::check(rows == f.rows, "rows of the frame");
        int st; const void* p;
        OK(odc_decoder_column_data_array(d, 0, nullptr, &st, &p));
        for (int r = 0; r < rows; r++) sym::check(bits(*(const double*)((const char*)p + r * st)) == bits(v[r]), "decoded cell has the wrong value");
        OK(odc_free_decoder(d));
    }
    bool fails(odc_frame_t* fr) {
        odc_decoder_t* d;
        OK(odc_new_decoder(&d));
        int rc = odc_decoder_defaults_from_frame(d, fr);
        if (!rc) rc = odc_decode(d, fr, nullptr);
        OK(odc_free_decoder(d));
        return rc != 0;
    }
};
// a stream that delivers as little as it likes, and fails or ends where it likes
struct Src {
    std::vector<char> b; size_t pos = 0;
    long chunk = 1 << 20;
    long failAt = -1;                       // reading this byte fails
    long failWith = -1;
    int calls = 0; bool over = false;
};
static long rd(void* c, void* p, long n) {
    Src* s = (Src*)c;
    s->calls++;
    if (n > (long)(s->b.size() - s->pos)) n = s->b.size() - s->pos;
    if (n > s->chunk) n = s->chunk;
    if (s->failAt >= 0 && (long)s->pos >= s->failAt) {
        if (s->failWith == -3) throw std::runtime_error("callback");
        if (s->failWith == -4) throw 42;
        return s->failWith;
    }
    if (s->failAt >= 0 && (long)s->pos + n > s->failAt) n = s->failAt - s->pos;
    memcpy(p, s->b.data() + s->pos, n);
    s->pos += n;
    return n;
}
static void put(std::vector<char>& b, F1& f) { auto x = f.f.bytes(); b.insert(b.end(), x.begin(), x.end()); }

// frames read one after the other from a stream, some of them decoded, whatever the size of the reads
SYM_CASE(stream) {
    begin();
    F1 a(0, 2), b(1, 1), c(2, 2);
    Src s;
    F1* fs[3] = {&a, &b, &c};
    for (auto* f : fs) put(s.b, *f);
    int k = sym::choice(0, 4);
    static const long chunks[] = {1, 2, 7, 255, 100000};
    s.chunk = chunks[k];
    odc_reader_t* r; odc_frame_t* f;
    OK(odc_open_stream(&r, &s, rd));
    OK(odc_new_frame(&f, r));
    for (int i = 0; i < 3; i++) {
        OK(odc_next_frame(f));
        long n; int nc;
        OK(odc_frame_row_count(f, &n));
        OK(odc_frame_column_count(f, &nc));
        sym::check(n == fs[i]->f.rows && nc == 2, "shape of a frame");
        if (sym::flag()) fs[i]->same(f);
    }
    sym::check(odc_next_frame(f) == ODC_ITERATION_COMPLETE && odc_next_frame(f) == ODC_ITERATION_COMPLETE, "end of the stream not reported");
    OK(odc_free_frame(f));
    OK(odc_close(r));
    sym::check(handled == 0, "failure handler called without a failure");
    sym::reach("done");
}
// properties are those of the frame that is read, whatever was asked about the frame before
SYM_CASE(properties) {
    begin();
    F1 a(0, 1), b(1, 1), c(2, 1);
    F1* fs[3] = {&a, &b, &c};
    if (sym::flag()) std::swap(fs[0], fs[2]);
    std::vector<char> m;
    for (auto* f : fs) put(m, *f);
    odc_reader_t* r; odc_frame_t* f;
    OK(odc_open_buffer(&r, m.data(), m.size()));
    OK(odc_new_frame(&f, r));
    bool aggregated = sym::flag();
    for (int i = 0; i < 3; i++) {
        OK(aggregated ? odc_next_frame_aggregated(f, 100) : odc_next_frame(f));
        int how = sym::choice(0, 3);
        if (how & 1) fs[i]->props(f, true);
        if (how & 2) fs[i]->props(f, false);
    }
    OK(odc_free_frame(f));
    OK(odc_close(r));
    sym::check(handled == 0, "failure handler called without a failure");
    sym::reach("done");
}
// a stream that fails or ends early: what is delivered is right, and the failure is reported unless the end is the end of a frame
static void broken(bool error) {
    begin();
    F1 a(0, 1), b(1, 2);
    Src s;
    put(s.b, a);
    long first = s.b.size();
    put(s.b, b);
    int at = sym::choice(0, 9);
    long cut[] = {0, 1, 5, 40, first - 3, first, first + 2, first + 41, (long)s.b.size() - 7, (long)s.b.size() - 1};
    s.failAt = cut[at];
    s.failWith = error ? sym::choice(-4, -1) : 0;      // -3, -4: the callback throws
    s.chunk = sym::flag() ? 3 : 100000;
    bool dec = sym::flag();
    odc_reader_t* r; odc_frame_t* f;
    OK(odc_open_stream(&r, &s, rd));
    OK(odc_new_frame(&f, r));
    int got = 0, rc = 0;
    F1* fs[2] = {&a, &b};
    bool failed = false;
    while ((rc = odc_next_frame(f)) == ODC_SUCCESS) {
        sym::check(got < 2, "more frames than the stream has");
        bool complete = s.failAt >= (got ? (long)s.b.size() : first);
        if (dec) {
            if (complete) fs[got]->same(f);
            else { sym::check(fs[got]->fails(f), "a frame cut short was decoded"); failed = true; break; }
        }
        got++;
    }
    if (!failed) {
        bool clean = !error && (s.failAt == 0 || s.failAt == first);
        // a frame that is not decoded is only seen to be cut when the next one is asked for
        sym::check((rc == ODC_ITERATION_COMPLETE) == clean, "the end of a stream was mistaken for a failure or the other way round");
    }
    sym::check((handled > 0) == (failed || rc != ODC_ITERATION_COMPLETE), "failure handler and return code disagree");
    if (handled) sym::check(handled == 1 && lastCode == (s.failWith == -4 ? ODC_ERROR_UNKNOWN_EXCEPTION : ODC_ERROR_GENERAL_EXCEPTION) && odc_error_string(lastCode)[0], "code of a failure");
    OK(odc_free_frame(f));
    OK(odc_close(r));
    sym::reach("done");
}
SYM_CASE(stream_ends) { broken(false); }
SYM_CASE(stream_fails) { broken(true); }
// a stream cannot go back: an attempt to decode what has been passed is an error, never other data
SYM_CASE(stream_back) {
    begin();
    F1 a(0, 2), b(1, 1);
    Src s;
    put(s.b, a); put(s.b, b);
    s.chunk = sym::flag() ? 5 : 100000;
    odc_reader_t* r; odc_frame_t *f, *g;
    OK(odc_open_stream(&r, &s, rd));
    OK(odc_new_frame(&f, r));
    OK(odc_next_frame(f));
    OK(odc_copy_frame(f, &g));
    if (sym::flag()) { a.same(f); sym::check(a.fails(g) && handled == 1, "data of a stream obtained twice"); }
    OK(odc_next_frame(f));
    sym::check(a.fails(g), "data of a stream obtained after it was passed");
    b.same(f);
    OK(odc_free_frame(g));
    OK(odc_free_frame(f));
    OK(odc_close(r));
    sym::reach("done");
}
// copies of frames stay what they are, whatever happens to the original
SYM_CASE(copy) {
    begin();
    F1 a(0, 2), b(1, 1);
    std::vector<char> m;
    put(m, a); put(m, b);
    odc_reader_t* r; odc_frame_t *f, *g, *h;
    OK(odc_open_buffer(&r, m.data(), m.size()));
    OK(odc_new_frame(&f, r));
    bool empty = sym::flag();
    if (empty) { OK(odc_copy_frame(f, &h)); OK(odc_free_frame(h)); }
    OK(odc_next_frame(f));
    const char *k, *v;
    if (sym::flag()) OK(odc_frame_property_idx(f, 0, &k, &v));
    OK(odc_copy_frame(f, &g));
    int how = sym::choice(0, 3);
    if (how == 1 || how == 2) OK(odc_next_frame(f));
    if (how == 2) sym::check(odc_next_frame(f) == ODC_ITERATION_COMPLETE, "end of the file not reported");
    if (how == 1) { b.same(f); OK(odc_frame_property_idx(f, 1, &k, &v)); sym::check(!strcmp(k, "p1") && !strcmp(v, "B"), "property by index"); }
    if (how == 2) sym::check(odc_frame_property_idx(f, 0, &k, &v) != 0, "property of a frame past the end");
    if (how == 3) { OK(odc_free_frame(f)); f = nullptr; }
    a.same(g);
    OK(odc_frame_property_idx(g, 0, &k, &v));
    sym::check(!strcmp(k, "p0") && !strcmp(v, "A"), "property of a copied frame");
    const char* nm;
    OK(odc_frame_column_attributes(g, 0, &nm, nullptr, nullptr, nullptr));
    sym::check(!strcmp(nm, "a0"), "column of a copied frame");
    int rc = odc_next_frame(g);                // the copy moves on with the reader
    sym::check(rc == (how == 1 || how == 2 ? ODC_ITERATION_COMPLETE : ODC_SUCCESS), "end of the file");
    if (!rc) b.same(g);
    if (f) OK(odc_free_frame(f));
    OK(odc_free_frame(g));
    OK(odc_close(r));
    sym::reach("done");
}
// what the frame says about itself, by every index
static void describe(int mode) {
    begin();
    FFrame f(false);
    f.rows = 0;
    char nb[3], vb[3], kb[2];
    sym::bytes(nb, 3); sym::bytes(vb, 3); sym::bytes(kb, 2);
    for (char x : nb) sym::assume(x != 0);
    for (char x : kb) sym::assume(x != 0);
    sym::assume(kb[0] != kb[1]);
    vb[2] = 0;
    std::string name(nb, 3), value(vb);
    FCol b = fcol(name, T_BITFIELD, "constant"); b.bfNames = {"p", "longer"}; b.bfSizes = {mode == 1 ? sym::choice(1, 28) : 5, 3};
    FCol s = fcol("s", T_STRING, "int8_string"); s.strings = {"0123456789"};
    f.cols = {fcol("i@t", T_INT, "int8"), b, s, fcol("r", T_REAL, "long_real"), fcol("d", T_DOUBLE, "long_real")};
    f.props[std::string(1, kb[0])] = value;
    f.props[std::string(1, kb[1])] = "other";
    auto bytes = f.bytes();
    odc_reader_t* r; odc_frame_t* fr;
    OK(odc_open_buffer(&r, bytes.data(), bytes.size()));
    OK(odc_new_frame(&fr, r));
    int x; long rows; const char *k = nullptr, *v = nullptr;
    sym::check(odc_frame_row_count(fr, &rows) == 0 ? rows == 0 : 1, "rows of a frame before the first");
    sym::check(odc_frame_column_count(fr, &x) != 0 && odc_frame_properties_count(fr, &x) != 0, "contents of a frame before the first");
    OK(odc_next_frame(fr));
    OK(odc_frame_row_count(fr, &rows));
    OK(odc_frame_column_count(fr, &x));
    sym::check(rows == 0 && x == 5, "shape of the frame");
    int col = mode <= 1 ? sym::choice(-1, 6) : 0, t, sz, nb2;
    int rc = odc_frame_column_attributes(fr, col, &k, &t, &sz, &nb2);
    sym::check((rc == 0) == (col >= 0 && col < 5), "column index");
    if (!rc) {
        static const int types[] = {ODC_INTEGER, ODC_BITFIELD, ODC_STRING, ODC_REAL, ODC_DOUBLE};
        sym::check(std::string(k) == f.cols[col].name && t == types[col] && sz == (col == 2 ? 16 : 8) && nb2 == (col == 1 ? 2 : 0), "column attributes");
        const char* tn;
        OK(odc_column_type_name(t, &tn));
        static const char* names[] = {"integer", "bitfield", "string", "real", "double"};
        sym::check(!strcmp(tn, names[col]), "name of a column type");
    }
    OK(odc_frame_column_attributes(fr, 1, nullptr, nullptr, nullptr, nullptr));
    int field = mode == 1 ? sym::choice(-1, 2) : 0, off;
    rc = odc_frame_bitfield_attributes(fr, col, field, &k, &off, &sz);
    sym::check((rc == 0) == (col == 1 && field >= 0 && field < 2), "bitfield index");
    if (!rc) sym::check(k == f.cols[1].bfNames[field] && sz == f.cols[1].bfSizes[field] && off == (field ? f.cols[1].bfSizes[0] : 0), "bitfield attributes");
    OK(odc_frame_properties_count(fr, &x));
    sym::check(x == 2, "number of properties");
    int idx = mode == 2 ? sym::choice(-1, 3) : 0;
    if (mode == 2 && sym::flag()) OK(odc_frame_property_idx(fr, 0, &k, &v));
    rc = odc_frame_property_idx(fr, idx, &k, &v);
    sym::check((rc == 0) == (idx >= 0 && idx < 2), "property index");
    if (!rc) {
        int lo = (unsigned char)kb[0] < (unsigned char)kb[1] ? 0 : 1;
        sym::check(k[0] == kb[idx ? 1 - lo : lo] && k[1] == 0 && std::string(v) == ((idx == 0) == (lo == 0) ? value : "other"), "property by index");
    }
    char key[2] = {mode == 3 ? sym::any<char>() : kb[0], 0};
    sym::assume(key[0] != 0);
    OK(odc_frame_property(fr, key, &v));
    if (key[0] == kb[0]) sym::check(v && std::string(v) == value, "property by name");
    else if (key[0] == kb[1]) sym::check(v && std::string(v) == "other", "property by name");
    else sym::check(v == nullptr, "value of an unknown property");
    OK(odc_free_frame(fr));
    OK(odc_close(r));
    sym::reach("done");
}
SYM_CASE(describe_columns) { describe(0); }
SYM_CASE(describe_bitfields) { describe(1); }
SYM_CASE(describe_index) { describe(2); }
SYM_CASE(describe_key) { describe(3); }
// what is written through a callback or to memory is complete, or an error
struct Sink { std::vector<char> b; long chunk = 1 << 20, limit = 1 << 20, failWith = 0; int refused = 0; };
static long wr(void* c, const void* p, long n) {
    Sink* s = (Sink*)c;
    if (n > s->chunk) n = s->chunk;
    if ((long)s->b.size() >= s->limit) {
        if (++s->refused > 50) sym::fail("a callback that takes no more is asked for ever");
        return s->failWith;
    }
    if ((long)s->b.size() + n > s->limit) n = s->limit - s->b.size();
    s->b.insert(s->b.end(), (const char*)p, (const char*)p + n);
    return n;
}
static odc_encoder_t* encoder(const double* x) {
    odc_encoder_t* e;
    OK(odc_new_encoder(&e));
    OK(odc_encoder_add_column(e, "x", ODC_DOUBLE));
    OK(odc_encoder_set_row_count(e, 2));
    OK(odc_encoder_set_rows_per_frame(e, 1));
    OK(odc_encoder_column_set_data_array(e, 0, 8, 8, x));
    return e;
}
static void check2(const char* b, long n, const double* x) {
    std::vector<char> v(b, b + n);
    Mem m(v);
    m.openForRead();
    odc::api::Reader rd(m, false);
    for (int i = 0; i < 2; i++) { auto f = rd.next(); sym::check(!!f && f.rowCount() == 1, "frames written"); Dec d(f, {"x"}); sym::check(d.at(0, 0) == bits(x[i]), "value written"); }
    sym::check(!rd.next(), "more frames than were written");
}
SYM_CASE(write) {
    begin();
    double x[2] = {dbl(sym::any<uint64_t>()), 2.5};
    sym::assume(!std::isnan(x[0]) && x[0] != -2147483647.0 && std::fabs(x[0]) < 1e100 && std::fabs(x[0]) > 1e-100);
    odc_encoder_t* e = encoder(x);
    Sink whole; long total = -1;
    OK(odc_encode_to_stream(e, &whole, wr, &total));
    sym::check(total == (long)whole.b.size(), "number of bytes encoded");
    check2(whole.b.data(), total, x);
    Sink s;
    int k = sym::choice(0, 7);
    s.chunk = k & 1 ? 3 : 1000;
    s.failWith = k & 2 ? -1 : 0;
    bool full = k & 4;
    int at = full ? sym::choice(0, 3) : 0;
    if (full) s.limit = at == 0 ? 0 : at == 1 ? 20 : at == 2 ? total / 2 : total - 1;
    long n = -1;
    int rc = odc_encode_to_stream(e, &s, wr, sym::flag() ? &n : nullptr);
    sym::check((rc == 0) == !full, "a full device was not reported (or one with room was)");
    sym::check((handled == 1) == full, "failure handler and return code disagree");
    if (!full) sym::check(s.b == whole.b && (n == -1 || n == total), "bytes written through a callback that takes few at a time");
    // memory of just the right size, too small, or larger
    int room = sym::choice(-2, 1);
    long size = room == -2 ? total / 2 : total + room;
    std::vector<char> mem(size + 8, 'P');
    n = -1;
    handled = 0;
    rc = odc_encode_to_buffer(e, mem.data(), size, &n);
    sym::check((rc == 0) == (size >= total) && handled == (rc != 0), "memory that is too small (large enough) was accepted (refused)");
    if (!rc) { sym::check(n == total, "number of bytes encoded"); check2(mem.data(), n, x); }
    for (long i = size; i < size + 8; i++) sym::check(mem[i] == 'P', "encode wrote past the end of the memory");
    OK(odc_free_encoder(e));
    sym::reach("done");
}
// every way to open something that is not there, or is not an ODB, is an error; objects remain usable
SYM_CASE(errors) {
    begin();
    char junk[8];
    sym::bytes(junk, 8);
    int n = sym::choice(1, 8);
    odc_reader_t* r; odc_frame_t* f;
    OK(odc_open_buffer(&r, junk, n));
    OK(odc_new_frame(&f, r));
    int rc = odc_next_frame(f);
    sym::check(rc == ODC_ERROR_GENERAL_EXCEPTION && handled == 1 && lastCode == rc, "what is no ODB was accepted");
    sym::check(odc_error_string(rc)[0] != 0, "no error message");
    sym::check(odc_next_frame(f) == ODC_ERROR_GENERAL_EXCEPTION, "what is no ODB was accepted the second time");
    OK(odc_free_frame(f));
    OK(odc_close(r));
    OK(odc_open_buffer(&r, junk, 0));
    OK(odc_new_frame(&f, r));
    sym::check(odc_next_frame(f) == ODC_ITERATION_COMPLETE, "no data is not the end of the data");
    OK(odc_free_frame(f));
    OK(odc_close(r));
    handled = 0;
    int fd = sym::choice(-1, 0) < 0 ? -1 : 999;            // not open
    sym::check(odc_open_file_descriptor(&r, fd) == ODC_ERROR_GENERAL_EXCEPTION && handled == 1, "a descriptor that is not open was accepted");
    sym::check(odc_next_frame(nullptr) != 0 && odc_close(nullptr) != 0 && odc_free_frame(nullptr) != 0 && odc_new_frame(&f, nullptr) != 0 && odc_decode(nullptr, nullptr, nullptr) != 0, "null accepted");
    int t = sym::choice(-1, 7);
    const char* tn = nullptr;
    rc = odc_column_type_name(t, &tn);
    int count;
    OK(odc_column_type_count(&count));
    sym::check((rc == 0) == (t >= 0 && t < count), "name of an unknown column type");
    sym::check(!strcmp(odc_error_string(ODC_SUCCESS), "Success") && !strcmp(odc_error_string(ODC_ITERATION_COMPLETE), "Iteration complete"), "names of return codes");
    sym::reach("done");
}
