// BUILD: preempt
// C13: decoding with several threads gives what decoding with one thread gives, in every interleaving
#include "enc.h"
#include "odbfile.h"
#include "coop.h"
#include <thread>
using namespace hs;
using namespace odc::api;

static void onOp() { sched_yield_point(); }
struct Fix {
    std::vector<char> file;
    std::vector<double> a, b;
    std::vector<std::string> s;
};
// nf frames of three columns; string frames alternate between the 8 and 16 bit string tables
static Fix make(int nf, int rows, bool data) {
    Fix x;
    for (int i = 0; i < nf; i++) {
        FFrame f(i == 1);
        f.rows = rows;
        FCol s = fcol("s@t", T_STRING, i & 1 ? "int16_string" : "int8_string");
        s.strings = {"one", "two two two", "3"};
        f.cols.push_back(fcol("a@t", T_INT, "int8", i, i + 255));
        f.cols.push_back(fcol("b@t", T_DOUBLE, "long_real"));
        f.cols.push_back(s);
        for (int r = 0; r < rows; r++) {
            uint8_t v = 7 * r + i; if (data) v = sym::any<uint8_t>();
            f.data.marker(r ? 1 : 0);
            if (!r) { f.data.u8(v); x.a.push_back(i + v); } else x.a.push_back(x.a.back());
            double d = data ? dbl(sym::any<uint64_t>()) : 100 * i + r; sym::assume(d == d);
            f.data.f64(d); x.b.push_back(d);
            int k = (i + r) % 3;
            if (i & 1) f.data.u16(k); else f.data.u8(k);
            x.s.push_back(s.strings[k]);
        }
        append(x.file, f.bytes());
    }
    return x;
}
static void compare(Fix& x, Dec& d) {
    sym::check(d.rows == x.a.size(), "row count");
    for (size_t r = 0; r < d.rows; r++) {
        sym::check(d.getD(0, r) == x.a[r], "integer decoded by several threads");
        sym::check(d.getD(1, r) == x.b[r], "number decoded by several threads");
        sym::check(d.getS(2, r) == x.s[r], "string decoded by several threads");
    }
}
static void run(int nf, int rows, int nthreads, int budget, bool anywhere, bool data) {
    Fix x = make(nf, rows, data);
    Mem in(x.file);
    in.openForRead();
    Reader rd(in, true);
    Frame f = rd.next();
    in.onOp = onOp;
    std::vector<std::string> nm = {"a@t", "b@t", "s@t"};
    long k = -1;
    if (anywhere) {
        // first without preemption: counts the places where one is possible, and warms up statics
        sched::run([&] { Dec d(f, nm, nthreads); compare(x, d); }, 0, -1, sched::choose);
        long n = sched::points();
        uint16_t kk = sym::any<uint16_t>();
        sym::assume(kk < n);
        k = (long)symrt_enum(kk, 65535);
    }
    sched::run([&] { Dec d(f, nm, nthreads); compare(x, d); }, budget, k, sched::choose);
    sym::check(sched::threads() <= nthreads, "more threads than requested");
    sym::reach("done");
}
SYM_CASE(sync2) { run(2, 1, 2, 3, false, true); }
SYM_CASE(sync3) { run(3, 1, 2, 2, false, true); }
SYM_CASE(sync33) { run(3, 1, 3, 2, false, false); }
SYM_CASE(anysync) { run(2, 1, 2, 1, true, false); }
SYM_CASE(any2) { run(2, 2, 2, 0, true, false); }
SYM_CASE(any3) { run(3, 1, 2, 0, true, false); }

// the program's own threads: one decodes a frame while another decodes the next one, reads on, or decodes the same frame
static void user(int how, int budget, bool anywhere) {
    Fix x = make(2, 2, false);
    Mem in(x.file);
    in.openForRead();
    std::vector<std::string> nm = {"a@t", "b@t", "s@t"};
    auto part = [&](int i, Dec& d) {
        sym::check(d.rows == 2, "row count");
        for (int r = 0; r < 2; r++)
            sym::check(d.getD(0, r) == x.a[2 * i + r] && d.getD(1, r) == x.b[2 * i + r] && d.getS(2, r) == x.s[2 * i + r], "cell decoded while another thread was busy");
    };
    auto body = [&] {
        Reader rd(in, false);
        Frame f = rd.next(), g;
        if (how != 1) g = how == 0 ? rd.next() : f;
        int wrong = 0;
        std::thread other([&] {
            try {
                if (how == 1) { g = rd.next(); if (!g || g.rowCount() != 2) wrong++; }
                else { Dec d(g, nm); part(how == 0 ? 1 : 0, d); }
            } catch (std::exception&) { wrong++; }
        });
        try { Dec d(f, nm); part(0, d); } catch (std::exception&) { wrong++; }
        other.join();
        sym::check(wrong == 0, "decoding failed while another thread was busy");
        Dec d(how == 1 ? g : f, nm);
        part(how == 1 ? 1 : 0, d);
    };
    in.onOp = onOp;
    long k = -1;
    if (anywhere) {
        sched::run(body, 0, -1, sched::choose);
        long n = sched::points();
        uint16_t kk = sym::any<uint16_t>();
        sym::assume(kk < n);
        k = (long)symrt_enum(kk, 65535);
    }
    sched::run(body, budget, k, sched::choose);
    sym::reach("done");
}
SYM_CASE(user_frames) { user(0, 3, false); }
SYM_CASE(user_next) { user(1, 3, false); }
SYM_CASE(user_same) { user(2, 3, false); }
SYM_CASE(user_frames_any) { user(0, 0, true); }
SYM_CASE(user_next_any) { user(1, 0, true); }
SYM_CASE(user_same_any) { user(2, 0, true); }

// two threads each encode a table of their own
static void both(bool decodeOther, int budget, bool anywhere) {
    Tab t[2];
    for (int i = 0; i < 2; i++) {
        t[i].rows = 2;
        t[i].add("i@t", INTEGER); t[i].add("s@t", STRING, 16);
        for (int r = 0; r < 2; r++) {
            t[i].setD(0, r, 100 * i + r);
            memset(&t[i].at(1, r), 0, 16);
            memcpy(&t[i].at(1, r), i ? "second table" : "first", i ? 12 : 5 - r);
        }
    }
    Mem pre;
    encode(t[1], pre, {{"k", "1"}});
    Mem out[2];
    auto same = [&](Mem& m, int i) {
        Mem in(m.d);
        in.openForRead();
        Reader rd(in, false);
        Frame f = rd.next();
        auto p = f.properties();
        Dec d(f, names(t[i]));
        sym::check(p["k"] == (i ? "1" : "0") && d.rows == 2 && !rd.next(), "frame encoded while another thread was busy");
        for (int r = 0; r < 2; r++) sym::check(d.getD(0, r) == t[i].getD(0, r) && d.getS(1, r) == (i ? "second table" : std::string("first", 5 - r)), "cell encoded while another thread was busy");
    };
    auto body = [&] {
        for (auto& o : out) { o.openForWrite(0); }
        int wrong = 0;
        std::thread other([&] { try { if (decodeOther) same(pre, 1); else encode(t[1], out[1], {{"k", "1"}}); } catch (std::exception&) { wrong++; } });
        try { encode(t[0], out[0], {{"k", "0"}}); } catch (std::exception&) { wrong++; }
        other.join();
        sym::check(wrong == 0, "encoding failed while another thread was busy");
        same(out[0], 0);
        if (!decodeOther) same(out[1], 1);
    };
    for (auto& o : out) o.onOp = onOp;
    long k = -1;
    if (anywhere) {
        sched::run(body, 0, -1, sched::choose);
        long n = sched::points();
        uint16_t kk = sym::any<uint16_t>();
        sym::assume(kk < n);
        k = (long)symrt_enum(kk, 65535);
    }
    sched::run(body, budget, k, sched::choose);
    sym::reach("done");
}
SYM_CASE(encode) { both(false, 3, false); }
SYM_CASE(encode_any) { both(false, 0, true); }
SYM_CASE(encode_decode_any) { both(true, 0, true); }

// a row that cannot be decoded in any one of the frames is reported whichever thread meets it
SYM_CASE(error) {
    std::vector<char> file;
    int bad = sym::choice(0, 2);
    for (int i = 0; i < 2; i++) {
        FFrame f; f.rows = 1;
        FCol s = fcol("s@t", T_STRING, "int8_string"); s.strings = {"one", "two"};
        f.cols = {s};
        f.data.marker(0);
        f.data.u8(i == bad ? 2 : i);
        append(file, f.bytes());
    }
    Mem in(file); in.openForRead();
    Reader rd(in, true);
    Frame f = rd.next();
    in.onOp = onOp;
    bool threw = false;
    sched::run([&] { try { Dec d(f, {"s@t"}, 2); sym::check(d.getS(0, 0) == "one" && d.getS(0, 1) == "two", "strings decoded by several threads"); } catch (std::exception&) { threw = true; } }, 2, -1, sched::choose);
    sym::check(threw == (bad < 2), "an error in one of the threads must be reported, and nothing else");
    sym::reach("done");
}
