// C08: a file cut anywhere, or an output device that stops accepting bytes anywhere, is reported, and complete frames survive
#include "enc.h"
#include "odbfile.h"
#include "odc/Reader.h"
#include "odc/Writer.h"
using namespace hs;
using namespace odc::api;

struct File {
    std::vector<char> b;
    std::vector<size_t> end;                 // end of each frame
    std::vector<std::vector<double>> i, d;   // column values per frame
    std::vector<std::vector<std::string>> s;
    size_t frames() const { return end.size(); }
};
static File make(int nf, bool swap) {
    File o;
    for (int k = 0; k < nf; k++) {
        FFrame f(swap);
        f.rows = 2;
        if (k == 1) f.props["key"] = "v";
        FCol s = fcol("s@t", T_STRING, "int8_string"); s.strings = {"one", "two-and-more"};
        f.cols = {fcol("i@t", T_INT, "int16", k, 65535 + k), s, fcol("d@t", T_DOUBLE, "long_real")};
        o.i.emplace_back(); o.d.emplace_back(); o.s.emplace_back();
        for (int r = 0; r < 2; r++) {
            uint16_t v = sym::any<uint16_t>();
            uint8_t w = r ? 1 : 0;
            f.data.marker(0); f.data.u16(v); f.data.u8(w); f.data.f64(k + 0.5 * r);
            o.i[k].push_back(k + v); o.d[k].push_back(k + 0.5 * r); o.s[k].push_back(s.strings[w]);
        }
        append(o.b, f.bytes());
        o.end.push_back(o.b.size());
    }
    return o;
}
static void checkFrame(const Frame& f, const File& o, size_t k) {
    sym::check(f.rowCount() == 2 && f.columnCount() == 3, "shape of a complete frame");
    Dec d(f, {"d@t", "i@t", "s@t"});
    for (int r = 0; r < 2; r++) {
        sym::check(d.getD(0, r) == o.d[k][r], "double in a complete frame");
        sym::check(d.getD(1, r) == o.i[k][r], "integer in a complete frame");
        sym::check(d.getS(2, r) == o.s[k][r], "string in a complete frame");
    }
}
// reads a prefix of the file frame by frame; a partial frame must be refused by next() or by whatever uses its data
static void cut(bool estimates, bool swap, int lo, int hi, bool aggregated) {
    File o = make(2, swap);
    size_t n = o.b.size();
    int k = lo + sym::choice(0, 255);
    sym::assume(k < hi && k < (int)n);
    std::vector<char> p(o.b.begin(), o.b.begin() + k);
    size_t complete = 0;
    while (complete < o.frames() && o.end[complete] <= (size_t)k) complete++;
    bool boundary = k == 0 || (complete && o.end[complete - 1] == (size_t)k);
    Mem m(p);
    m.estimates = estimates;
    m.openForRead();
    bool reported = false;
    size_t got = 0;
    try {
        Reader r(m, aggregated);
        while (true) {
            Frame f = r.next();
            if (!f) break;
            if (got < complete && !aggregated) { checkFrame(f, o, got); got++; continue; }
            // aggregated, or the frame that was cut
            if (estimates && got >= complete) sym::check(false, "a frame that the sized file does not hold was returned");
            if (estimates && aggregated) sym::check(f.rowCount() <= 2 * complete, "rows that the sized file does not hold were counted");
            Dec d(f, {"i@t"});
            got += f.rowCount() / 2;
            if (aggregated) { for (size_t x = 0; x < got; x++) for (int q = 0; q < 2; q++) sym::check(d.getD(0, x * 2 + q) == o.i[x][q], "aggregated rows"); }
            else sym::check(false, "a frame that was cut was decoded without an error");
        }
    } catch (std::exception&) { reported = true; }
    sym::check(aggregated || got >= complete, "a complete frame was lost");
    sym::check(got <= complete, "more frames than the file holds");
    sym::check(boundary ? (!reported && got == complete) : reported, boundary ? "a file cut between frames was refused" : "truncation was not reported");
    sym::reach("done");
}
SYM_CASE(cut1) { bool sw = sym::flag(); cut(true, sw, 0, 256, false); }
SYM_CASE(cut2) { cut(true, true, 256, 512, false); }
SYM_CASE(cut3) { cut(true, false, 512, 768, false); }
SYM_CASE(stream1) { bool sw = sym::flag(); cut(false, sw, 0, 256, false); }
SYM_CASE(stream2) { cut(false, true, 256, 512, false); }
SYM_CASE(stream3) { cut(false, false, 512, 768, false); }
SYM_CASE(aggregated) { bool e = sym::flag(); cut(e, false, 200, 456, true); }

// the other consumers of frame data: encodedData(), span(), and the row iterator
SYM_CASE(consumers) {
    File o = make(1, false);
    int k = (int)o.b.size() - sym::choice(1, 30);
    std::vector<char> p(o.b.begin(), o.b.begin() + k);
    Mem m(p);
    m.estimates = sym::flag();
    m.openForRead();
    int kind = sym::choice(0, 3);
    bool reported = false;
    try {
        if (kind < 3) {
            Reader r(m);
            Frame f = r.next();
            sym::check(!m.estimates, "a frame that the sized file does not hold was returned");
            if (kind == 0) { eckit::Buffer b = f.encodedData(); }
            if (kind == 1) f.span({"i@t"}, false);
            if (kind == 2) Dec d(f, {"s@t"});
        } else {
            odc::Reader r(m);
            int rows = 0;
            for (auto it = r.begin(); it != r.end(); ++it) rows++;
            sym::check(rows < 2, "all rows of a truncated frame were delivered");
        }
    } catch (std::exception&) { reported = true; }
    sym::check(reported, "truncation was not reported");
    sym::reach("done");
}
// frames that are only counted or looked at: nothing of their data is needed, yet a file that ends within one is refused
SYM_CASE(counted) {
    bool aggregated = sym::flag(), ends = sym::flag();
    File o = make(2, false);
    int k = (int)o.b.size() - sym::choice(0, 127) - (sym::flag() ? 128 : 0);
    bool second = sym::flag();               // the cut is in the second frame, or at the same place of the first
    if (!second) k -= (int)(o.b.size() - o.end[0]);
    std::vector<char> p(o.b.begin(), o.b.begin() + k);
    bool boundary = k == (int)o.end[0] || k == (int)o.end[1];
    Mem m(p);
    m.estimates = !ends;
    m.clips = ends;
    m.openForRead();
    bool reported = false;
    size_t rows = 0;
    try {
        Reader r(m, aggregated);
        while (Frame f = r.next()) { rows += f.rowCount(); sym::check(f.columnCount() == 3 && f.hasColumn("i@t"), "columns of a frame that is not decoded"); }
    } catch (std::exception&) { reported = true; }
    sym::check(reported == !boundary, boundary ? "a file cut between frames was refused" : "truncation was not reported");
    if (boundary) sym::check(rows == (k == (int)o.end[0] ? 2 : 4), "rows of the frames of a file cut between frames");
    sym::reach("done");
}
// output: the handle accepts only the first k bytes
SYM_CASE(fullDevice) {
    Tab t; t.rows = 3;
    t.add("i@t", INTEGER); t.add("s@t", STRING, 16);
    for (int r = 0; r < 3; r++) { t.setD(0, r, sym::any<uint8_t>()); memcpy(&t.at(1, r), "some text", 9); }
    Mem ok;
    int per = sym::choice(2, 3);
    encode(t, ok, {}, per);
    Mem m;
    long n = (long)ok.d->size();
    long k = per == 3 ? n - 1 - sym::choice(0, 63) : n - 1 - 8 * sym::choice(0, 31);
    sym::assume(k >= 0);
    m.failWriteAt = k;
    bool reported = false;
    try { encode(t, m, {}, per); } catch (std::exception&) { reported = true; }
    sym::check(reported, "a short write was not reported by encode");
    sym::reach("done");
}
