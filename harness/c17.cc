// C17: span() reports exactly the distinct values of the rows, and the position of the frame
#include "enc.h"
#include "odbfile.h"
using namespace hs;
using namespace odc::api;

struct Got : SpanVisitor {
    std::map<std::string, std::set<long>> i;
    std::map<std::string, std::set<double>> d;
    std::map<std::string, std::set<std::string>> s;
    void operator()(const std::string& c, const std::set<long>& v) override { i[c] = v; }
    void operator()(const std::string& c, const std::set<double>& v) override { d[c] = v; }
    void operator()(const std::string& c, const std::set<std::string>& v) override { s[c] = v; }
};
// the values are compared element by element with the rows of the model (no ordering of symbolic values involved)
template <class S, class V, class EQ>
static void same(const S& set, const std::vector<V>& rows, EQ eq, const char* m) {
    for (auto& v : rows) { bool in = false; for (auto& w : set) in |= eq(v, w); sym::check(in, m); }
    for (auto& w : set) { bool in = false; for (auto& v : rows) in |= eq(v, w); sym::check(in, "span reports a value no row has"); }
    for (auto a = set.begin(); a != set.end(); ++a) { auto b = a; for (++b; b != set.end(); ++b) sym::check(!(*a == *b), "span reports a value twice"); }
}
struct Want { std::vector<long> i; std::vector<double> d; std::vector<std::string> s; };

enum { CI, CS, CD, CR, CB, CK, CC, NC };
static const char* NAME[] = {"i@t", "s@t", "d@t", "r@t", "b@t", "k@t", "c@t"};
static std::vector<FCol> layout(int f, bool longString) {
    FCol s = fcol("s@t", T_STRING, f ? "int16_string" : "int8_string");
    s.strings = {"", "twelve bytes", f ? "twelve botes" : "twelve b", f ? "twelve bytes and then more" : "twelve bytes and then some"};
    FCol b = fcol("b@t", T_BITFIELD, "int8", 0, 255); b.bfNames = {"x", "y"}; b.bfSizes = {1, 3};
    FCol c = fcol("c@t", T_STRING, longString ? "long_constant_string" : "constant_string");
    c.longConst = f ? "a long constant of 3 words" : "a long constant of 3 w0rds";
    memcpy(c.cchars, f ? "konst" : "constant", f ? 5 : 8);
    return {fcol("i@t", T_INT, "int16_missing", -100, 265, -7, 1), s, fcol("d@t", T_DOUBLE, "long_real", 0, 0, 0.5), fcol("r@t", T_REAL, "short_real", 0, 0, -1.5), b, fcol("k@t", T_INT, "constant", 4000000042. + f, 4000000042. + f, -9), c};
}
static std::string constant(int f, bool l) { return l ? (f ? "a long constant of 3 words" : "a long constant of 3 w0rds") : (f ? "konst" : "constant"); }

// which: the columns asked for; wild: markers and values symbolic
static void put(std::vector<char>& file, int f, int rows, bool swap, bool firstPartial, bool longString, unsigned free, Want* w) {
    FFrame fr(swap);
    fr.rows = rows;
    fr.cols = layout(f, longString);
    for (int r = 0; r < rows; r++) {
        int mk = r ? sym::choice(0, NC) : firstPartial ? sym::choice(0, CK) : 0;
        fr.data.marker(mk);
        for (int c = 0; c < NC; c++) {
            if (c < mk && r) continue;          // same value as the row before
            bool unset = c < mk;
            switch (c) {
                case CI: { uint16_t b = free & 1 ? sym::any<uint16_t>() : (uint16_t)(r * 3); if (unset) b = 0xffff; else fr.data.u16(b); w[c].i.push_back(b == 0xffff ? -7 : (long)b - 100); break; }
                case CS: { int k = free & 2 ? sym::choice(0, 3) : r % 4; if (unset) k = 0; else if (f) fr.data.u16(k); else fr.data.u8(k); w[c].s.push_back(fr.cols[CS].strings[k]); break; }
                case CD: { double v = free & 4 ? sym::any<double>() : 1.5; if (unset) v = 0.5; else fr.data.f64(v); w[c].d.push_back(v); break; }
                case CR: { float v = free & 8 && (sym::any<uint8_t>() & 1) ? 2.5f : -3.f; if (unset) v = -1.5; else fr.data.f32(v); w[c].d.push_back(v); break; }
                case CB: { uint8_t v = free & 16 ? (sym::any<uint8_t>() & 15) : 9; if (unset) w[c].i.push_back(0); else { fr.data.u8(v); w[c].i.push_back(v); } break; }
                case CK: w[c].i.push_back(4000000042 + f); break;
                case CC: w[c].s.push_back(constant(f, longString)); break;
            }
        }
    }
    append(file, fr.bytes());
}
static void compare(const Got& g, const std::vector<std::string>& ask, const std::vector<int>& idx, Want* w) {
    auto eqd = [](double a, double b) { return a == b; };
    for (size_t k = 0; k < ask.size(); k++) {
        int c = idx[k];
        const std::string& n = ask[k];
        if (c == CI || c == CB || c == CK) {
            sym::check(g.i.count(n) && !g.d.count(n) && !g.s.count(n), "integer column is not reported as integers");
            same(g.i.at(n), w[c].i, [](long a, long b) { return a == b; }, "span lacks an integer value of a row");
        } else if (c == CD || c == CR) {
            sym::check(g.d.count(n) && !g.i.count(n) && !g.s.count(n), "real column is not reported as reals");
            std::vector<double> v;
            for (double x : w[c].d) if (x == x) v.push_back(x);      // NaN is not a value of an ordered set
            std::set<double> s;
            for (double x : g.d.at(n)) sym::check(x == x, "span reports NaN");
            same(g.d.at(n), v, eqd, "span lacks a real value of a row");
        } else {
            sym::check(g.s.count(n) && !g.i.count(n) && !g.d.count(n), "string column is not reported as strings");
            same(g.s.at(n), w[c].s, [](const std::string& a, const std::string& b) { return a == b; }, "span lacks a string value of a row");
        }
    }
    sym::check(g.i.size() + g.d.size() + g.s.size() == ask.size(), "span reports other columns than those asked for");
}
static void run(int nf, int rows, bool firstPartial, unsigned free, std::vector<int> idx, bool tied = false) {
    Want w[NC];
    bool asD = sym::flag(), l = tied ? asD : sym::flag();
    Settings::treatIntegersAsDoubles(asD);
    std::vector<char> file;
    for (int f = 0; f < nf; f++) put(file, f, rows, sym::flag(), firstPartial && !f, l, free, w);
    Mem m(file);
    m.openForRead();
    Reader rd(m, true);
    Frame fr = rd.next();
    sym::check(!!fr && fr.rowCount() == (size_t)(nf * rows), "frame shape");
    std::vector<std::string> ask;
    bool simple = tied ? asD : sym::flag();
    for (int c : idx) ask.push_back(simple ? std::string(NAME[c], 1) : NAME[c]);
    Got g;
    Span s = fr.span(ask, false);
    s.visit(g);
    compare(g, ask, idx, w);
    sym::check(s.offset() == eckit::Offset(0) && s.length() == eckit::Length(file.size()), "span covers other bytes than the frame");
    // asking again, after decoding, gives the same
    Dec d(fr, {"i@t"});
    Span s2 = fr.span(ask, false);
    sym::check(s == s2 || (free & 4), "a second span differs");
    // only constants
    bool constOnly = true, threw = false;
    for (int c : idx) constOnly &= c >= CK;
    try { Span q = fr.span(ask, true); Got g2; q.visit(g2); compare(g2, ask, idx, w); } catch (std::exception&) { threw = true; }
    sym::check(threw == !constOnly, "onlyConstantValues accepts exactly the constant columns");
    sym::reach("done");
}
SYM_CASE(ints) { run(1, 3, false, 1, {CI}); }
SYM_CASE(strings) { run(1, 3, false, 2, {CS, CI}); }
SYM_CASE(doubles) { run(1, 2, false, 4, {CD}); }
SYM_CASE(nan3) {
    // one of three doubles is NaN
    Want w[NC];
    FFrame f;
    f.rows = 3;
    f.cols = {fcol("d@t", T_DOUBLE, "long_real"), fcol("r@t", T_REAL, "short_real")};
    int at = sym::choice(0, 3);
    for (int r = 0; r < 3; r++) {
        double v = r == at ? std::nan("") : (double)sym::choice(0, 2);
        f.data.marker(0); f.data.f64(v); f.data.f32((float)v);
        w[CD].d.push_back(v); w[CR].d.push_back(v);
    }
    Mem m(f.bytes());
    m.openForRead();
    Reader rd(m);
    Frame fr = rd.next();
    Got g;
    fr.span({"d@t", "r@t"}, false).visit(g);
    compare(g, {"d@t", "r@t"}, {CD, CR}, w);
    sym::reach("done");
}
SYM_CASE(reals) { run(1, 3, false, 8, {CR, CB}); }
SYM_CASE(bits) { run(1, 3, false, 16, {CB, CS, CR}); }
// later stored frames with the values of the first one
SYM_CASE(same) {
    Want w[NC];
    std::vector<char> file;
    int nf = sym::choice(2, 3);
    for (int f = 0; f < nf; f++) put(file, f == 2 && sym::flag() ? 1 : 0, 2, false, false, false, 0, w);
    Mem m(file);
    m.openForRead();
    Reader rd(m, true);
    Frame fr = rd.next();
    bool constOnly = sym::flag();
    std::vector<int> idx = constOnly ? std::vector<int>{CK, CC} : std::vector<int>{CI, CS, CK};
    std::vector<std::string> ask;
    for (int c : idx) ask.push_back(NAME[c]);
    Got g;
    Span s = fr.span(ask, constOnly);
    s.visit(g);
    compare(g, ask, idx, w);
    sym::check(s.offset() == eckit::Offset(0) && s.length() == eckit::Length(file.size()), "span covers other bytes than the frame");
    sym::reach("done");
}
SYM_CASE(constants) { run(2, 2, false, 0, {CK, CC}); }
SYM_CASE(two) { run(2, 2, false, 2, {CS, CK, CR}, true); }
SYM_CASE(partial) { run(1, 2, true, 0, {CI, CS, CD, CR, CB}); }
SYM_CASE(every) { run(1, 2, false, 0, {CC, CK, CB, CR, CD, CS, CI}); }
// unknown columns are refused
SYM_CASE(unknown) {
    std::vector<char> file;
    Want w[NC];
    put(file, 0, 1, false, false, false, 0, w);
    Mem m(file);
    m.openForRead();
    Reader rd(m);
    Frame fr = rd.next();
    std::string n;
    int len = sym::choice(0, 3);
    for (int k = 0; k < len; k++) n += sym::any<char>();
    bool known = false;
    for (auto* q : NAME) known |= n == q || n == std::string(q, 1);
    bool threw = false;
    try { fr.span({"i@t", n}, false); } catch (std::exception&) { threw = true; }
    sym::check(threw == !known, known ? "a known column is refused" : "an unknown column is accepted");
    sym::reach("done");
}
