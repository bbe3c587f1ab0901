// C03: rows of every documented codec, in either byte order, decode to the values the file format documentation gives,
// and decoding a later column (which skips the codec) lands on the right bytes.  The frame is built by odbfile.h.
// The same codecs' own encode() produces exactly the documented bytes.
#include "enc.h"
#include "odbfile.h"
#include "odc/core/Codec.h"
#include "odc/core/CodecFactory.h"
#include "odc/core/DataStream.h"
using namespace hs;
using namespace odc::api;

static const float SR1 = flt(0x00800000u), SR2 = flt(0xff7fffffu);

// decodes column "x" (and "k", the int8 column after it) of a one-frame file; returns the cells of x
static void read2(FFrame& f, bool asDouble, std::vector<uint64_t>& x, std::vector<uint8_t>& kraw) {
    Mem m(f.bytes());
    m.openForRead();
    Reader r(m);
    Frame fr = r.next();
    sym::check(!!fr && fr.rowCount() == (size_t)f.rows && fr.columnCount() == f.cols.size(), "frame shape");
    Dec d(fr, {"x", "k"});
    Dec e(fr, {"k"});          // x is skipped
    for (size_t i = 0; i < d.rows; i++) {
        x.push_back(d.v[0][i * d.w[0]]);
        for (auto* q : {&d, &e}) {
            size_t c = q == &d ? 1 : 0;
            if (asDouble) sym::check(q->getD(c, i) == kraw[i] + 10, "column after the codec decoded wrongly");
            else sym::check(q->getI(c, i) == kraw[i] + 10, "column after the codec decoded wrongly");
        }
    }
    sym::check(!r.next(), "extra frame");
}
static const int ROWS = 2;
struct Cfg { bool swap, asDouble; int type; };
static Cfg cfg(int type) {
    Cfg c; c.swap = sym::flag(); c.asDouble = true; c.type = type;
    if (type == T_INT || type == T_BITFIELD) { c.asDouble = sym::flag(); }
    Settings::treatIntegersAsDoubles(c.asDouble);
    return c;
}
static FFrame two(Cfg& g, FCol x) {
    FFrame f(g.swap);
    f.rows = ROWS;
    f.cols.push_back(x);
    f.cols.push_back(fcol("k", T_INT, "int8", 10, 265));
    return f;
}
static void checkInt(Cfg& g, uint64_t cell, double want) {
    if (g.asDouble) sym::check(dbl(cell) == want, "integer codec: decoded value differs from the documented one");
    else sym::check((int64_t)cell == (int64_t)want, "integer codec: decoded value differs from the documented one");
}
enum IK { I8, I16, I32, I8M, I16M, COM };
static void intcodec(IK k, int type) {
    static const char* nm[] = {"int8", "int16", "int32", "int8_missing", "int16_missing", "constant_or_missing"};
    Cfg g = cfg(type);
    int32_t mn = sym::any<int32_t>(), miss = sym::any<int32_t>();
    sym::assume(mn > -2000000000 && mn < 2000000000);
    FFrame f = two(g, fcol("x", type, nm[k], mn, mn, miss, k >= I8M));
    if (type == T_BITFIELD) { f.cols[0].bfNames = {"a", "b"}; f.cols[0].bfSizes = {1, 2}; }
    std::vector<uint8_t> kr;
    std::vector<double> want;
    for (int i = 0; i < ROWS; i++) {
        f.data.marker(0);
        if (k == I8 || k == I8M || k == COM) {
            uint8_t b = sym::any<uint8_t>(); f.data.u8(b);
            want.push_back(k != I8 && b == 0xff ? (double)miss : (double)mn + b);
        } else if (k == I32) {
            int32_t b = sym::any<int32_t>(); f.data.i32(b); want.push_back(b);
        } else {
            uint16_t b = sym::any<uint16_t>(); f.data.u16(b);
            want.push_back(k == I16M && b == 0xffff ? (double)miss : (double)mn + b);
        }
        kr.push_back(sym::any<uint8_t>()); f.data.u8(kr.back());
    }
    std::vector<uint64_t> x;
    read2(f, g.asDouble, x, kr);
    for (int i = 0; i < ROWS; i++) checkInt(g, x[i], want[i]);
    sym::reach("done");
}
SYM_CASE(int8) { intcodec(I8, T_INT); }
SYM_CASE(int16) { intcodec(I16, T_INT); }
SYM_CASE(int32) { intcodec(I32, T_INT); }
SYM_CASE(int8_missing) { intcodec(I8M, T_INT); }
SYM_CASE(int16_missing) { intcodec(I16M, T_INT); }
SYM_CASE(constant_or_missing) { intcodec(COM, T_INT); }
SYM_CASE(bitfield) { intcodec(sym::flag() ? I16M : I8, T_BITFIELD); }

static void realcodec(int k, int type) {
    static const char* nm[] = {"long_real", "short_real", "short_real2", "real_constant_or_missing", "constant"};
    Cfg g = cfg(type);
    double miss = sym::any<double>(), mn = sym::any<double>();
    sym::assume(mn == mn);
    FFrame f = two(g, fcol("x", type, nm[k], mn, mn, miss, 1));
    std::vector<uint8_t> kr;
    std::vector<double> want;
    for (int i = 0; i < ROWS; i++) {
        f.data.marker(0);
        if (k == 0) { double v = sym::any<double>(); f.data.f64(v); want.push_back(v); }
        else if (k == 3) { uint8_t b = sym::flag() ? 0xff : 0; f.data.u8(b); want.push_back(b ? miss : mn); }
        else if (k == 4) want.push_back(mn);
        else {
            float v = sym::any<float>(); f.data.f32(v);
            want.push_back(v == (k == 1 ? SR1 : SR2) ? miss : (double)v);
        }
        kr.push_back(sym::any<uint8_t>()); f.data.u8(kr.back());
    }
    std::vector<uint64_t> x;
    read2(f, true, x, kr);
    for (int i = 0; i < ROWS; i++) sym::check(sameNum(dbl(x[i]), want[i]), "real codec: decoded value differs from the documented one");
    sym::reach("done");
}
SYM_CASE(long_real) { realcodec(0, T_DOUBLE); }
SYM_CASE(short_real) { realcodec(1, T_REAL); }
SYM_CASE(short_real2) { realcodec(2, T_REAL); }
SYM_CASE(real_constant_or_missing) { realcodec(3, sym::flag() ? T_REAL : T_DOUBLE); }
SYM_CASE(constant) { realcodec(4, T_DOUBLE); }
SYM_CASE(constant_int) {
    Cfg g = cfg(T_INT);
    int32_t mn = sym::any<int32_t>();
    FFrame f = two(g, fcol("x", T_INT, "constant", mn, mn, 2147483647));
    std::vector<uint8_t> kr;
    for (int i = 0; i < ROWS; i++) { f.data.marker(0); kr.push_back(sym::any<uint8_t>()); f.data.u8(kr.back()); }
    std::vector<uint64_t> x;
    read2(f, g.asDouble, x, kr);
    for (int i = 0; i < ROWS; i++) checkInt(g, x[i], mn);
    sym::reach("done");
}
static std::string cell(const Dec& d, size_t r) {
    const char* p = (const char*)&d.v[0][r * d.w[0]];
    return std::string(p, strnlen(p, 8 * d.w[0]));
}
// strings: kind 0 chars, 1 constant_string, 2 int8_string, 3 int16_string, 4 long_constant_string
static void strcodec(int kind) {
    static const char* nm[] = {"chars", "constant_string", "int8_string", "int16_string", "long_constant_string"};
    Cfg g = cfg(T_STRING);
    FCol x = fcol("x", T_STRING, nm[kind]);
    std::vector<std::string> table = {"alpha", "be", "charlie-is-long", ""};
    char c3[3];
    sym::bytes(c3, 3);
    if (kind == 1) { memcpy(x.cchars, "zyxwvuts", 8); memcpy(x.cchars + 2, c3, 3); }
    if (kind == 4) { x.longConst = std::string("long constant st"); memcpy(&x.longConst[6], c3, 3); for (char c : c3) sym::assume(c != 0); }
    if (kind == 2 || kind == 3) {
        memcpy(&table[1][0], c3, 2);
        sym::assume(c3[0] != 0 && c3[1] != 0);
        x.strings = table;
        x.index = {2, 0, 3, 1};                 // stored order need not be the index order
    }
    FFrame f = two(g, x);
    std::vector<uint8_t> kr;
    std::vector<std::string> want;
    for (int i = 0; i < ROWS; i++) {
        f.data.marker(0);
        if (kind == 0) { char b[8]; memcpy(b, "qwertyui", 8); sym::bytes(b + 5, 3); f.data.raw(b, 8); want.push_back(std::string(b, strnlen(b, 8))); }
        else if (kind == 2 || kind == 3) {
            uint8_t ix = sym::any<uint8_t>(); sym::assume(ix < 4);
            kind == 2 ? f.data.u8(ix) : f.data.u16(ix);
            std::string w;
            for (int j = 0; j < 4; j++) if (x.index[j] == ix) w = table[j];
            want.push_back(w);
        }
        else if (kind == 1) want.push_back(std::string(x.cchars, strnlen(x.cchars, 8)));
        else want.push_back(x.longConst);
        kr.push_back(sym::any<uint8_t>()); f.data.u8(kr.back());
    }
    Mem m(f.bytes());
    m.openForRead();
    Reader r(m);
    Frame fr = r.next();
    sym::check(!!fr && fr.rowCount() == (size_t)ROWS, "frame shape");
    Dec d(fr, {"x", "k"}), e(fr, {"k"});
    for (int i = 0; i < ROWS; i++) {
        sym::check(cell(d, i) == want[i], "string codec: decoded value differs from the documented one");
        sym::check(d.getD(1, i) == kr[i] + 10 && e.getD(0, i) == kr[i] + 10, "column after the codec decoded wrongly");
    }
    sym::reach("done");
}
SYM_CASE(chars) { strcodec(0); }
SYM_CASE(constant_string) { strcodec(1); }
SYM_CASE(int8_string) { strcodec(2); }
SYM_CASE(int16_string) { strcodec(3); }
SYM_CASE(long_constant_string) { strcodec(4); }

// ---- encode(): exactly the documented bytes, pointer advanced by exactly the documented size -----------------
template <class BO> static void encodeOne(int k, bool asDouble, bool swap) {
    using namespace odc::core;
    static const char* nm[] = {"int8", "int16", "int32", "int8_missing", "int16_missing", "constant_or_missing", "long_real", "short_real", "short_real2", "constant"};
    ColumnType t = k < 6 || k == 9 ? INTEGER : (k == 6 ? DOUBLE : REAL);
    auto c = CodecFactory::instance().build<BO>(nm[k], t);
    Bytes want; want.swap = swap;
    double cell = 0;
    auto setInt = [&](int64_t v) { if (asDouble) cell = (double)v; else memcpy(&cell, &v, 8); };
    if (k <= 5) {
        int32_t mn = sym::any<int32_t>(), v = sym::any<int32_t>(), miss = sym::any<int32_t>();
        sym::assume(mn > -2000000000 && mn < 2000000000);
        int64_t off = (int64_t)v - mn;
        c->missingValue(miss);
        c->min(mn); c->max(mn);
        setInt(v);
        if (k == 0) { sym::assume(off >= 0 && off <= 255); want.u8((uint8_t)off); }
        if (k == 1) { sym::assume(off >= 0 && off <= 65535); want.u16((uint16_t)off); }
        if (k == 2) want.i32(v);
        if (k == 3 || k == 5) { sym::assume(v == miss || (off >= 0 && off < 255)); want.u8(v == miss ? 0xff : (uint8_t)off); }
        if (k == 4) { sym::assume(v == miss || (off >= 0 && off < 65535)); want.u16(v == miss ? 0xffff : (uint16_t)off); }
    } else if (k == 6) { cell = sym::any<double>(); want.f64(cell); }
    else if (k <= 8) {
        double miss = sym::any<double>();
        cell = sym::any<double>();
        sym::assume(miss == miss);
        float s = (float)cell, im = k == 7 ? SR1 : SR2;
        sym::assume(cell == miss || s != im);
        sym::assume(s == s);
        c->missingValue(miss);
        want.f32(cell == miss ? im : s);
    } else { cell = sym::any<double>(); c->min(cell); }
    unsigned char out[16];
    memset(out, 0x5a, sizeof out);
    unsigned char* e = c->encode(out, cell);
    sym::check(e == out + want.size(), "encode advanced by the wrong number of bytes");
    sym::check(memcmp(out, want.v.data(), want.size()) == 0, "encode wrote other bytes than documented");
    for (size_t i = want.size(); i < sizeof out; i++) sym::check(out[i] == 0x5a, "encode wrote past its value");
    // and back, through the same codec
    DataStream<BO> ds(out, want.size());
    c->setDataStream(ds);
    double back = 0;
    c->decode(&back);
    if (k <= 5) sym::check(bits(back) == bits(cell) || (asDouble && back == cell), "decode(encode(v)) != v");
    if (k == 6) sym::check(bits(back) == bits(cell), "decode(encode(v)) != v");
    sym::check((size_t)(long long)ds.position() == want.size(), "decode consumed the wrong number of bytes");
    DataStream<BO> ds2(out, want.size());
    c->setDataStream(ds2);
    c->skip();
    sym::check((size_t)(long long)ds2.position() == want.size(), "skip consumed the wrong number of bytes");
    sym::reach("done");
}
static void enc(int k) {
    bool sw = sym::flag(), asD = k < 6 ? sym::flag() : true;
    Settings::treatIntegersAsDoubles(asD);
    sw ? encodeOne<odc::core::OtherByteOrder>(k, asD, true) : encodeOne<odc::core::SameByteOrder>(k, asD, false);
}
SYM_CASE(enc_int8) { enc(0); }
SYM_CASE(enc_int16) { enc(1); }
SYM_CASE(enc_int32) { enc(2); }
SYM_CASE(enc_int8_missing) { enc(3); }
SYM_CASE(enc_int16_missing) { enc(4); }
SYM_CASE(enc_constant_or_missing) { enc(5); }
SYM_CASE(enc_long_real) { enc(6); }
SYM_CASE(enc_short_real) { enc(7); }
SYM_CASE(enc_short_real2) { enc(8); }
