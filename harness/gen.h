// Files of 1-2 frames with columns of every kind, in either byte order, with the rows they hold
#pragma once
#include "odbfile.h"
namespace hs {
// one row: name -> value (strings apart)
struct V { int type = T_INT; double d = 0; std::string s; bool missing = false; const char* member = "x"; };
typedef std::vector<std::pair<std::string, V>> GRow;
// frames of: i (int), s (string, possibly wide), d (double), b (bitfield), k (constant int), n (constant string of up to 8), l (long constant)
static const char* WORDS[] = {"one", "exactly8", "nine char", "sixteen bytes!!!", "a string of more than 16"};
struct Gen {
    std::string suffix;              // appended to the names
    bool wide = true, swap = false, constants = true, symbolic = true;
    int order = 0;                   // 1: columns in another order
    std::vector<char> file;
    std::vector<GRow> rows;
    int cell = 0;
    int missCell = -1;
    std::map<std::string, std::string> props;   // of each frame
    double mdi = -1;        // missing value of i
    const char* member = "x";  // of the bitfield: {member, y}
    bool two = false;       // a second string column, t
    bool honest = true;     // columns flagged as having missing values have some
    void frame(int n, int maxWord) {
        FFrame f(swap);
        f.rows = n;
        f.props = props;
        FCol s = fcol("s" + suffix, T_STRING, swap ? "int16_string" : "int8_string");
        for (int k = 0; k <= maxWord; k++) s.strings.push_back(WORDS[k]);
        FCol b = fcol("b" + suffix, T_BITFIELD, "int8", 0, 255, 2147483647); b.bfNames = {member, "y"}; b.bfSizes = {1, 3};
        FCol i = fcol("i" + suffix, T_INT, "int8_missing", 100, 354, mdi, 1);
        FCol d = fcol("d" + suffix, T_DOUBLE, "long_real", 0, 0, -2.5, 0);
        FCol k = fcol("k" + suffix, T_INT, "constant", 42, 42, -9);
        FCol nn = fcol("n" + suffix, T_STRING, "constant_string"); memcpy(nn.cchars, "short", 5);
        FCol l = fcol("l" + suffix, T_STRING, "long_constant_string"); l.longConst = "a long constant string";
        std::vector<FCol> all = order ? std::vector<FCol>{d, s, i, b} : std::vector<FCol>{i, s, d, b};
        if (two) { FCol t = s; t.name = "t" + suffix; all.push_back(t); }
        if (constants) { all.push_back(k); all.push_back(nn); all.push_back(l); }
        f.cols = all;
        for (int r = 0; r < n; r++) {
            GRow row;
            f.data.marker(0);
            for (auto& c : all) {
                V v; v.type = c.type; v.member = member;
                switch (c.name[0]) {
                    case 'i': { uint8_t x = cell < 1 && symbolic ? sym::any<uint8_t>() : cell == missCell ? 255 : (uint8_t)(7 * cell + 3); f.data.u8(x); v.missing = x == 255; v.d = v.missing ? mdi : 100 + (double)x; break; }
                    case 's': { int w = wide ? sym::choice(0, maxWord) : (cell * 3) % (maxWord + 1); if (swap) f.data.u16(w); else f.data.u8(w); v.s = WORDS[w]; break; }
                    case 't': { int w = maxWord - cell % 2; if (w < 0) w = 0; if (swap) f.data.u16(w); else f.data.u8(w); v.s = WORDS[w]; break; }
                    case 'd': { double x = 0.25 * cell - 1; f.data.f64(x); v.d = x; break; }
                    case 'b': { uint8_t x = cell & 15; f.data.u8(x); v.d = x; break; }
                    case 'k': v.d = 42; break;
                    case 'n': v.s = "short"; break;
                    case 'l': v.s = "a long constant string"; break;
                }
                row.push_back({c.name, v});
            }
            cell++;
            rows.push_back(row);
        }
        bool some = false;
        for (int r = 0; r < n; r++) for (auto& kv : rows[rows.size() - 1 - r]) some |= kv.second.missing;
        honest &= some;
        append(file, f.bytes());
    }
};
}  // namespace hs
