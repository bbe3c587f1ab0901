// C18: importing text yields exactly the rows of the text
#include "enc.h"
#include <istream>
#include <streambuf>
#include "odc/Reader.h"
#include "odc/core/MetaData.h"
#include "odc/csv/TextReader.h"
#include "odc/csv/TextReaderIterator.h"
using namespace hs;
typedef std::vector<char> T;

struct Src : std::streambuf {
    T t;
    explicit Src(const T& x) : t(x) { setg(t.data(), t.data(), t.data() + t.size()); }
};
static void add(T& t, const std::string& s) { t.insert(t.end(), s.begin(), s.end()); }
static void str(T& t, const std::vector<char>& s) { t.insert(t.end(), s.begin(), s.end()); }

struct Cell { bool null = false; double v = 0; std::vector<char> s; };
typedef std::vector<Cell> Row;
enum Kind { I, R, D, B, S };

// what the reader makes of the text: rows, or an exception
struct Got { bool refused = false; size_t rows = 0; };
template <class IT>
static void checkRow(IT& it, const std::vector<Kind>& k, const Row& w, bool file = false) {
    sym::check(it->columns().size() == k.size(), "number of columns");
    for (size_t c = 0; c < k.size(); c++) {
        auto* col = it->columns()[c];
        if (k[c] == S) {
            std::string got = it->string(c);
            if (w[c].null) sym::check(got.empty(), "NULL string");
            else {
                size_t n = 0;
                while (n < w[c].s.size() && w[c].s[n]) n++;
                sym::check(got.size() == n, "length of a string");
                for (size_t j = 0; j < n; j++) sym::check(got[j] == w[c].s[j], "character of a string");
            }
        }
        else if (w[c].null) sym::check((!file || it->isMissing(c)) && it->data(c) == col->missingValue(), "NULL is not the missing value");
        else sym::check(it->data(c) == w[c].v, "value of a field");
    }
}
static void textReader(const T& t, const std::string& delim, const std::vector<Kind>& k, const std::vector<Row>& want, bool refuse = false) {
    Src sb(t);
    std::istream in(&sb);
    size_t n = 0;
    bool refused = false;
    try {
        odc::TextReader rd(in, delim);
        auto it = rd.begin();
        size_t width = 0;
        for (; it != rd.end(); ++it, ++n) {
            sym::check(n < want.size(), "more rows than data lines");
            size_t ww = 0;
            for (auto* c : it->columns()) ww = ww * 8 + c->dataSizeDoubles();
            if (n && ww != width) sym::check(it->isNewDataset(), "strings become longer unannounced");
            width = ww;
            checkRow(it, k, want[n]);
        }
    } catch (std::exception&) { refused = true; }
    sym::check(refused == refuse, refuse ? "a malformed line was accepted" : "a well-formed text was refused");
    if (!refuse) sym::check(n == want.size(), "a data line is missing");
    sym::reach("done");
}
static void import(const T& t, const std::string& delim, const std::vector<Kind>& k, const std::vector<Row>& want) {
    Src sb(t);
    std::istream in(&sb);
    Mem m;
    m.openForWrite(0);
    size_t n = odc::api::odbFromCSV(in, m, delim);
    sym::check(n == want.size(), "number of imported lines");
    Mem r(m.d);
    r.openForRead();
    odc::Reader rd(r);
    auto end = rd.end();
    size_t i = 0;
    for (auto it = rd.begin(); it != end; ++it, ++i) {
        sym::check(i < want.size(), "more rows in the file than data lines");
        checkRow(it, k, want[i], true);
    }
    sym::check(i == want.size(), "an imported row is missing");
    sym::reach("done");
}

// a decimal field of 1..maxDigits symbolic digits
static bool concreteNumbers = false, concreteText = false;
static Cell number(T& t, int minDigits, int maxDigits, bool sign) {
    Cell c;
    if (concreteNumbers) { static const char* N[] = {"3", "70000", "-1"}; int k = sym::choice(0, sign ? 2 : 1); add(t, N[k]); c.v = atof(N[k]); return c; }
    bool neg = sign && sym::flag();
    if (neg) t.push_back('-');
    int n = sym::choice(minDigits, maxDigits);
    long v = 0;
    for (int i = 0; i < n; i++) {
        uint8_t d = sym::any<uint8_t>();
        sym::assume(d <= 9);
        t.push_back((char)('0' + d));
        v = v * 10 + d;
    }
    c.v = (double)(neg ? -v : v);
    return c;
}
// a string field: n symbolic characters, quoted or not
static Cell text(T& t, int n, int quote, char delim) {
    Cell c;
    if (quote) t.push_back(quote == 1 ? '\'' : '"');
    for (int i = 0; i < n; i++) {
        char ch = concreteNumbers && (i != n / 2 || concreteText) ? 'x' : (char)sym::any<uint8_t>();
        sym::assume((ch != '\n') & (ch != delim) & (ch != 0));
        if (!quote && (i == 0 || i == n - 1)) sym::assume((ch != ' ') & (ch != '\t') & (ch != '\'') & (ch != '"') & (ch != 'n') & (ch != 'N'));
        if (0) { if (i == 0 || i == n - 1) sym::assume(ch != ' ' && ch != '\t' && ch != '\'' && ch != '"'); if (i == 0) sym::assume(ch != 'n' && ch != 'N'); }
        t.push_back(ch);
        c.s.push_back(ch);
    }
    if (quote) t.push_back(quote == 1 ? '\'' : '"');
    return c;
}
static Cell concrete(T& t, const std::string& s, double v) { add(t, s); Cell c; c.v = v; return c; }
static Cell null(T& t) { static const char* W[] = {"NULL", "null", "NuLL"}; add(t, W[sym::choice(0, 2)]); Cell c; c.null = true; return c; }

SYM_CASE(ints) {
    T t;
    add(t, "a:INTEGER,b:INTEGER\n");
    std::vector<Row> w;
    int n = sym::choice(1, 2);
    for (int r = 0; r < n; r++) {
        Row row;
        row.push_back(number(t, 1, 2, true));
        if (sym::flag()) add(t, " ");
        add(t, ",");
        row.push_back(number(t, 1, 2, r == 0));
        add(t, "\n");
        w.push_back(row);
    }
    textReader(t, ",", {I, I}, w);
}
SYM_CASE(long_ints) {
    T t;
    add(t, "a:INTEGER,b:BITFIELD[x:20;y:11]\n");
    Row row;
    row.push_back(number(t, 9, 15, true));
    add(t, ",");
    row.push_back(number(t, 9, 9, false));
    textReader(t, ",", {I, B}, {row});
}
static const int LEN[] = {1, 7, 8, 9, 16, 17, 25};
static void strings(int rows, int nlen, bool two, bool file) {
    concreteNumbers = file;
    T t;
    add(t, two ? "s:STRING,a:INTEGER,t@b:STRING,d:DOUBLE\n" : "a:INTEGER,s:STRING\n");
    std::vector<Row> w;
    static const char* DV[] = {"0.25", "-1e300", "17"};
    static const double DD[] = {0.25, -1e300, 17};
    auto field = [&](int r) {
        int k = sym::choice(-2, nlen - 1);
        if (k == -2) return null(t);
        if (k == -1) return text(t, 0, 1, ',');
        if (two && file) { static const int L2[] = {1, 9, 17}; return text(t, L2[k], (r + k) % 3, ','); }
        return text(t, LEN[k], two ? (r + k) % 3 : sym::choice(0, 2), ',');
    };
    for (int r = 0; r < rows; r++) {
        Row row;
        if (two) {
            row.push_back(field(r));
            add(t, ",");
            row.push_back(number(t, 1, 1, false));
            add(t, ",");
            row.push_back(field(r));
            add(t, ",");
            row.push_back(concrete(t, DV[r], DD[r]));
        } else {
            row.push_back(number(t, 1, 1, false));
            add(t, ",");
            row.push_back(field(r));
        }
        add(t, "\n");
        w.push_back(row);
    }
    std::vector<Kind> k = two ? std::vector<Kind>{S, I, S, D} : std::vector<Kind>{I, S};
    if (file) import(t, ",", k, w);
    else textReader(t, ",", k, w);
}
SYM_CASE(strings1) { strings(2, 7, false, false); }
SYM_CASE(strings3) { strings(3, 4, false, false); }
SYM_CASE(strings2) { strings(2, 4, true, false); }

// every bare four-letter word: NULL in any mixture of cases, and only that, is the missing value
SYM_CASE(nullword) {
    T t;
    add(t, "a:INTEGER,s:STRING\n7,");
    Cell c;
    int quote = sym::choice(0, 2);
    if (quote) t.push_back(quote == 1 ? '\'' : '"');
    bool isNull = !quote;
    for (int i = 0; i < 4; i++) {
        char ch = (char)sym::any<uint8_t>();
        sym::assume(ch != 0 && ch != '\n' && ch != ',' && ch != ' ' && ch != '\t' && ch != '\'' && ch != '"');
        isNull = isNull && ((ch | 32) == "null"[i]);
        t.push_back(ch);
        c.s.push_back(ch);
    }
    if (quote) t.push_back(quote == 1 ? '\'' : '"');
    c.null = isNull;
    Cell a;
    a.v = 7;
    textReader(t, ",", {I, S}, {{a, c}});
}
SYM_CASE(nulls) {
    T t;
    add(t, "a:INTEGER,b:REAL,c:DOUBLE,d:BITFIELD[x:3;y:1],e:STRING\n");
    std::vector<Row> w;
    static const char* TX[2][4] = {{"5", "1.5", "-2.25", "9"}, {"-3", "0.5", "1e30", "2"}};
    static const double V[2][4] = {{5, 1.5, -2.25, 9}, {-3, .5, 1e30, 2}};
    for (int r = 0; r < 2; r++) {
        Row row;
        for (int c = 0; c < 5; c++) {
            if (c) add(t, ",");
            if (sym::flag()) { add(t, r ? "NULL" : "null"); Cell x; x.null = true; row.push_back(x); }
            else if (c < 4) row.push_back(concrete(t, TX[r][c], V[r][c]));
            else row.push_back(text(t, 9, 1, ','));
        }
        add(t, "\n");
        w.push_back(row);
    }
    textReader(t, ",", {I, R, D, B, S}, w);
}
// sequences of lines of every kind
static void lines(int n, bool file) {
    concreteNumbers = file;
    T t;
    add(t, "a:INTEGER,b:INTEGER\n");
    std::vector<Row> w;
    bool refuse = false;
    for (int i = 0; i < n; i++) {
        int kind = sym::choice(0, 5);
        if (kind == 0 || kind == 5) {
            Row row;
            if (kind == 5) add(t, " \t");
            row.push_back(number(t, 1, 1, false)); add(t, ","); row.push_back(number(t, 1, 1, true));
            if (kind == 5) add(t, " ");
            if (!refuse) w.push_back(row);
        }
        if (kind == 2) add(t, "  ");
        if (kind == 3) { add(t, "4"); refuse = true; }
        if (kind == 4) { add(t, "1,2,3"); refuse = true; }
        if (i + 1 < n || sym::flag()) add(t, "\n");
    }
    if (file) { sym::assume(!refuse); import(t, ",", {I, I}, w); }
    else textReader(t, ",", {I, I}, w, refuse);
}
SYM_CASE(lines3) { lines(3, false); }
SYM_CASE(lines4) { lines(4, false); }

// any bytes at all as data, against an independent reading of them
static void anyText(int nb) {
    T t;
    add(t, "s:STRING,u:STRING\n");
    int n = sym::choice(0, nb);
    std::vector<char> b(n);
    sym::bytes((uint8_t*)b.data(), n);
    for (char c : b) sym::assume(c != 0);
    str(t, b);
    std::vector<Row> w;
    bool refuse = false;
    size_t i = 0;
    auto sp = [](char c) { return c == ' ' || c == '\t'; };
    while (i < b.size() && !refuse) {
        size_t e = i;
        while (e < b.size() && b[e] != '\n') e++;
        size_t f = i, l = e;
        i = e + 1;
        while (f < l && sp(b[f])) f++;
        while (l > f && sp(b[l - 1])) l--;
        std::vector<std::pair<size_t, size_t>> fs;
        for (size_t p = f; p < l;) {
            size_t q = p;
            while (q < l && b[q] != ',') q++;
            if (q > p) fs.push_back({p, q});
            p = q + 1;
        }
        if (fs.empty()) continue;
        if (fs.size() != 2) { refuse = true; break; }
        Row row;
        for (auto& x : fs) {
            size_t p = x.first, q = x.second;
            while (p < q && sp(b[p])) p++;
            while (q > p && sp(b[q - 1])) q--;
            Cell c;
            if (q - p == 4 && (b[p] | 32) == 'n' && (b[p + 1] | 32) == 'u' && (b[p + 2] | 32) == 'l' && (b[p + 3] | 32) == 'l') c.null = true;
            if (q - p > 1 && b[p] == b[q - 1] && (b[p] == '\'' || b[p] == '"')) { p++; q--; }
            c.s.assign(b.begin() + p, b.begin() + q);
            row.push_back(c);
        }
        w.push_back(row);
    }
    textReader(t, ",", {S, S}, w, refuse);
}
SYM_CASE(any5) { anyText(5); }
SYM_CASE(any6) { anyText(6); }
SYM_CASE(any7) { anyText(7); }

// any delimiter
SYM_CASE(delimiter) {
    char d = (char)sym::any<uint8_t>();
    sym::assume(d != 0 && d != '\n' && d != ':' && d != ';' && d != '[' && d != ']' && d != '-' && d != '\'' && !(d >= '0' && d <= '9') && !((d | 32) >= 'a' && (d | 32) <= 'z'));
    std::string dl(1, d);
    T t;
    add(t, "a:INTEGER"); t.push_back(d); add(t, "s:STRING"); t.push_back(d); add(t, "b:BITFIELD[x:1;y:2]\n");
    std::vector<Row> w;
    for (int r = 0; r < 2; r++) {
        Row row;
        row.push_back(number(t, 1, 1, true)); t.push_back(d);
        row.push_back(text(t, 3, 1, d)); t.push_back(d);
        row.push_back(number(t, 1, 1, false));
        add(t, "\n");
        w.push_back(row);
    }
    textReader(t, dl, {I, S, B}, w);
}
// the header: names, types in any mixture of cases, surrounding blanks
SYM_CASE(header) {
    static const char* TY[] = {"INTEGER", "REAL", "DOUBLE", "STRING"};
    static const odc::api::ColumnType CT[] = {odc::api::INTEGER, odc::api::REAL, odc::api::DOUBLE, odc::api::STRING};
    T t;
    int n = sym::choice(1, 2);
    std::vector<std::string> nm;
    std::vector<int> ty;
    for (int c = 0; c < n; c++) {
        if (c) add(t, ",");
        if (!c && sym::flag()) add(t, " ");
        std::string name;
        int l = sym::choice(1, n == 1 ? 3 : 1);
        for (int i = 0; i < l; i++) {
            char ch = (char)sym::any<uint8_t>();
            sym::assume(ch != 0 && ch != '\n' && ch != ',' && ch != ':' && ch != ' ' && ch != '\t');
            name.push_back(ch);
        }
        add(t, name);
        if (!c && sym::flag()) add(t, " ");
        add(t, ":");
        int k = sym::choice(0, 3);
        std::string w = TY[k];
        int style = sym::choice(0, 2);
        for (size_t i = 0; i < w.size(); i++) t.push_back((char)(w[i] | (style == 1 || (style == 2 && i % 2) ? 32 : 0)));
        nm.push_back(name);
        ty.push_back(k);
    }
    add(t, "\n");
    Src sb(t);
    std::istream in(&sb);
    odc::TextReader rd(in, ",");
    auto it = rd.begin();
    sym::check(!(it != rd.end()), "a row without a data line");
    sym::check(it->columns().size() == (size_t)n, "number of columns");
    for (int c = 0; c < n; c++) {
        std::string got = it->columns()[c]->name();
        sym::check(got.size() == nm[c].size(), "length of a column name");
        for (size_t j = 0; j < got.size(); j++) sym::check(got[j] == nm[c][j], "column name");
        sym::check(it->columns()[c]->type() == CT[ty[c]], "column type");
    }
    sym::reach("done");
}
// a type that is not known is refused
SYM_CASE(badtype) {
    T t;
    add(t, "a:");
    std::string w;
    for (int i = 0; i < 4; i++) { char ch = (char)sym::any<uint8_t>(); sym::assume(ch != 0 && ch != '\n' && ch != ','); t.push_back(ch); w.push_back(ch); }
    add(t, "\n1\n");
    bool real = (w[0] | 32) == 'r' && (w[1] | 32) == 'e' && (w[2] | 32) == 'a' && (w[3] | 32) == 'l';
    sym::assume(!real);
    textReader(t, ",", {I}, {}, true);
}
// bitfield definitions: positive sizes of up to 31 bits in all, distinct names, or refused
SYM_CASE(bitfields) {
    T t;
    add(t, "b:BITFIELD[");
    int n = sym::choice(1, 3);
    std::vector<std::string> nm;
    std::vector<long> size;
    bool ok = true;
    long sum = 0;
    for (int i = 0; i < n; i++) {
        if (i) add(t, ";");
        char ch = (char)sym::any<uint8_t>();
        sym::assume(ch == '_' || ((ch | 32) >= 'a' && (ch | 32) <= 'z'));
        for (auto& o : nm) if (o[0] == ch) ok = false;
        nm.push_back(std::string(1, ch));
        t.push_back(ch);
        add(t, ":");
        Cell c = number(t, 1, n == 3 ? 1 : 2, n < 3);
        size.push_back((long)c.v);
        if (c.v <= 0) ok = false;
        sum += (long)c.v;
    }
    if (sum > 31) ok = false;
    add(t, "]\n");
    Cell v = number(t, 1, 1, false);
    Src sb(t);
    std::istream in(&sb);
    bool refused = false;
    try {
        odc::TextReader rd(in, ",");
        auto it = rd.begin();
        sym::check(ok, "a bitfield definition that is not valid was accepted");
        sym::check(it != rd.end() && it->data(0) == v.v, "bitfield value");
        const eckit::sql::BitfieldDef& d = it->columns()[0]->bitfieldDef();
        sym::check(d.first.size() == (size_t)n && d.second.size() == (size_t)n, "number of bitfield members");
        for (int i = 0; i < n; i++) {
            sym::check(d.first[i].size() == 1 && d.first[i][0] == nm[i][0], "name of a bitfield member");
            sym::check(d.second[i] == size[i], "size of a bitfield member");
        }
    } catch (std::exception&) { refused = true; }
    sym::check(!ok || !refused, "a valid bitfield definition was refused");
    sym::reach("done");
}
SYM_CASE(bitfield_syntax) {
    static const char* BAD[] = {"b:BITFIELD", "b:BITFIELD[x:1", "b:BITFIELDx:1]", "b:BITFIELD]x:1[", "b:BITFIELD[x]", "b:BITFIELD[x:1:2]", "b:BITFIELD[x:1;x:1]", "b:BITFIELD[:1]", "b:BITFIELD[x:]"};
    T t;
    add(t, BAD[sym::choice(0, 8)]);
    add(t, "\n1\n");
    textReader(t, ",", {B}, {}, true);
}
// through odbFromCSV into a file and back
SYM_CASE(file_strings) { strings(2, 5, false, true); }
SYM_CASE(file_strings3) { strings(3, 4, false, true); }
SYM_CASE(file_two) { strings(2, 3, true, true); }
// two columns of strings that become longer one after the other, or together
static void grow(bool file) {
    concreteNumbers = true;
    T t;
    add(t, "s:STRING,a:INTEGER,t@b:STRING\n");
    static const int L[] = {2, 9, 17};
    std::vector<Row> w;
    for (int r = 0; r < 3; r++) {
        Row row;
        concreteText = file && r != 1;
        row.push_back(text(t, L[sym::choice(0, 2)], 0, ','));
        add(t, ",");
        row.push_back(concrete(t, "4", 4));
        add(t, ",");
        concreteText = file;
        row.push_back(text(t, L[sym::choice(0, 2)], 1, ','));
        add(t, "\n");
        w.push_back(row);
    }
    if (file) import(t, ",", {S, I, S}, w);
    else textReader(t, ",", {S, I, S}, w);
}
SYM_CASE(grow) { grow(false); }
SYM_CASE(file_grow) { grow(true); }
SYM_CASE(file_lines) { lines(3, true); }
SYM_CASE(file_ints) {
    concreteNumbers = true;
    T t;
    add(t, "a:INTEGER,b:REAL,c:DOUBLE\n");
    std::vector<Row> w;
    for (int r = 0; r < 2; r++) {
        Row row;
        if (sym::flag()) row.push_back(null(t)); else row.push_back(number(t, 3, 3, true));
        add(t, ",");
        if (sym::flag()) row.push_back(null(t)); else row.push_back(concrete(t, r ? "0.1" : "-5", r ? (double)0.1f : -5));
        add(t, ",");
        if (sym::flag()) row.push_back(null(t)); else row.push_back(concrete(t, r ? "0.1" : "1e300", r ? 0.1 : 1e300));
        add(t, "\n");
        w.push_back(row);
    }
    import(t, ",", {I, R, D}, w);
}
