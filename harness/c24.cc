// C24: the legacy C interface (odb_*): reading, writing and selecting row by row, blocks, counts
#include "memfs.h"
#include "sqlmini.h"
#include "gen.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/core/MetaData.h"
#include "odc/odccapi.h"
#include "odc/sql/TODATable.h"
using namespace hs;
static const double MDI_I = 2147483647.;
static const size_t BUF = 64;

struct RdApi {
    void* it;
    int cols() { int n = -1; sym::check(odb_read_iterator_get_no_of_columns(it, &n) == 0, "rc"); return n; }
    int size(int c) { int n = -1; odb_read_iterator_get_column_size_doubles(it, c, &n); return n; }
    int offset(int c) { int n = -1; odb_read_iterator_get_column_offset(it, c, &n); return n; }
    int type(int c) { int n = -1; odb_read_iterator_get_column_type(it, c, &n); return n; }
    int rowSize() { int n = -1; odb_read_iterator_get_row_buffer_size_doubles(it, &n); return n; }
    double missing(int c) { double v = -77; odb_read_iterator_get_missing_value(it, c, &v); return v; }
    std::string name(int c) { char* p = nullptr; int n = -1; odb_read_iterator_get_column_name(it, c, &p, &n); return std::string(p, n); }
    void bits(int c, std::string& a, std::string& b) { char *x, *y; int n, m; odb_read_iterator_get_bitfield(it, c, &x, &y, &n, &m); a.assign(x, n); b.assign(y, m); sym::check((int)strlen(x) == n && (int)strlen(y) == m, "lengths of the bitfield strings"); free(x); free(y); }
    int next(int n, double* d, int* nd) { return odb_read_iterator_get_next_row(it, n, d, nd); }
};
struct SelApi {
    void* it;
    int cols() { int n = -1; sym::check(odb_select_iterator_get_no_of_columns(it, &n) == 0, "rc"); return n; }
    int size(int c) { int n = -1; odb_select_iterator_get_column_size_doubles(it, c, &n); return n; }
    int offset(int c) { int n = -1; odb_select_iterator_get_column_offset(it, c, &n); return n; }
    int type(int c) { int n = -1; odb_select_iterator_get_column_type(it, c, &n); return n; }
    int rowSize() { int n = -1; odb_select_iterator_get_row_buffer_size_doubles(it, &n); return n; }
    double missing(int c) { double v = -77; odb_select_iterator_get_missing_value(it, c, &v); return v; }
    std::string name(int c) { char* p = nullptr; int n = -1; odb_select_iterator_get_column_name(it, c, &p, &n); return std::string(p, n); }
    void bits(int c, std::string& a, std::string& b) { char *x, *y; int n, m; odb_select_iterator_get_bitfield(it, c, &x, &y, &n, &m); a.assign(x, n); b.assign(y, m); free(x); free(y); }
    int next(int n, double* d, int* nd) { return odb_select_iterator_get_next_row(it, n, d, nd); }
};

// what the interface says about the columns, and the row it has put into d
template <class A>
static void checkRow(A& a, const GRow& w, const double* d, bool ownMissing) {
    sym::check(a.cols() == (int)w.size(), "number of columns");
    int at = 0;
    for (size_t c = 0; c < w.size(); c++) {
        const V& v = w[c].second;
        sym::check(a.name(c) == w[c].first, "name of a column");
        sym::check(a.type(c) == v.type, "type of a column");
        sym::check(a.offset(c) == at, "offset of a column");
        int n = a.size(c);
        sym::check(n >= 1 && at + n <= (int)BUF, "size of a column");
        if (v.type == T_STRING) sym::check(std::string((const char*)(d + at), strnlen((const char*)(d + at), 8 * n)) == v.s, "string");
        else {
            double m = a.missing(c);
            if (ownMissing && w[c].first == "i") sym::check(m == -1, "missing value of a column");
            sym::check(d[at] == (v.missing ? m : v.d), "value");
        }
        if (v.type == T_BITFIELD) {
            std::string x, y;
            a.bits(c, x, y);
            sym::check(x == "x:y:", "names of a bitfield");
            sym::check(y == "1:3:", "sizes of a bitfield");
        }
        at += n;
    }
    sym::check(a.rowSize() == at, "size of a row");
}
template <class A>
static void badIndex(A& a) {
    for (int c : {-1, a.cols(), a.cols() + 1}) {
        bool thrown = false;
        try { a.missing(c); } catch (std::exception&) { thrown = true; }
        sym::check(thrown, "the missing value of a column that is not there");
    }
}

static void gen2(Gen& g, std::vector<size_t>& starts, bool constants) {
    g.constants = constants;
    g.wide = false;
    for (int f = 0; f < 2; f++) {
        g.swap = sym::flag(); g.order = f && sym::flag(); g.missCell = f && sym::flag() ? 2 : -1;
        starts.push_back(g.rows.size());
        g.frame(f ? sym::choice(1, 2) : 2, sym::choice(0, 4));
    }
}
// rows, columns and frames as stored; a row that is asked for with the wrong number of columns is refused
SYM_CASE(read) {
    memfs::reset();
    Gen g;
    std::vector<size_t> starts;
    gen2(g, starts, sym::flag());
    memfs::files()["in"].reset(new std::vector<char>(g.file));
    int err = -1;
    void* oh = odb_read_create("", &err);
    sym::check(err == 0, "odb_read_create failed");
    RdApi none{odb_create_read_iterator(oh, "none", &err)};
    sym::check(err != 0 && !none.it, "a file that is not there is opened");
    RdApi a{odb_create_read_iterator(oh, "in", &err)};
    sym::check(err == 0 && a.it, "odb_create_read_iterator failed");
    std::vector<double> d(BUF);
    int wrong = sym::choice(0, (int)g.rows.size());
    for (size_t r = 0; r < g.rows.size(); r++) {
        int nd = -1, n = (int)g.rows[r].size();
        bool first = false;
        for (size_t s : starts) first |= s && s == r;      // announced where the layout changes
        if ((int)r == wrong) {
            std::vector<double> keep = d;
            int rc = a.next(sym::flag() ? n - 1 : n + 1, d.data(), &nd);
            sym::check(rc != 0 && rc != 1, "a wrong number of columns is accepted");
            sym::check(memcmp(d.data(), keep.data(), BUF * 8) == 0, "the buffer is written though the number of columns is wrong");
            continue;
        }
        sym::check(a.next(n, d.data(), &nd) == 0, "a row is lost");
        sym::check(nd == (first ? 1 : 0), "the new layout flag");
        checkRow(a, g.rows[r], d.data(), true);
    }
    int nd;
    for (int k = 0; k < 2; k++) sym::check(a.next((int)g.rows.back().size(), d.data(), &nd) == 1, "a row after the last one");
    badIndex(a);
    sym::check(odb_read_iterator_destroy(a.it) == 0 && odb_read_destroy(oh) == 0, "destroy");
    memfs::exit();
    sym::reach("done");
}

SYM_CASE(select) {
    Gen g;
    std::vector<size_t> starts;
    bool grow = false;
    g.constants = g.wide = false;
    int w0 = sym::choice(0, 4), w1 = sym::choice(0, 4);
    static const int WIDTH[] = {1, 1, 2, 2, 3};
    grow = WIDTH[w1] > WIDTH[w0];          // the caller's buffer is sized for the first frame
    g.swap = sym::flag();
    g.frame(2, w0);
    g.swap = sym::flag(); g.order = sym::flag(); g.missCell = sym::flag() ? 2 : -1;
    g.frame(sym::choice(1, 2), w1);
    std::vector<std::string> cols = sym::flag() ? std::vector<std::string>{"s", "b", "i"} : std::vector<std::string>{"d", "i", "s"};
    std::vector<char> keep(g.rows.size());
    for (auto& k : keep) k = sym::flag();
    mini::query().columns = cols;
    mini::query().where = [&keep](size_t r) { return r < keep.size() && keep[r]; };
    Mem in(g.file);
    in.openForRead();
    int err = -1;
    void* oh = odb_select_create("", &err);
    sym::check(err == 0, "odb_select_create failed");
    auto& db = reinterpret_cast<odc::Select*>(oh)->database();
    db.addImplicitTable(new odc::sql::ODATable(db, in));
    SelApi a{odb_create_select_iterator(oh, "select", &err)};
    sym::check(err == 0 && a.it, "odb_create_select_iterator failed");
    size_t room = a.rowSize();
    std::vector<double> d(BUF, 4711);
    bool refused = false;
    int told = -1;             // the frame whose layout has been announced
    for (size_t r = 0; r < g.rows.size() && !refused; r++) {
        if (!keep[r]) continue;
        GRow w;
        for (auto& c : cols) for (auto& kv : g.rows[r]) if (kv.first == c) w.push_back(kv);
        int nd = -1;
        int rc = -1;
        try { rc = a.next(3, d.data(), &nd); } catch (std::exception&) { refused = true; }
        for (size_t k = room; k < BUF; k++) sym::check(d[k] == 4711 || grow, "written past the row's size");
        if (refused) { sym::check(grow && r >= 2, "a row is refused"); break; }
        sym::check(rc == 0, "a row is lost");
        sym::check(nd == (told != (int)(r >= 2)), "the new layout flag of a selected row");
        told = r >= 2;
        checkRow(a, w, d.data(), false);
    }
    int nd;
    if (!refused) {
        for (int k = 0; k < 2; k++) sym::check(a.next(3, d.data(), &nd) == 1, "a row after the last one");
        badIndex(a);
    }
    odb_select_iterator_destroy(a.it);
    odb_select_destroy(oh);
    sym::reach("done");
}

// what is written is read: columns of every type in any order, strings of several words, missing values, bitfields
// given with or without the last colon; appended to an existing file or not
static void writing(bool append) {
    memfs::reset();
    Gen g;
    g.constants = g.wide = false; g.symbolic = false;
    if (append) { g.frame(1, sym::choice(0, 2)); memfs::files()["out"].reset(new std::vector<char>(g.file)); }
    else if (sym::flag()) memfs::files()["out"].reset(new std::vector<char>(20, 'x'));
    int err = -1;
    void* o = odb_writer_create("", &err);
    void* w = append ? odb_create_append_iterator(o, "out", &err) : odb_create_write_iterator(o, "out", &err);
    sym::check(err == 0 && w, "iterator for writing");
    int n = 5, turn = sym::choice(0, 4), strWords = sym::choice(1, 3);
    bool miss = sym::flag(), colon = sym::flag();
    std::vector<GRow> rows = g.rows;
    {
        odb_write_iterator_set_no_of_columns(w, n);
        static const char* N[] = {"i", "s", "d", "b", "r"};
        static const int T[] = {T_INT, T_STRING, T_DOUBLE, T_BITFIELD, T_REAL};
        std::vector<int> ord;
        int words = strWords;
        for (int c = 0; c < n; c++) ord.push_back((c + turn) % n);
        for (int c = 0; c < n; c++) {
            int k = ord[c];
            if (T[k] == T_BITFIELD) sym::check(odb_write_iterator_set_bitfield(w, c, T[k], N[k], colon ? "x:y:" : "x:y", colon ? "1:3" : "1:3:") == 0, "set_bitfield");
            else sym::check(odb_write_iterator_set_column(w, c, T[k], N[k]) == 0, "set_column");
            if (T[k] == T_STRING) odb_write_iterator_set_column_size_doubles(w, c, words);
            if (T[k] == T_INT && miss) odb_write_iterator_set_missing_value(w, c, -5);
        }
        odb_write_iterator_write_header(w);
        int size = -1, at = 0;
        odb_write_iterator_get_row_buffer_size_doubles(w, &size);
        sym::check(size == n - 1 + words, "size of a row to write");
        std::vector<double> d(size);
        for (int r = 0; r < 2; r++) {
            GRow row;
            at = 0;
            for (int c = 0; c < n; c++) {
                int k = ord[c], off = -1;
                odb_write_iterator_get_column_offset(w, c, &off);
                sym::check(off == at, "offset of a column to write");
                V v; v.type = T[k];
                switch (T[k]) {
                    case T_INT: { int x = r ? 70000 : sym::choice(0, 2); v.missing = x == 2; v.d = v.missing ? (miss ? -5 : MDI_I) : x; d[at] = v.d; break; }
                    case T_STRING: { std::string s = std::string("a string of more than 24 characters").substr(0, r ? 8 * words : 5 * words); memset(&d[at], 0, 8 * words); memcpy((char*)&d[at], s.data(), s.size()); v.s = s; at += words - 1; break; }
                    case T_DOUBLE: v.d = d[at] = r ? 1.1 : sym::any<int8_t>(); break;
                    case T_BITFIELD: v.d = d[at] = 3 + r; break;
                    case T_REAL: v.d = d[at] = 0.5 * r - 4; break;
                }
                row.push_back({N[k], v});
                at++;
            }
            sym::check(odb_write_iterator_set_next_row(w, d.data(), n) == 0, "a row is not written");
            rows.push_back(row);
        }
    }
    odb_write_iterator_destroy(w);
    odb_writer_destroy(o);
    memfs::exit();
    Mem res(memfs::files()["out"]);
    odc::Reader rd(res);
    auto end = rd.end();
    size_t r = 0;
    for (auto it = rd.begin(); it != end; ++it, ++r) {
        sym::check(r < rows.size(), "more rows than written");
        const GRow& row = rows[r];
        sym::check(it->columns().size() == row.size(), "number of columns");
        for (size_t c = 0; c < row.size(); c++) {
            const V& v = row[c].second;
            sym::check(it->columns()[c]->name() == row[c].first, "name");
            sym::check(it->columns()[c]->type() == v.type, "type");
            if (v.type == T_STRING) { sym::check(it->string(c) == v.s, "string"); continue; }
            if (r < g.rows.size()) { sym::check(v.missing ? it->isMissing(c) : it->data(c) == v.d, "value of a row that was there"); continue; }
            sym::check(it->data(c) == v.d, "value");
            sym::check(!v.missing || it->isMissing(c), "missing value");
            if (v.type == T_BITFIELD) {
                sym::check(it->columns()[c]->bitfieldDef().first == std::vector<std::string>({"x", "y"}), "names of a bitfield");
                sym::check(it->columns()[c]->bitfieldDef().second == std::vector<int>({1, 3}), "sizes of a bitfield");
            }
        }
    }
    sym::check(r == rows.size(), "a row is lost");
    sym::reach("done");
}
SYM_CASE(write) { writing(false); }
SYM_CASE(append) { writing(true); }

// blocks cover the file, one for each frame; the count is the number of rows
SYM_CASE(blocks) {
    memfs::reset();
    Gen g;
    g.constants = g.wide = false;
    std::vector<size_t> start;
    int n = sym::choice(1, 5);
    for (int f = 0; f < n; f++) {
        start.push_back(g.file.size());
        g.swap = f < 2 ? sym::flag() : f % 2;
        g.frame(f < 2 ? sym::choice(0, 2) : sym::choice(0, 1) * f, f < 2 ? sym::choice(0, 2) : f % 3);
    }
    start.push_back(g.file.size());
    memfs::files()["in"].reset(new std::vector<char>(g.file));
    size_t nb = 99, *size = nullptr;
    off_t* off = nullptr;
    sym::check(get_blocks_offsets("in", &nb, &off, &size) == 0, "get_blocks_offsets failed");
    sym::check((int)nb == n, "number of blocks");
    for (int f = 0; f < n; f++) {
        sym::check((size_t)off[f] == start[f], "offset of a block");
        sym::check(size[f] == start[f + 1] - start[f], "size of a block");
    }
    release_blocks_offsets(&off);
    release_blocks_sizes(&size);
    sym::check(!off && !size, "released");
    sym::check(odb_count("in") == g.rows.size(), "odb_count");
    memfs::exit();
    sym::reach("done");
}
