// Stand-in for the SQL engine of libeckit_sql (binary only): SELECT of columns from one or two tables, rows picked by a
// predicate.  The parser and the driver of a SELECT are replaced; tables, sessions, types and outputs are the real ones.
// Definitions here take precedence over those of the shared library.  Include in one harness source only.
#pragma once
#include "common.h"
#include "eckit/sql/SQLColumn.h"
#include "eckit/sql/SQLDatabase.h"
#include "eckit/sql/SQLOutput.h"
#include "eckit/sql/SQLParser.h"
#include "eckit/sql/SQLSelect.h"
#include "eckit/sql/SQLSession.h"
#include "eckit/sql/SQLTable.h"
#include "eckit/sql/expression/SQLExpressions.h"
#include "eckit/sql/type/SQLType.h"

namespace mini {
using namespace eckit::sql;
struct Query {
    std::vector<std::string> columns;            // "*": all columns of the table (of the first, if there are several)
    std::function<bool(size_t)> where;           // by number of the row of the product of the tables
    std::string text;                            // what was parsed
    std::string into;                            // output file of the statement
};
inline Query& query() { static Query q; return q; }
inline size_t& rowNumber() { static size_t n; return n; }

class Col : public expression::SQLExpression {
public:
    const SQLTable& table;
    std::string col;
    const type::SQLType* typ = nullptr;
    SQLSelect::ValueLookup* v = nullptr;
    bool miss = false;
    Col(const SQLTable& t, const std::string& n) : table(t), col(n) { title(n); describe(); }
    void describe() {
        const SQLColumn& c = table.column(col);
        typ = &c.type();
        hasMissingValue_ = c.hasMissingValue();
        missingValue_ = c.missingValue();
        isBitfield_ = c.isBitfield();
        if (isBitfield_) bitfieldDef_ = c.bitfieldDef();
    }
    void prepare(SQLSelect& s) override { v = &s.column(col, &table); }
    void updateType(SQLSelect&) override { describe(); }
    void cleanup(SQLSelect&) override {}
    double eval(bool& m) const override { if (v->second) m = true; return *v->first; }
    bool isConstant() const override { return false; }
    const type::SQLType* type() const override { return typ; }
    std::shared_ptr<expression::SQLExpression> clone() const override { throw std::runtime_error("clone"); }
    std::shared_ptr<expression::SQLExpression> reshift(int) const override { throw std::runtime_error("reshift"); }
    void print(std::ostream&) const override {}
    void output(SQLOutput& o) const override {
        switch (typ->getKind()) {
            case type::SQLType::realType: o.outputReal(*v->first, v->second); break;
            case type::SQLType::integerType: o.outputInt(*v->first, v->second); break;
            case type::SQLType::doubleType: o.outputDouble(*v->first, v->second); break;
            case type::SQLType::bitmapType: o.outputBitfield(*v->first, v->second); break;
            case type::SQLType::stringType: {
                const char* p = reinterpret_cast<const char*>(v->first);
                o.outputString(p, strnlen(p, typ->size()), v->second);
                break;
            }
        }
    }
};
}  // namespace mini

namespace eckit::sql {
void SQLParser::parseString(SQLSession& s, const std::string& sql) {
    mini::Query& q = mini::query();
    q.text = sql;
    mini::rowNumber() = 0;
    expression::Expressions cols;
    std::vector<std::reference_wrapper<const SQLTable>> tables;
    for (auto& t : s.currentDatabase().implicitTables()) tables.push_back(t);
    for (auto& n : q.columns) {
        if (n == "*") {
            for (auto& c : tables.at(0).get().columnNames()) cols.push_back(std::make_shared<mini::Col>(tables[0], c));
            continue;
        }
        const SQLTable* found = nullptr;
        for (const SQLTable& t : tables) if (!found && t.hasColumn(n)) found = &t;
        if (!found) throw eckit::UserError("no such column");
        cols.push_back(std::make_shared<mini::Col>(*found, n));
    }
    s.setStatement(new SQLSelect(cols, tables, nullptr, s.output()));
}
SQLSelect::ValueLookup& SQLSelect::column(const std::string& name, const SQLTable* t) { return values_.at(std::to_string((size_t)t) + name); }
expression::Expressions SQLSelect::output() const { return select_; }
void SQLSelect::refreshCursorMetadata(SQLTable* table, SQLTableIterator& cursor) {
    SelectOneTable& one = tablesToFetch_.at(table);
    std::vector<size_t> off = cursor.columnOffsets(), w = cursor.doublesDataSizes();
    std::vector<char> has = cursor.columnsHaveMissing();
    std::vector<double> miss = cursor.missingValues();
    const double* data = cursor.data();
    for (size_t i = 0; i < off.size(); i++) {
        one.values_[i]->first = data + off[i];
        const SQLColumn& c = one.fetch_[i];
        table->updateColumnDoublesWidth(c.name(), w[i]);
        table->updateColumnMissingValues(c.name(), has[i], miss[i]);
    }
}
void SQLSelect::prepareExecute() {
    output_.preprepare(*this);
    for (const SQLTable* t : tables_) {
        SelectOneTable& one = tablesToFetch_[t];
        one.table_ = t;
        for (auto& e : select_) {
            mini::Col& c = static_cast<mini::Col&>(*e);
            if (&c.table != t) continue;
            auto& v = values_[std::to_string((size_t)t) + c.col];
            one.fetch_.push_back(t->column(c.col));
            one.values_.push_back(&v);
        }
        SQLTable* tt = const_cast<SQLTable*>(t);
        cursors_.emplace_back(t->iterator(one.fetch_, [this, tt](SQLTableIterator& c) {
            refreshCursorMetadata(tt, c);
            for (auto& e : select_) e->updateType(*this);
            output_.updateTypes(*this);
        }));
        refreshCursorMetadata(tt, *cursors_.back());
    }
    for (auto& e : select_) e->updateType(*this);
    for (auto& e : select_) e->prepare(*this);
    output_.prepare(*this);
    count_ = total_ = 0;
}
// the first table is the outer loop
bool SQLSelect::processNextTableRow(size_t k) {
    if (k == tables_.size()) return false;
    if (!cursors_[k]->next()) return false;
    SelectOneTable& one = tablesToFetch_.at(tables_[k]);
    for (size_t i = 0; i < one.fetch_.size(); i++) one.values_[i]->second = one.fetch_[i].get().isMissingValue(one.values_[i]->first);
    return true;
}
bool SQLSelect::processOneRow() {
    size_t n = tables_.size();
    for (;;) {
        bool row = false;
        if (total_ == 0) {
            row = true;
            for (size_t k = 0; k < n && row; k++) row = processNextTableRow(k);
            if (!row) return false;
        } else {
            for (size_t k = n; k-- > 0 && !row;) {
                row = processNextTableRow(k);
                for (size_t j = k + 1; row && j < n; j++) { cursors_[j]->rewind(); if (!processNextTableRow(j)) return false; }
            }
            if (!row) return false;
        }
        total_++;
        size_t r = mini::rowNumber()++;
        if (mini::query().where && !mini::query().where(r)) continue;
        output_.output(select_);
        count_++;
        return true;
    }
}
void SQLSelect::postExecute() { output_.flush(); output_.cleanup(*this); }
unsigned long long SQLSelect::execute() {
    prepareExecute();
    while (processOneRow()) {}
    postExecute();
    return count_;
}
}  // namespace eckit::sql
