// An independent SystemVerilog-subset front end and event-driven simulator (IEEE 1800 sizing and
// signedness rules, two-state with pseudo-random initial contents). Used as the reading of the
// text kratos emits. It shares no code with kratos.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "bv.hh"

namespace sv {

struct Error : std::runtime_error {
    std::string kind;  // lex, parse, elab, run
    Error(const std::string &k, const std::string &m) : std::runtime_error(k + ": " + m), kind(k) {}
};

// ---- syntax ----------------------------------------------------------------
struct Tok {
    enum K { Id, Num, Str, Op, Eof } k = Eof;
    std::string s;
    // Num
    bool sized = false, sgn = true;
    uint32_t width = 32;
    BV val;
    int line = 0;
};

struct Expr;
using ExprP = std::shared_ptr<Expr>;
struct TypeRef;
using TypeRefP = std::shared_ptr<TypeRef>;

struct Expr {
    enum K {
        Num, Str, Id, Index, Range, Member, Unary, Binary, Cond, Concat, Repl, CastSize, CastSign, CastType,
        Call, Scoped
    } k;
    std::string op;  // operator, identifier, member, function
    std::vector<ExprP> a;
    BV val;
    bool sgn = false, sized = true;
    int line = 0;
};

struct TypeRef {
    std::string base;  // logic, reg, wire, bit, int, integer, <typedef or type parameter>
    bool sgn = false, has_sign = false;
    std::vector<std::pair<ExprP, ExprP>> packed;
};

struct Dim {
    ExprP hi, lo;  // lo null: [N]
};

struct Decl {
    TypeRefP type;
    std::string name;
    std::vector<Dim> unpacked;
    ExprP init;
    int line = 0;
};

struct Port {
    std::string dir;  // input, output, inout, or "" for interface ports
    Decl d;
    std::string iface, modport;
};

struct Param {
    std::string name;
    bool is_type = false;
    TypeRefP type;  // explicit type of a value parameter, or default of a type parameter
    ExprP val;
    bool local = false;
};

struct Stmt;
using StmtP = std::shared_ptr<Stmt>;
struct CaseItem {
    std::vector<ExprP> v;  // empty: default
    StmtP body;
};
struct Stmt {
    enum K { Null, Block, Assign, If, Case, For, Call, Return, Break, Assert, Delay } k = Null;
    std::vector<StmtP> b;
    ExprP l, r, c;
    bool nb = false;
    std::string op;  // for step: "+=" ...; case qualifier
    std::vector<CaseItem> items;
    Decl d;  // for loop variable
    int line = 0;
    std::string label;
};

struct Func {
    std::string name;
    TypeRefP ret;  // null: void / task
    bool task = false;
    std::vector<Port> ports;
    std::vector<Decl> locals;
    StmtP body;
};

struct Item;
using ItemP = std::shared_ptr<Item>;
struct Inst {
    std::string mod, name;
    std::vector<std::pair<std::string, ExprP>> params;
    std::vector<std::pair<std::string, TypeRefP>> type_params;
    std::vector<std::pair<std::string, ExprP>> conns;
    std::vector<ExprP> pos;
};
struct Item {
    enum K { Assign, Comb, FF, Latch, Initial, Final, Always, Instance, GenFor, Assertion } k;
    StmtP body;
    ExprP l, r;
    std::vector<std::pair<bool, ExprP>> events;  // posedge?, expr
    Inst inst;
    std::string genvar, label, text;
    ExprP gstart, gcond, gstep;
    std::string gop;
    std::vector<ItemP> items;
    int line = 0;
};

struct StructDef {
    std::string name;
    std::vector<Decl> fields;  // first = most significant
};
struct EnumDef {
    std::string name;
    TypeRefP base;
    std::vector<std::pair<std::string, ExprP>> vals;
};
struct Typedef {
    std::shared_ptr<StructDef> s;
    std::shared_ptr<EnumDef> e;
    TypeRefP alias;
};

struct Module {
    std::string name;
    bool is_iface = false;
    std::vector<Param> params;
    std::vector<Port> ports;
    std::vector<Decl> vars;
    std::vector<Func> funcs;
    std::vector<std::pair<std::string, Typedef>> typedefs;
    std::vector<ItemP> items;
    std::map<std::string, std::vector<std::pair<std::string, std::string>>> modports;  // dir,name
    std::vector<std::string> imports;
    std::vector<std::string> props;  // text of property declarations
    int line = 0;
};

struct Unit {
    std::map<std::string, std::shared_ptr<Module>> modules;
    std::vector<std::string> order;
    std::vector<std::pair<std::string, Typedef>> typedefs;
    std::vector<std::string> dpi;
    std::set<std::string> packages;
    std::vector<std::string> dups;  // duplicate module / type names
};

std::vector<Tok> lex(const std::string &text);
void parse(const std::string &text, Unit &u);

// ---- elaboration and simulation --------------------------------------------
struct Type {
    bool sgn = false;
    std::shared_ptr<struct SType> st;                // struct base
    std::vector<std::pair<int64_t, int64_t>> packed; // dims over the base
    std::vector<std::pair<int64_t, int64_t>> unpacked;
    uint32_t base_w = 1;
    std::string ename;  // enum or struct typedef name
    uint32_t width() const;
};
struct SType {
    std::string name;
    struct F {
        std::string name;
        Type t;
        uint32_t lo;
    };
    std::vector<F> f;
    uint32_t w = 0;
};

struct Options {
    uint64_t init_seed = 1;
    bool zero_init = false;
    std::map<std::string, BV> params;  // override those of the top
};

struct DesignImpl;
class Design {
public:
    Design(const Unit &u, const std::string &top, Options o = {});
    ~Design();
    // top level access
    std::vector<std::pair<std::string, std::string>> ports() const;  // dir, name
    uint32_t width(const std::string &net) const;
    bool has(const std::string &net) const;
    void set(const std::string &net, const BV &v);  // no settle
    BV get(const std::string &net) const;           // hierarchical: inst.sub.net
    void settle();
    void poke(const std::string &net, const BV &v) {
        set(net, v);
        settle();
    }
    std::vector<std::string> net_names() const;
    // everything suspicious about the text as a self-contained design; "tag: message"
    const std::vector<std::string> &lint() const;
    // violations of unique case seen while running
    uint64_t unique_violations() const;
    Type type_of(const std::string &net) const;
    std::vector<std::string> trace() const;

private:
    std::unique_ptr<DesignImpl> p;
};

bool is_keyword(const std::string &s);

}  // namespace sv
