// Reference designs: a small RTL model of its own (expressions, statements, modules, hierarchy) with
// a direct evaluator, a generator driven by a choice sequence, and a builder that constructs the
// same design through kratos' public API.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "bv.hh"
#include "core.hh"
// kratos
#include "codegen.hh"
#include "context.hh"
#include "expr.hh"
#include "generator.hh"
#include "pass.hh"
#include "port.hh"
#include "stmt.hh"
#include "sv.hh"

namespace rdl {
using kratos::ExprOp;

struct Ty {
    uint32_t w = 1;
    bool s = false;
    std::vector<uint32_t> dims;  // empty: scalar
    bool packed = true;
    uint32_t elems() const {
        uint32_t n = 1;
        for (auto d : dims) n *= d;
        return n;
    }
    uint32_t total() const { return w * elems(); }
    bool arr() const { return !dims.empty(); }
    bool operator==(const Ty &o) const {
        return w == o.w && s == o.s && dims == o.dims && (dims.empty() || packed == o.packed);
    }
};

enum class VK { In, Out, Wire, Reg, Clk, Rst, InstIn, InstOut };
struct V {
    std::string name;
    Ty t;
    VK k = VK::Wire;
    int inst = -1, port = -1;  // InstIn/InstOut: instance index, var index in the child
    bool rst_high = true;      // Rst
    bool explicit_array = false;
    bool readable = true;
};

struct E;
using EP = std::shared_ptr<E>;
struct Sel {
    enum K { Idx, Range, Dyn } k;
    uint32_t hi = 0, lo = 0;
    EP dyn;
};
struct E {
    enum K { Ref, Const, Un, Bin, Mux, Cat, Ext, Dup, CastS, CastU, Iter, Arg, Call, Part } k;
    ExprOp op = ExprOp::Add;
    std::vector<EP> a;
    uint32_t w = 1;
    bool s = false;
    int v = -1;
    std::vector<Sel> sel;
    BV c;
    int id = 0;  // Iter: nesting id; Arg/Call: index
    std::string fn;
};

struct S;
using SP = std::shared_ptr<S>;
struct S {
    enum K { Assign, If, Switch, For } k;
    EP l, r, c;
    std::vector<SP> then_, else_;
    std::vector<std::pair<std::optional<uint64_t>, std::vector<SP>>> cases;
    int iter_id = 0;
    std::string iter;
    int64_t start = 0, end = 0, step = 1;
};

struct Blk {
    enum K { Cont, Comb, Seq, Latch } k;
    std::vector<SP> stmts;
    std::vector<std::pair<bool, int>> sens;  // posedge, var
    std::string attr;
};

struct Func {
    std::string name;
    std::vector<std::pair<std::string, uint32_t>> args;
    uint32_t w;
    std::vector<SP> dummy;
    EP cond, r1, r2;  // if (cond) return r1; [else] return r2  (cond null: return r2)
};

struct Inst {
    int mod;
    std::string name;
    std::vector<int> vars;  // our InstIn/InstOut var for each child var (-1: not a port)
};

struct Module {
    std::string name;
    std::vector<V> vars;
    std::vector<Blk> blks;
    std::vector<Inst> insts;
    std::vector<Func> funcs;
    int norst = 0;
    std::string attr;
};

struct Design {
    std::vector<Module> mods;  // children before parents; last is top
    const Module &top() const { return mods.back(); }
};

struct Cfg {
    int depth = 3;              // expression depth
    int max_in = 4, max_wire = 5, max_reg = 3, max_out = 3;
    int hier = 0;               // hierarchy depth
    bool seq = true, latch = false, arrays = true, unpacked = true, dyn = true, signed_ = true, wide = true,
         functions = false, switches = true, loops = true, comb = true, slices_lhs = true, concat_lhs = false;
    bool direct_child_ports = true, partial_child_in = true, const_child_in = true, unconnected_in = false;
    bool parts = true;  // bits of expressions
    bool awkward_names = false, norst = true, raw = true, sync_rst = true, if_no_else = true;
    bool child_in_expr = true;
    bool unused = true;
    bool mixed_edge = true;
    uint32_t max_w = 128;
    int block_depth = 2;
    bool arr_ports = true;
    bool pass_through = false;  // children that only connect inputs to outputs
    bool chains = false, bitcopy = false, constwire = false;
    bool ifchain = false;       // if (x == c0) .. else if (x == c1) ..
    bool merge_if = false;      // blocks marked merge_if_block
    bool chain_read = false;    // blocks that read what they assigned before
    bool inline_attr = false;   // modules marked inline
    bool out_chain = false;
    bool many_inst = false;     // several instances of a module are common
    bool out_read = true;       // read own outputs
    bool const_case_gap = true;
    bool simple_only = false;
    bool one_dims = false;      // dimensions of one element
    bool array_ranges = true;   // rows of an array from rows of another
};

// generator -----------------------------------------------------------------
struct Gen {
    pbt::Case &c;
    pbt::Src &s;
    Cfg cfg;
    Module *m = nullptr;
    Design *d = nullptr;
    std::vector<int> readable;  // indices of m->vars
    struct It {
        int id;
        std::string name;
        int64_t lo, hi;  // inclusive range of values
    };
    std::vector<It> iters;
    Func *fn = nullptr;
    int iter_cnt = 0;
    std::set<std::string> names;
    Gen(pbt::Case &c, Cfg cfg) : c(c), s(c.src), cfg(cfg) {}

    uint32_t width();
    std::string fresh(const std::string &base);
    EP expr(uint32_t w, bool sg, int depth);
    EP part(uint32_t w, bool sg, int depth);
    EP leaf(uint32_t w, bool sg);
    EP ref(int v);
    EP konst(uint32_t w, uint64_t v);
    EP skonst(uint32_t w, uint64_t v);
    EP conv(EP e, uint32_t w, bool sg);
    EP cond(int depth);  // width 1, any sign
    EP elem(int v, bool allow_dyn);
    Ty type(bool port);
    Design design();
    int module(int level, bool top);
    std::vector<SP> full(const std::vector<EP> &targets, int depth, bool seq);
    std::vector<SP> body(const std::vector<EP> &targets, int depth, bool seq);
    SP assign(EP l, EP r);
    void drive_array(int v, std::vector<SP> &out, bool seq, bool reset);
    void comb_block(const std::vector<int> &vs);
    SP if_chain(const std::vector<EP> &targets, int depth, bool seq, bool complete);
    void merge_ifs(const std::vector<EP> &targets, std::vector<SP> &out);
    bool shape();
    int pass_module();
    std::vector<std::string> twins(Design &r, int n);  // adds modules of the same name; what differs
    int add_var(const std::string &n, Ty t, VK k);
};

Module deep_copy(const Module &m);

// evaluation ----------------------------------------------------------------
struct Sim {
    const Design &d;
    struct I {
        const Module *m;
        std::vector<BV> val;
        std::vector<std::unique_ptr<I>> sub;
    };
    std::unique_ptr<I> root;
    explicit Sim(const Design &d);
    void set(int v, const BV &x) { root->val[v] = x; }
    const BV &get(int v) const { return root->val[v]; }
    void settle();             // combinational fixpoint, then clock edges, repeated
    int total_norst() const;
    int instances() const;

private:
    void comb(I &i, bool &changed, bool latch);
    void edges(I &i, const std::map<const I *, std::vector<BV>> &old, std::vector<std::function<void()>> &nba);
    void fix();
    void snap(I &i, std::map<const I *, std::vector<BV>> &m);
    std::map<const I *, std::vector<BV>> prev;
};

struct Env {
    const Module *m;
    const std::vector<BV> *val;
    std::map<int, int64_t> it;
    const std::vector<BV> *args = nullptr;
};
BV eval(const EP &e, const Env &env);
// bit offset and width of a reference
std::pair<uint32_t, uint32_t> locate(const EP &e, const Env &env);
void exec(const std::vector<SP> &ss, Env &env, std::vector<BV> &val,
          std::vector<std::pair<int, std::pair<uint32_t, BV>>> *nba);
std::string show(const Module &m, const EP &e);
std::string show(const Design &d);

// builder -------------------------------------------------------------------
struct Built {
    std::shared_ptr<kratos::Context> ctx;
    kratos::Generator *top = nullptr;
    // generator and variables of every instance, in build order
    struct GI {
        const Module *m;
        kratos::Generator *g;
        std::vector<kratos::Var *> v;
        std::vector<int> sub;
        std::vector<std::shared_ptr<kratos::Stmt>> stmts;
    };
    std::vector<GI> insts;
};
struct BuildOpt {
    bool clone = false;       // later instances of one module are clones
    bool uniquify_names = false;
    bool explicit_types = false;
    bool one_generator = false;
    pbt::Src *style = nullptr;
};
Built build(const Design &d, const BuildOpt &o = {});
kratos::Var &bexpr(Built &b, int gi, const EP &e, std::map<int, kratos::Var *> *iters,
                   const std::vector<kratos::Var *> *args = nullptr);
std::shared_ptr<kratos::Stmt> bstmt(Built &b, int gi, const SP &s, std::map<int, kratos::Var *> &iters,
                                    kratos::AssignmentType t);

// comparing -----------------------------------------------------------------
// joins the emitted modules (and extra text) into one unit
std::string join(const std::map<std::string, std::string> &src);
// Drives `text` (top module named as d.top().name) and the reference with one random history and
// fails the case at the first difference of an output port.
struct DriveOpt {
    int steps = 6;
    std::string tag = "behaviour";
    std::string extra;                          // context for the failure message
    std::map<std::string, std::string> rename;  // our port -> port in text ("" : absent)
    bool check_lint = true;
    std::string top;                            // name of the top module in text (default: of the design)
    bool flat = false;                          // arrays at the top are split into ports name_i_j
};
struct Hist {
    struct Step {
        int v;
        BV x;
    };
    // groups of pokes; after each group everything is compared if `cmp`
    std::vector<std::pair<bool, std::vector<Step>>> g;
};
Hist history(pbt::Case &c, const Design &d, int steps, int flush);
void drive(pbt::Case &c, const Design &d, const std::string &text, const DriveOpt &o = {});
// The same history played into two texts; their top-level outputs have to agree.
void drive2(pbt::Case &c, const Design &d, const std::string &t1, const std::string &t2, const DriveOpt &o = {});
std::vector<std::string> lint(const std::string &text, const std::string &top);
void run_default(kratos::Generator *g, kratos::PassManager &pm);
// the default pass order of kratos.verilog(); flags as in python
struct Flow {
    bool optimize_if = true, optimize_passthrough = true, optimize_fanout = true, optimize_bundle = true,
         optimize_inline = true, reorder = false, check_multiple_driver = true, check_comb = true, check_ff = true,
         check_latch = true, remove_unused = true, merge_const = true, dead_code = false, sort_inst = false,
         remove_assertion = false, ssa = false, lift_genvar = false, fix_port = false, flip_flop = true, pipeline = false,
         parallel_hash = true;
    std::function<void(const std::string &, kratos::Generator *)> after;  // called after every pass
};
std::map<std::string, std::string> default_flow(kratos::Generator *g, const Flow &f = {},
                                                kratos::SystemVerilogCodeGenOptions o = {});
std::map<std::string, std::string> plain_flow(kratos::Generator *g);  // only what codegen needs
// a design of any kind, a way to build it and passes that may be applied to it
struct Setup {
    Design d;
    BuildOpt bo;
    Flow f;
};
Setup any_setup(pbt::Case &c);
std::string numbered(const std::string &t);
}  // namespace rdl
