#include <algorithm>
#include <cassert>
#include <deque>

#include "sv.hh"

namespace sv {

uint32_t Type::width() const {
    uint64_t w = st ? st->w : base_w;
    for (auto &d : packed) w *= (uint64_t)std::llabs(d.first - d.second) + 1;
    for (auto &d : unpacked) w *= (uint64_t)std::llabs(d.first - d.second) + 1;
    if (w == 0 || w > BV::MAXW) throw Error("elab", "net too wide: " + std::to_string(w));
    return (uint32_t)w;
}

namespace {

struct Proc;
struct Net {
    std::string name;  // hierarchical
    Type t;
    uint32_t w = 1;
    BV v;
    std::vector<Proc *> deps;
    std::vector<Proc *> edges;
    bool local = false;
    bool top_input = false;
    bool input_port = false;
    struct Drv {
        const void *who;
        std::string kind;
        uint32_t lo, hi;
    };
    std::vector<Drv> drv;
    bool read = false;
    std::vector<bool> rd;
};

struct Scope;

struct RX;
using RXP = std::shared_ptr<RX>;
struct Step {
    uint32_t off = 0;      // constant offset
    RXP idx;               // dynamic index
    int64_t left = 0, right = 0;
    uint32_t ew = 0;       // element width
    bool range = false;
};
struct RFunc;
struct RX {
    enum K { Const, Ref, Unary, Binary, Cond, Concat, Repl, CastSize, CastSign, Call, SysCall, Str } k;
    std::string op;
    std::vector<RXP> a;
    BV val;
    uint32_t w = 1;
    bool sgn = false;
    bool sized = true;
    Net *net = nullptr;
    std::vector<Step> steps;
    RFunc *fn = nullptr;
    uint32_t rep = 1;
};
struct RS;
using RSP = std::shared_ptr<RS>;
struct RS {
    Stmt::K k;
    std::vector<RSP> b;
    RXP l, r, c;
    bool nb = false;
    std::string op;
    std::vector<std::pair<std::vector<RXP>, RSP>> items;
    Net *iter = nullptr;
    bool unique = false;
    int line = 0;
};
struct RFunc {
    std::string name;
    Net *ret = nullptr;
    std::vector<Net *> ports;
    std::vector<std::string> port_names;
    RSP body;
    std::set<Net *> reads, writes;
    std::vector<std::tuple<Net *, uint32_t, uint32_t>> wranges;
    bool resolved = false, active = false;
    const Func *def = nullptr;
    Scope *scope = nullptr;
    bool external = false;
    uint32_t ext_w = 1;
};
struct Proc {
    Item::K k;
    RSP body;
    RXP l, r;
    bool pending = false;
    bool is_conn = false;
    std::set<Net *> reads, writes;
    std::vector<std::tuple<Net *, bool>> ev;
    std::string where;
};

struct ParamVal {
    BV v;
    bool sgn;
    bool sized;
    bool is_type = false;
    Type ty;
};

struct Scope {
    std::string name;  // hierarchical prefix incl. trailing '.'
    const Module *mod = nullptr;
    Scope *parent = nullptr;  // generate scopes only: lexical parent
    std::map<std::string, Net *> nets;
    std::map<std::string, ParamVal> params;
    std::map<std::string, Scope *> kids;  // instances, interface instances / ports
    std::map<std::string, RFunc *> funcs;
    std::map<std::string, Type> types;
    std::map<std::string, ParamVal> enums;
    std::map<std::string, Net *> locals;
    std::vector<std::string> pnames;
    std::vector<std::string> modport_dirs;
};

enum Flow { Next, Brk, Ret };

}  // namespace

struct DesignImpl {
    const Unit &u;
    Options opt;
    std::vector<std::unique_ptr<Net>> nets;
    std::vector<std::unique_ptr<Proc>> procs;
    std::vector<std::unique_ptr<Scope>> scopes;
    std::vector<std::unique_ptr<RFunc>> funcs;
    std::map<std::string, Net *> by_name;
    Scope *top = nullptr;
    std::deque<Proc *> q, lq;
    struct Nba {
        Net *n;
        uint32_t lo;
        BV v;
    };
    std::vector<Nba> nba;
    std::vector<std::string> lints;
    uint64_t uniq_viol = 0;
    std::map<std::string, Type> gtypes;
    std::map<std::string, ParamVal> genums;
    int depth = 0;

    // read/write collectors while resolving
    std::set<Net *> *rd = nullptr;
    std::set<Net *> *wr = nullptr;
    std::vector<std::tuple<Net *, uint32_t, uint32_t>> *wranges = nullptr;

    DesignImpl(const Unit &unit, Options o) : u(unit), opt(o) {}

    [[noreturn]] void err(const std::string &m) const { throw Error("elab", m); }
    void lint(const std::string &m) { lints.push_back(m); }

    uint64_t rnd(const std::string &n, uint64_t i) const {
        uint64_t h = 1469598103934665603ull ^ (opt.init_seed * 0x9E3779B97F4A7C15ull);
        for (unsigned char c : n) h = (h ^ c) * 1099511628211ull;
        h += i * 0xD1B54A32D192ED03ull;
        h ^= h >> 30;
        h *= 0xBF58476D1CE4E5B9ull;
        h ^= h >> 27;
        return h;
    }

    Net *new_net(const std::string &hname, const Type &t) {
        auto n = std::make_unique<Net>();
        n->name = hname;
        n->t = t;
        n->w = t.width();
        n->v = BV(n->w, 0);
        if (!opt.zero_init) {
            for (uint32_t i = 0; i < n->v.nw(); i++) n->v.d[i] = rnd(hname, i);
            n->v.mask();
        }
        n->rd.resize(n->w);
        Net *r = n.get();
        nets.push_back(std::move(n));
        return r;
    }

    // ---- types
    void add_typedef(Scope *s, const std::string &name, const Typedef &d,
                     std::map<std::string, Type> &types, std::map<std::string, ParamVal> &enums) {
        if (types.count(name)) err("type " + name + " declared twice");
        Type t;
        if (d.s) {
            auto st = std::make_shared<SType>();
            st->name = name;
            std::set<std::string> seen;
            for (auto &f : d.s->fields) {
                SType::F x;
                x.name = f.name;
                if (!seen.insert(f.name).second) err("duplicate struct member " + f.name);
                x.t = type(s, *f.type);
                x.lo = 0;
                st->f.push_back(x);
            }
            uint32_t lo = 0;
            for (int i = (int)st->f.size() - 1; i >= 0; i--) {
                st->f[i].lo = lo;
                lo += st->f[i].t.width();
            }
            st->w = lo;
            t.st = st;
            t.ename = name;
        } else if (d.e) {
            t = type(s, *d.e->base);
            t.ename = name;
            int64_t next = 0;
            std::set<std::string> vals;
            for (auto &[n, v] : d.e->vals) {
                ParamVal pv;
                if (v) {
                    auto x = resolve(s, v);
                    BV bv = eval_self(x);
                    if (x->sized && x->w != t.width())
                        lint("enumwidth: enumerator " + n + " of " + name + " has width " +
                             std::to_string(x->w) + " instead of " + std::to_string(t.width()));
                    pv.v = bv.resize(t.width(), x->sgn);
                } else
                    pv.v = BV(t.width(), (uint64_t)next);
                next = (int64_t)pv.v.u64() + 1;
                pv.sgn = t.sgn;
                pv.sized = true;
                if (!vals.insert(pv.v.str()).second) lint("enumdup: value of " + n + " in " + name + " repeated");
                if (enums.count(n)) err("enumerator " + n + " declared twice");
                enums[n] = pv;
            }
        } else
            t = type(s, *d.alias);
        types[name] = t;
    }

    Type *find_type(Scope *s, const std::string &n) {
        for (Scope *x = s; x; x = x->parent) {
            auto it = x->types.find(n);
            if (it != x->types.end()) return &it->second;
            auto p = x->params.find(n);
            if (p != x->params.end() && p->second.is_type) return &p->second.ty;
        }
        auto it = gtypes.find(n);
        return it == gtypes.end() ? nullptr : &it->second;
    }

    Type type(Scope *s, const TypeRef &r) {
        Type t;
        if (r.base == "logic" || r.base == "reg" || r.base == "wire" || r.base == "bit") {
            t.sgn = r.sgn;
        } else if (r.base == "int" || r.base == "integer") {
            t.base_w = 32;
            t.sgn = r.has_sign ? r.sgn : true;
        } else if (r.base == "byte") {
            t.base_w = 8;
            t.sgn = r.has_sign ? r.sgn : true;
        } else if (r.base == "shortint") {
            t.base_w = 16;
            t.sgn = r.has_sign ? r.sgn : true;
        } else if (r.base == "longint") {
            t.base_w = 64;
            t.sgn = r.has_sign ? r.sgn : true;
        } else {
            auto *d = find_type(s, r.base);
            if (!d) err("unknown type " + r.base);
            t = *d;
            if (r.has_sign) err("signing on a named type " + r.base);
        }
        std::vector<std::pair<int64_t, int64_t>> dims;
        for (auto &[a, b] : r.packed) dims.emplace_back(cint(s, a), cint(s, b));
        t.packed.insert(t.packed.begin(), dims.begin(), dims.end());
        return t;
    }
    Type decl_type(Scope *s, const Decl &d) {
        Type t = type(s, *d.type);
        for (auto &m : d.unpacked) {
            int64_t a = cint(s, m.hi);
            if (m.lo)
                t.unpacked.emplace_back(a, cint(s, m.lo));
            else
                t.unpacked.emplace_back(0, a - 1);
        }
        (void)t.width();
        return t;
    }

    int64_t cint(Scope *s, const ExprP &e) {
        auto x = resolve(s, e);
        BV v = eval_self(x);
        return x->sgn ? v.resize(64, true).s64() : (int64_t)v.u64();
    }
    bool is_const(const RXP &x) {
        if (x->k == RX::Ref || x->k == RX::Call || x->k == RX::Str) return false;
        for (auto &c : x->a)
            if (!is_const(c)) return false;
        return true;
    }
    BV eval_self(const RXP &x) {
        if (!is_const(x)) err("constant expression expected");
        return eval(x, x->w, x->sgn);
    }

    // ---- name resolution
    struct Found {
        Net *net = nullptr;
        Scope *scope = nullptr;
        ParamVal *pv = nullptr;
    };
    Found find(Scope *s, const std::string &n) {
        Found f;
        for (Scope *x = s; x; x = x->parent) {
            auto l = x->locals.find(n);
            if (l != x->locals.end()) {
                f.net = l->second;
                return f;
            }
            auto p = x->params.find(n);
            if (p != x->params.end() && !p->second.is_type) {
                f.pv = &p->second;
                return f;
            }
            auto it = x->nets.find(n);
            if (it != x->nets.end()) {
                f.net = it->second;
                return f;
            }
            auto e = x->enums.find(n);
            if (e != x->enums.end()) {
                f.pv = &e->second;
                return f;
            }
            auto k = x->kids.find(n);
            if (k != x->kids.end()) {
                f.scope = k->second;
                return f;
            }
        }
        auto e = genums.find(n);
        if (e != genums.end()) f.pv = &e->second;
        return f;
    }

    void mark_read(Net *n, uint32_t lo, uint32_t w) {
        if (rd) rd->insert(n);
        n->read = true;
        for (uint32_t i = lo; i < lo + w && i < n->w; i++) n->rd[i] = true;
    }

    // resolves id / index / range / member chains; returns null type info through rx
    struct Sel {
        RXP rx;
        Type t;
        bool is_net = false;
        Scope *scope = nullptr;
        RXP konst;
        bool ranged = false;
        bool bitsel = false;
        uint32_t lo = 0;       // static offset so far (up to the first dynamic step)
        uint32_t span = 0;     // static span
        bool dyn = false;
    };
    Sel select(Scope *s, const ExprP &e) {
        Sel r;
        switch (e->k) {
            case Expr::Id: {
                auto f = find(s, e->op);
                if (f.net) {
                    r.is_net = true;
                    r.rx = std::make_shared<RX>();
                    r.rx->k = RX::Ref;
                    r.rx->net = f.net;
                    r.t = f.net->t;
                    r.span = f.net->w;
                } else if (f.scope) {
                    r.scope = f.scope;
                } else if (f.pv) {
                    r.konst = std::make_shared<RX>();
                    r.konst->k = RX::Const;
                    r.konst->val = f.pv->v;
                    r.konst->w = f.pv->v.w;
                    r.konst->sgn = f.pv->sgn;
                    r.konst->sized = f.pv->sized;
                } else
                    err("undeclared identifier " + e->op + " in " + s->name);
                return r;
            }
            case Expr::Member: {
                r = select(s, e->a[0]);
                if (r.scope) {
                    auto f = find(r.scope, e->op);
                    if (r.scope->mod && f.net == nullptr && f.scope == nullptr)
                        err("no member " + e->op + " in " + r.scope->name);
                    Sel n;
                    if (f.net) {
                        n.is_net = true;
                        n.rx = std::make_shared<RX>();
                        n.rx->k = RX::Ref;
                        n.rx->net = f.net;
                        n.t = f.net->t;
                        n.span = f.net->w;
                    } else if (f.scope)
                        n.scope = f.scope;
                    else
                        err("no member " + e->op);
                    return n;
                }
                if (!r.is_net) err("member select of a non-net: " + e->op);
                if (!r.t.st || !r.t.packed.empty() || !r.t.unpacked.empty())
                    err("member " + e->op + " of a non-struct");
                for (auto &f : r.t.st->f)
                    if (f.name == e->op) {
                        Step st;
                        st.off = f.lo;
                        r.rx->steps.push_back(st);
                        r.t = f.t;
                        if (!r.dyn) {
                            r.lo += f.lo;
                            r.span = f.t.width();
                        }
                        r.bitsel = false;
                        return r;
                    }
                err("no member " + e->op + " in struct " + r.t.st->name);
            }
            case Expr::Index:
            case Expr::Range: {
                r = select(s, e->a[0]);
                if (!r.is_net) err("select of a non-net");
                if (r.ranged) err("select of a part select");
                std::pair<int64_t, int64_t> dim;
                Type nt = r.t;
                bool unp = false;
                if (!nt.unpacked.empty()) {
                    dim = nt.unpacked.front();
                    nt.unpacked.erase(nt.unpacked.begin());
                    unp = true;
                } else if (!nt.packed.empty()) {
                    dim = nt.packed.front();
                    nt.packed.erase(nt.packed.begin());
                } else if (nt.st) {
                    dim = {(int64_t)nt.st->w - 1, 0};
                    nt.st = nullptr;
                    nt.base_w = 1;
                } else if (nt.base_w > 1) {
                    dim = {(int64_t)nt.base_w - 1, 0};
                    nt.base_w = 1;
                } else
                    err("select of a scalar");
                if (!unp) {
                    nt.sgn = false;
                }
                uint32_t ew = nt.width();
                if (e->k == Expr::Index) {
                    auto ix = resolve(s, e->a[1]);
                    Step st;
                    st.left = dim.first;
                    st.right = dim.second;
                    st.ew = ew;
                    if (is_const(ix)) {
                        BV v = eval_self(ix);
                        int64_t i = ix->sgn ? v.resize(64, true).s64() : (int64_t)v.u64();
                        int64_t lo = std::min(dim.first, dim.second), hi = std::max(dim.first, dim.second);
                        if (i < lo || i > hi) {
                            lint("range: constant index " + std::to_string(i) + " outside [" +
                                 std::to_string(dim.first) + ":" + std::to_string(dim.second) + "] of " +
                                 r.rx->net->name);
                            st.idx = ix;
                            r.dyn = true;
                        } else {
                            st.off = (uint32_t)((dim.first >= dim.second ? i - dim.second : dim.second - i)) * ew;
                            st.ew = 0;
                            if (!r.dyn) {
                                r.lo += st.off;
                                r.span = ew;
                            }
                        }
                    } else {
                        st.idx = ix;
                        r.dyn = true;
                    }
                    r.rx->steps.push_back(st);
                    r.t = nt;
                    r.bitsel = !unp;
                    return r;
                }
                int64_t a = cint(s, e->a[1]), b = cint(s, e->a[2]);
                int64_t lo = std::min(dim.first, dim.second), hi = std::max(dim.first, dim.second);
                if (a < lo || a > hi || b < lo || b > hi)
                    err("part select [" + std::to_string(a) + ":" + std::to_string(b) + "] outside " +
                        r.rx->net->name);
                if ((dim.first >= dim.second) ? (a < b) : (a > b))
                    err("reversed part select of " + r.rx->net->name);
                Step st;
                st.off = (uint32_t)(dim.first >= dim.second ? b - dim.second : dim.second - b) * ew;
                r.rx->steps.push_back(st);
                if (!r.dyn) {
                    r.lo += st.off;
                    r.span = ew * (uint32_t)(std::llabs(a - b) + 1);
                }
                nt.sgn = false;
                if (unp)
                    nt.unpacked.insert(nt.unpacked.begin(), {std::llabs(a - b), 0});
                else
                    nt.packed.insert(nt.packed.begin(), {std::llabs(a - b), 0});
                r.t = nt;
                r.ranged = true;
                r.bitsel = true;
                return r;
            }
            default:
                err("not selectable");
        }
    }

    RXP resolve(Scope *s, const ExprP &e) {
        auto x = std::make_shared<RX>();
        switch (e->k) {
            case Expr::Num:
                x->k = RX::Const;
                x->val = e->val;
                x->w = e->val.w;
                x->sgn = e->sgn;
                x->sized = e->sized;
                if (!e->sized && e->op == "'1") {
                    x->op = "fill";
                }
                return x;
            case Expr::Str:
                x->k = RX::Str;
                x->op = e->op;
                x->w = std::max<uint32_t>(8, 8 * (uint32_t)e->op.size());
                if (x->w > BV::MAXW) x->w = BV::MAXW;
                return x;
            case Expr::Id:
            case Expr::Index:
            case Expr::Range:
            case Expr::Member: {
                Sel r = select(s, e);
                if (r.konst) return r.konst;
                if (!r.is_net) err("scope name used as a value: " + e->op);
                r.rx->w = r.t.width();
                r.rx->sgn = r.t.sgn && r.t.unpacked.empty();
                mark_read(r.rx->net, r.lo, r.span);
                return r.rx;
            }
            case Expr::Unary: {
                auto a = resolve(s, e->a[0]);
                x->k = RX::Unary;
                x->op = e->op;
                x->a = {a};
                if (e->op == "~" || e->op == "-" || e->op == "+") {
                    x->w = a->w;
                    x->sgn = a->sgn;
                    x->sized = a->sized;
                } else
                    x->w = 1;
                return x;
            }
            case Expr::Binary: {
                auto a = resolve(s, e->a[0]), b = resolve(s, e->a[1]);
                x->k = RX::Binary;
                x->op = e->op;
                x->a = {a, b};
                static const std::set<std::string> rel = {"==", "!=", "===", "!==", "<", "<=", ">", ">="};
                if (rel.count(e->op) || e->op == "&&" || e->op == "||") {
                    x->w = 1;
                } else if (e->op == "<<" || e->op == ">>" || e->op == "<<<" || e->op == ">>>" || e->op == "**") {
                    x->w = a->w;
                    x->sgn = a->sgn;
                    x->sized = a->sized;
                } else {
                    x->w = std::max(a->w, b->w);
                    x->sgn = a->sgn && b->sgn;
                    x->sized = a->sized && b->sized;
                }
                return x;
            }
            case Expr::Cond: {
                auto c = resolve(s, e->a[0]), a = resolve(s, e->a[1]), b = resolve(s, e->a[2]);
                x->k = RX::Cond;
                x->a = {c, a, b};
                x->w = std::max(a->w, b->w);
                x->sgn = a->sgn && b->sgn;
                x->sized = a->sized && b->sized;
                return x;
            }
            case Expr::Concat: {
                x->k = RX::Concat;
                uint64_t w = 0;
                for (auto &c : e->a) {
                    auto r = resolve(s, c);
                    if (!r->sized) lint("concat: unsized literal in a concatenation");
                    w += r->w;
                    x->a.push_back(r);
                }
                if (w > BV::MAXW) err("concat too wide");
                x->w = (uint32_t)w;
                return x;
            }
            case Expr::Repl: {
                int64_t n = cint(s, e->a[0]);
                auto r = resolve(s, e->a[1]);
                if (n <= 0 || n * (int64_t)r->w > BV::MAXW) err("bad replication count");
                x->k = RX::Repl;
                x->rep = (uint32_t)n;
                x->a = {r};
                x->w = (uint32_t)n * r->w;
                return x;
            }
            case Expr::CastSize: {
                auto r = resolve(s, e->a[0]);
                x->k = RX::CastSize;
                x->a = {r};
                x->w = (uint32_t)e->val.u64();
                if (x->w == 0 || x->w > BV::MAXW) err("bad cast width");
                x->sgn = r->sgn;
                return x;
            }
            case Expr::CastSign: {
                auto r = resolve(s, e->a[0]);
                x->k = RX::CastSign;
                x->a = {r};
                x->w = r->w;
                x->sgn = e->op == "signed";
                return x;
            }
            case Expr::CastType: {
                auto r = resolve(s, e->a[0]);
                x->k = RX::CastSize;
                x->a = {r};
                if (e->op == "(size)") {
                    x->w = (uint32_t)cint(s, e->a[1]);
                    x->sgn = r->sgn;
                } else if (auto *t = find_type(s, e->op)) {
                    x->w = t->width();
                    x->sgn = t->sgn;
                } else {
                    auto f = find(s, e->op);
                    if (!f.pv) err("cast to unknown type " + e->op);
                    x->w = (uint32_t)f.pv->v.u64();
                    x->sgn = r->sgn;
                }
                if (x->w == 0 || x->w > BV::MAXW) err("bad cast width");
                return x;
            }
            case Expr::Call:
                return call(s, e, false);
            case Expr::Scoped:
                err("named argument outside a call");
        }
        err("bad expression");
    }

    RFunc *find_func(Scope *s, const std::string &n) {
        for (Scope *x = s; x; x = x->parent) {
            auto it = x->funcs.find(n);
            if (it != x->funcs.end()) return it->second;
        }
        return nullptr;
    }

    RXP call(Scope *s, const ExprP &e, bool stmt) {
        auto x = std::make_shared<RX>();
        if (e->op[0] == '$') {
            x->k = RX::SysCall;
            x->op = e->op;
            for (auto &a : e->a) x->a.push_back(resolve(s, a));
            static const std::set<std::string> fn = {"$clog2", "$countones", "$onehot", "$onehot0",
                                                     "$isunknown", "$signed", "$unsigned", "$bits",
                                                     "$countbits", "$time", "$random", "$urandom"};
            if (!fn.count(e->op)) {
                if (!stmt) err("system task in expression " + e->op);
                return x;
            }
            if (x->a.size() != 1 && e->op[1] != 't' && e->op != "$random" && e->op != "$urandom")
                err("argument count of " + e->op);
            if (e->op == "$signed" || e->op == "$unsigned") {
                x->k = RX::CastSign;
                x->w = x->a[0]->w;
                x->sgn = e->op == "$signed";
            } else if (e->op == "$onehot" || e->op == "$onehot0" || e->op == "$isunknown") {
                x->w = 1;
            } else if (e->op == "$time") {
                x->w = 64;
            } else {
                x->w = 32;
                x->sgn = true;
            }
            return x;
        }
        RFunc *f = find_func(s, e->op);
        if (!f) err("unknown function " + e->op + " in " + s->name);
        resolve_func(f);
        x->k = RX::Call;
        x->fn = f;
        x->a.resize(f->ports.size());
        size_t i = 0;
        for (auto &a : e->a) {
            size_t pos = i;
            ExprP v = a;
            if (a->k == Expr::Scoped) {
                auto it = std::find(f->port_names.begin(), f->port_names.end(), a->op);
                if (it == f->port_names.end()) err("no argument " + a->op);
                pos = (size_t)(it - f->port_names.begin());
                v = a->a[0];
            }
            if (pos >= f->ports.size()) err("too many arguments to " + f->name);
            if (x->a[pos]) err("argument given twice");
            x->a[pos] = resolve(s, v);
            if (x->a[pos]->w != f->ports[pos]->w && x->a[pos]->sized)
                lint("argwidth: argument " + f->port_names[pos] + " of " + f->name);
            i++;
        }
        for (auto &a : x->a)
            if (!a) err("missing argument to " + f->name);
        if (f->ret) {
            x->w = f->ret->w;
            x->sgn = f->ret->t.sgn;
        } else if (!stmt)
            err("void function " + f->name + " used as a value");
        if (rd)
            for (auto *n : f->reads) rd->insert(n);
        if (wr)
            for (auto *n : f->writes) wr->insert(n);
        if (wranges)
            for (auto &t : f->wranges) wranges->push_back(t);
        return x;
    }

    RXP lval(Scope *s, const ExprP &e) {
        if (e->k == Expr::Concat) {
            auto x = std::make_shared<RX>();
            x->k = RX::Concat;
            uint32_t w = 0;
            for (auto &c : e->a) {
                auto r = lval(s, c);
                w += r->w;
                x->a.push_back(r);
            }
            x->w = w;
            return x;
        }
        if (e->k != Expr::Id && e->k != Expr::Index && e->k != Expr::Range && e->k != Expr::Member)
            err("illegal assignment target");
        Sel r = select(s, e);
        if (!r.is_net) err("assignment to a constant " + e->op);
        r.rx->w = r.t.width();
        r.rx->sgn = r.t.sgn;
        if (wr) wr->insert(r.rx->net);
        if (wranges) wranges->emplace_back(r.rx->net, r.lo, r.lo + r.span - 1);
        return r.rx;
    }

    void check_assign(const RXP &l, const RXP &r, const std::string &where) {
        if (r->k != RX::Str && l->w != r->w && r->sized)
            lint("assignwidth: " + where + " assigns " + std::to_string(r->w) + " bits to " +
                 std::to_string(l->w));
    }

    RSP stmt(Scope *s, const StmtP &st, Net *ret) {
        auto r = std::make_shared<RS>();
        r->k = st->k;
        r->line = st->line;
        switch (st->k) {
            case Stmt::Null:
                break;
            case Stmt::Block:
                for (auto &b : st->b) r->b.push_back(stmt(s, b, ret));
                break;
            case Stmt::Assign:
                r->r = resolve(s, st->r);
                r->l = lval(s, st->l);
                r->nb = st->nb;
                check_assign(r->l, r->r, s->name + " line " + std::to_string(st->line));
                break;
            case Stmt::If:
                r->c = resolve(s, st->c);
                for (auto &b : st->b) r->b.push_back(stmt(s, b, ret));
                break;
            case Stmt::Case: {
                r->c = resolve(s, st->c);
                r->unique = st->op == "unique";
                std::set<std::string> seen;
                for (auto &it : st->items) {
                    std::vector<RXP> v;
                    for (auto &e : it.v) {
                        v.push_back(resolve(s, e));
                        if (is_const(v.back())) {
                            BV k = eval_self(v.back());
                            if (!seen.insert(k.str()).second)
                                lint("casedup: case item " + k.str() + " repeated in " + s->name);
                            if (v.back()->sized && v.back()->w != r->c->w)
                                lint("casewidth: case item of width " + std::to_string(v.back()->w) +
                                     " against " + std::to_string(r->c->w));
                        }
                    }
                    r->items.emplace_back(v, stmt(s, it.body, ret));
                }
                break;
            }
            case Stmt::For: {
                Type t = type(s, *st->d.type);
                Net *n = new_net(s->name + st->d.name, t);
                n->local = true;
                auto it = s->locals.find(st->d.name);
                Net *old = it == s->locals.end() ? nullptr : it->second;
                s->locals[st->d.name] = n;
                r->iter = n;
                r->l = resolve(s, st->l);
                r->c = resolve(s, st->c);
                r->r = resolve(s, st->r);
                r->op = st->op;
                r->b.push_back(stmt(s, st->b[0], ret));
                if (old)
                    s->locals[st->d.name] = old;
                else
                    s->locals.erase(st->d.name);
                break;
            }
            case Stmt::Call:
                r->r = call(s, st->r, true);
                break;
            case Stmt::Return:
                if (st->r) {
                    if (!ret) err("return with a value");
                    r->r = resolve(s, st->r);
                    if (r->r->w != ret->w && r->r->sized) lint("returnwidth: in " + s->name);
                    auto l = std::make_shared<RX>();
                    l->k = RX::Ref;
                    l->net = ret;
                    l->w = ret->w;
                    r->l = l;
                }
                break;
            case Stmt::Break:
                break;
            case Stmt::Assert:
                r->c = resolve(s, st->c);
                for (auto &b : st->b) r->b.push_back(stmt(s, b, ret));
                break;
            case Stmt::Delay:
                if (st->r) r->r = resolve(s, st->r);
                for (auto &b : st->b) r->b.push_back(stmt(s, b, ret));
                break;
        }
        return r;
    }

    void resolve_func(RFunc *f) {
        if (f->resolved || f->external) return;
        if (f->active) err("recursive function " + f->name);
        f->active = true;
        auto *ord = rd;
        auto *owr = wr;
        auto *owg = wranges;
        std::set<Net *> r, w;
        rd = &r;
        wr = &w;
        wranges = &f->wranges;
        auto saved = f->scope->locals;
        for (size_t i = 0; i < f->ports.size(); i++) f->scope->locals[f->port_names[i]] = f->ports[i];
        for (auto &d : f->def->locals) {
            Net *n = new_net(f->scope->name + f->name + "." + d.name, decl_type(f->scope, d));
            n->local = true;
            f->scope->locals[d.name] = n;
        }
        if (f->ret && !f->scope->locals.count(f->name)) f->scope->locals[f->name] = f->ret;
        f->body = stmt(f->scope, f->def->body, f->ret);
        f->scope->locals = saved;
        for (auto *n : r)
            if (!n->local) f->reads.insert(n);
        for (auto *n : w)
            if (!n->local) f->writes.insert(n);
        rd = ord;
        wr = owr;
        wranges = owg;
        f->active = false;
        f->resolved = true;
    }

    // ---- elaboration
    struct PendingProc {
        Scope *s;
        const Item *it;
        std::string where;
    };
    struct PendingConn {
        Scope *outer;
        Net *inner;
        std::string dir;
        ExprP e;
        std::string where;
    };
    std::vector<PendingProc> pprocs;
    std::vector<PendingConn> pconns;

    Net *add_net(Scope *s, const std::string &name, const Type &t) {
        declare(s, name);
        Net *n = new_net(s->name + name, t);
        s->nets[name] = n;
        by_name[n->name] = n;
        return n;
    }
    std::map<Scope *, std::set<std::string>> declared;
    void declare(Scope *s, const std::string &name) {
        if (!declared[s].insert(name).second)
            err("identifier " + name + " declared twice in " + (s->mod ? s->mod->name : s->name));
    }

    Scope *elab(const Module &m, const std::string &prefix, const Inst *inst, Scope *outer) {
        if (++depth > 64) err("instantiation too deep (recursive?) at " + prefix);
        scopes.push_back(std::make_unique<Scope>());
        Scope *s = scopes.back().get();
        s->name = prefix;
        s->mod = &m;
        // parameters
        std::set<std::string> given;
        for (auto &p : m.params) {
            declare(s, p.name);
            ParamVal v;
            v.is_type = p.is_type;
            bool done = false;
            if (inst) {
                for (auto &[n, e] : inst->params)
                    if (n == p.name) {
                        given.insert(n);
                        if (p.local) err("override of localparam " + n);
                        if (p.is_type) {
                            if (e->k == Expr::Id && find_type(outer, e->op)) {
                                v.ty = *find_type(outer, e->op);
                            } else
                                err("type parameter " + n + " given a value");
                        } else {
                            auto x = resolve(outer, e);
                            v.v = eval_self(x);
                            v.sgn = x->sgn;
                            v.sized = x->sized;
                        }
                        done = true;
                    }
                for (auto &[n, t] : inst->type_params)
                    if (n == p.name) {
                        given.insert(n);
                        if (!p.is_type) err("value parameter " + n + " given a type");
                        v.ty = type(outer, *t);
                        done = true;
                    }
            }
            if (!done && !outer && prefix.empty() && !p.is_type && !p.local && opt.params.count(p.name)) {
                v.v = opt.params.at(p.name);
                v.sgn = false;
                v.sized = true;
                done = true;
            }
            if (!done) {
                if (p.is_type) {
                    if (!p.type) err("type parameter " + p.name + " of " + m.name + " has no value");
                    v.ty = type(s, *p.type);
                } else {
                    if (!p.val) err("parameter " + p.name + " of " + m.name + " has no value");
                    auto x = resolve(s, p.val);
                    v.v = eval_self(x);
                    v.sgn = x->sgn;
                    v.sized = x->sized;
                }
            }
            if (!p.is_type && p.type) {
                // explicit type: enum etc. may be declared later in the module or be global
                Type *t = find_type(s, p.type->base);
                if (t || p.type->base == "logic" || p.type->base == "int") {
                    Type tt = type(s, *p.type);
                    v.v = v.v.resize(tt.width(), v.sgn);
                    v.sgn = tt.sgn;
                    v.sized = true;
                } else
                    err("parameter " + p.name + " of unknown type " + p.type->base);
            }
            s->params[p.name] = v;
            s->pnames.push_back(p.name);
        }
        if (inst) {
            std::set<std::string> ov;
            for (auto &[n, e] : inst->params)
                if (!ov.insert(n).second) err("parameter " + n + " given twice");
            for (auto &[n, e] : inst->params)
                if (!given.count(n)) err("module " + m.name + " has no parameter " + n);
            for (auto &[n, e] : inst->type_params)
                if (!given.count(n)) err("module " + m.name + " has no parameter " + n);
        }
        // port interfaces first need connections
        std::map<std::string, ExprP> conn;
        if (inst) {
            if (!inst->pos.empty()) {
                if (inst->pos.size() != m.ports.size()) err("positional connection count");
                for (size_t i = 0; i < inst->pos.size(); i++) conn[m.ports[i].d.name] = inst->pos[i];
            }
            for (auto &[n, e] : inst->conns) {
                if (conn.count(n)) err("port " + n + " of " + m.name + " connected twice");
                conn[n] = e;
            }
        }
        // typedefs may be used by ports only when global; local ones come first here, which
        // accepts the usual tools' behaviour of not needing them in ports
        std::set<std::string> portnames;
        for (auto &p : m.ports) portnames.insert(p.d.name);
        for (auto &[n, e] : conn)
            if (!portnames.count(n)) err("module " + m.name + " has no port " + n);
        auto do_port = [&](const Port &p) {
            if (!p.iface.empty()) {
                declare(s, p.d.name);
                auto mi = u.modules.find(p.iface);
                if (mi == u.modules.end() || !mi->second->is_iface) err("unknown interface " + p.iface);
                if (!p.modport.empty() && !mi->second->modports.count(p.modport))
                    err("interface " + p.iface + " has no modport " + p.modport);
                if (!inst) {
                    // top level interface port: make a free-standing instance of it
                    Scope *is = elab(*mi->second, prefix + p.d.name + ".", nullptr, nullptr);
                    depth--;
                    s->kids[p.d.name] = is;
                    return;
                }
                auto c = conn.find(p.d.name);
                if (c == conn.end() || !c->second) err("interface port " + p.d.name + " of " + m.name + " unconnected");
                ExprP e = c->second;
                std::string mp;
                if (e->k == Expr::Member) {
                    mp = e->op;
                    e = e->a[0];
                }
                if (e->k != Expr::Id) err("bad interface connection");
                auto f = find(outer, e->op);
                if (!f.scope || !f.scope->mod || !f.scope->mod->is_iface)
                    err("interface port " + p.d.name + " connected to a non-interface " + e->op);
                if (f.scope->mod->name != p.iface) err("interface type mismatch at " + p.d.name);
                if (!mp.empty() && !f.scope->mod->modports.count(mp)) err("no modport " + mp);
                if (!mp.empty() && !p.modport.empty() && mp != p.modport) err("modport mismatch at " + p.d.name);
                s->kids[p.d.name] = f.scope;
                return;
            }
            Net *n = add_net(s, p.d.name, decl_type(s, p.d));
            if (p.dir == "input") {
                n->input_port = true;
                if (!inst) n->top_input = true;
            }
            if (inst) {
                auto c = conn.find(p.d.name);
                if (c == conn.end() || !c->second) {
                    if (p.dir != "output") lint("unconnected: port " + p.d.name + " of instance " + prefix);
                } else
                    pconns.push_back({outer, n, p.dir, c->second, prefix + p.d.name});
            }
        };
        for (auto &p : m.ports) do_port(p);
        for (auto &[n, d] : m.typedefs) {
            declare(s, n);
            add_typedef(s, n, d, s->types, s->enums);
            if (d.e)
                for (auto &[en, ev] : d.e->vals) declare(s, en);
        }
        for (auto &d : m.vars) {
            if (u.modules.count(d.type->base)) err("module used as a type");
            Net *n = add_net(s, d.name, decl_type(s, d));
            if (d.init) {
                auto x = resolve(s, d.init);
                n->v = eval_self(x).resize(n->w, x->sgn);
            }
        }
        for (auto &f : m.funcs) {
            declare(s, f.name);
            funcs.push_back(std::make_unique<RFunc>());
            RFunc *r = funcs.back().get();
            r->name = f.name;
            r->def = &f;
            r->scope = s;
            if (f.ret) {
                r->ret = new_net(s->name + f.name, type(s, *f.ret));
                r->ret->local = true;
            }
            std::set<std::string> seen;
            for (auto &p : f.ports) {
                if (!seen.insert(p.d.name).second) err("duplicate argument " + p.d.name);
                Net *n = new_net(s->name + f.name + "." + p.d.name, decl_type(s, p.d));
                n->local = true;
                r->ports.push_back(n);
                r->port_names.push_back(p.d.name);
            }
            s->funcs[f.name] = r;
        }
        // interface instances before everything else, then other instances
        items(s, m.items);
        depth--;
        return s;
    }

    void items(Scope *s, const std::vector<ItemP> &v) {
        for (auto &it : v)
            if (it->k == Item::Instance) {
                auto mi = u.modules.find(it->inst.mod);
                if (mi != u.modules.end() && mi->second->is_iface) instance(s, *it, *mi->second);
            }
        for (auto &it : v) {
            if (it->k == Item::Instance) {
                auto mi = u.modules.find(it->inst.mod);
                if (mi == u.modules.end()) err("unknown module " + it->inst.mod);
                if (!mi->second->is_iface) instance(s, *it, *mi->second);
            } else if (it->k == Item::GenFor) {
                int64_t i = cint(s, it->gstart);
                int guard = 0;
                for (;;) {
                    scopes.push_back(std::make_unique<Scope>());
                    Scope *g = scopes.back().get();
                    g->parent = s;
                    g->mod = nullptr;
                    std::string lbl = it->label.empty() ? "genblk" + std::to_string(it->line) : it->label;
                    g->name = s->name + lbl + "[" + std::to_string(i) + "].";
                    ParamVal pv;
                    pv.v = BV::sval(32, i);
                    pv.sgn = true;
                    pv.sized = false;
                    g->params[it->genvar] = pv;
                    auto c = resolve(g, it->gcond);
                    if (!eval_self(c).any()) break;
                    items(g, it->items);
                    int64_t stp = cint(g, it->gstep);
                    if (it->gop == "+=")
                        i += stp;
                    else if (it->gop == "-=")
                        i -= stp;
                    else
                        i = stp;
                    if (++guard > 4096) err("generate loop does not end");
                }
            } else if (it->k == Item::Assertion || it->k == Item::Final) {
            } else
                pprocs.push_back({s, it.get(), s->name + "@" + std::to_string(it->line)});
        }
    }

    void instance(Scope *s, const Item &it, const Module &m) {
        declare(s, it.inst.name);
        Scope *k = elab(m, s->name + it.inst.name + ".", &it.inst, s);
        s->kids[it.inst.name] = k;
    }

    Proc *new_proc(Item::K k, const std::string &where) {
        procs.push_back(std::make_unique<Proc>());
        auto *p = procs.back().get();
        p->k = k;
        p->where = where;
        return p;
    }

    void build(const std::string &topname) {
        for (auto &[n, d] : u.typedefs) add_typedef(nullptr_scope(), n, d, gtypes, genums);
        auto it = u.modules.find(topname);
        if (it == u.modules.end()) err("no module " + topname);
        top = elab(*it->second, "", nullptr, nullptr);
        for (auto &c : pconns) {
            auto *p = new_proc(Item::Assign, c.where);
            p->is_conn = true;
            auto inner = std::make_shared<RX>();
            inner->k = RX::Ref;
            inner->net = c.inner;
            inner->w = c.inner->w;
            inner->sgn = c.inner->t.sgn;
            rd = &p->reads;
            wr = &p->writes;
            std::vector<std::tuple<Net *, uint32_t, uint32_t>> rg;
            wranges = &rg;
            if (c.dir == "input") {
                p->l = inner;
                p->r = resolve(c.outer, c.e);
                p->writes.insert(c.inner);
                rg.emplace_back(c.inner, 0, c.inner->w - 1);
                if (p->r->sized && p->r->w != inner->w)
                    lint("portwidth: " + c.where + " has " + std::to_string(inner->w) + " bits, connected to " +
                         std::to_string(p->r->w));
            } else if (c.dir == "output") {
                p->l = lval(c.outer, c.e);
                p->r = inner;
                mark_read(c.inner, 0, c.inner->w);
                if (p->l->w != inner->w)
                    lint("portwidth: " + c.where + " has " + std::to_string(inner->w) + " bits, connected to " +
                         std::to_string(p->l->w));
            } else
                err("inout ports are not simulated");
            add_drivers(p, rg, "connection");
        }
        for (auto &pp : pprocs) {
            auto *p = new_proc(pp.it->k, pp.where);
            rd = &p->reads;
            wr = &p->writes;
            std::vector<std::tuple<Net *, uint32_t, uint32_t>> rg;
            wranges = &rg;
            if (pp.it->k == Item::Assign) {
                p->r = resolve(pp.s, pp.it->r);
                p->l = lval(pp.s, pp.it->l);
                check_assign(p->l, p->r, "assign in " + pp.where);
            } else {
                p->body = stmt(pp.s, pp.it->body, nullptr);
                for (auto &[pos, e] : pp.it->events) {
                    auto x = resolve(pp.s, e);
                    if (x->k != RX::Ref || !x->steps.empty() || x->net->w != 1) {
                        if (x->k != RX::Ref) err("event expression");
                        if (x->w != 1) lint("eventwidth: " + pp.where);
                        if (!x->steps.empty()) err("event on a select");
                    }
                    p->ev.emplace_back(x->net, pos);
                }
            }
            const char *kn = pp.it->k == Item::Assign  ? "assign"
                             : pp.it->k == Item::Comb  ? "always_comb"
                             : pp.it->k == Item::FF    ? "always_ff"
                             : pp.it->k == Item::Latch ? "always_latch"
                                                       : "initial";
            if (pp.it->k != Item::Initial) add_drivers(p, rg, kn);
        }
        rd = wr = nullptr;
        wranges = nullptr;
        // resolve functions nobody calls, to find errors in them
        for (size_t i = 0; i < funcs.size(); i++) {
            if (!funcs[i]->resolved) resolve_func(funcs[i].get());
        }
        for (auto &p : procs) {
            switch (p->k) {
                case Item::Assign:
                case Item::Latch:
                case Item::Comb:
                    for (auto *n : p->reads) {
                        if (n->local) continue;
                        if (p->k != Item::Assign && p->writes.count(n)) continue;
                        n->deps.push_back(p.get());
                    }
                    break;
                case Item::FF:
                    for (auto &[n, pos] : p->ev) {
                        n->edges.push_back(p.get());
                        n->read = true;
                        n->rd[0] = true;
                    }
                    break;
                case Item::Always:
                    err("plain always block is not simulated");
                default:
                    break;
            }
        }
        // undriven bits that something reads
        for (auto &n : nets) {
            if (n->local || n->top_input) continue;
            std::vector<bool> d(n->w);
            for (auto &x : n->drv)
                for (uint32_t i = x.lo; i <= x.hi && i < n->w; i++) d[i] = true;
            bool und = false, any = false;
            for (uint32_t i = 0; i < n->w; i++) {
                if (n->rd[i] && !d[i]) und = true;
                any |= d[i];
            }
            if (und) lint("undriven: " + n->name + (any ? " (some bits)" : ""));
        }
        for (auto &p : top->mod->ports)
            if (p.dir == "output") {
                Net *n = top->nets.at(p.d.name);
                std::vector<bool> d(n->w);
                for (auto &x : n->drv)
                    for (uint32_t i = x.lo; i <= x.hi && i < n->w; i++) d[i] = true;
                for (uint32_t i = 0; i < n->w; i++)
                    if (!d[i]) {
                        lint("undriven: output " + n->name);
                        break;
                    }
            }
        for (auto &p : procs)
            if (p->k != Item::FF) sched(p.get());
    }

    std::unique_ptr<Scope> nullsc;
    Scope *nullptr_scope() {
        if (!nullsc) nullsc = std::make_unique<Scope>();
        return nullsc.get();
    }

    void add_drivers(Proc *p, const std::vector<std::tuple<Net *, uint32_t, uint32_t>> &rg,
                     const std::string &kind) {
        for (auto &[n, lo, hi] : rg) {
            if (n->local) continue;
            for (auto &o : n->drv) {
                if (o.who == p) {
                    continue;
                }
                if (lo <= o.hi && o.lo <= hi)
                    lint("multidriver: " + n->name + " driven by " + o.kind + " and " + kind);
            }
            if (n->top_input) lint("inputdriven: top input " + n->name + " driven inside the design");
            n->drv.push_back({p, kind, lo, hi});
        }
    }

    // ---- evaluation
    static BV fit(const BV &v, uint32_t w, bool sgn) { return v.w == w ? v : v.resize(w, sgn); }

    bool offset(const RX *x, uint32_t &lo) {
        int64_t o = 0;
        bool ok = true;
        for (auto &s : x->steps) {
            if (s.idx) {
                BV v = eval(s.idx, s.idx->w, s.idx->sgn);
                int64_t i = s.idx->sgn ? v.resize(64, true).s64() : (v.fits64() ? (int64_t)v.u64() : -1);
                int64_t l = std::min(s.left, s.right), h = std::max(s.left, s.right);
                if (i < l || i > h) {
                    ok = false;
                    continue;
                }
                o += (s.left >= s.right ? i - s.right : s.right - i) * s.ew;
            } else
                o += s.off;
        }
        lo = (uint32_t)o;
        return ok;
    }

    uint64_t oob_reads = 0;
    BV eval(const RXP &xp, uint32_t w, bool sgn) {
        const RX *x = xp.get();
        switch (x->k) {
            case RX::Const:
                if (x->op == "fill") return ~BV(w, 0);
                return fit(x->val, w, sgn);
            case RX::Str: {
                BV v(x->w, 0);
                uint32_t n = (uint32_t)x->op.size();
                for (uint32_t i = 0; i < n && i * 8 < x->w; i++)
                    v.insert(i * 8, BV(8, (unsigned char)x->op[n - 1 - i]));
                return fit(v, w, false);
            }
            case RX::Ref: {
                if (x->steps.empty()) return fit(x->net->v, w, sgn);
                uint32_t lo;
                if (!offset(x, lo)) {
                    oob_reads++;
                    BV g(x->w, 0);
                    for (uint32_t i = 0; i < g.nw(); i++) g.d[i] = rnd("oob", i);
                    g.mask();
                    return fit(g, w, sgn);
                }
                return fit(x->net->v.slice(lo, x->w), w, sgn);
            }
            case RX::Unary: {
                const std::string &o = x->op;
                if (o == "~") return ~eval(x->a[0], w, sgn);
                if (o == "-") return BV::neg(eval(x->a[0], w, sgn));
                if (o == "+") return eval(x->a[0], w, sgn);
                BV a = eval(x->a[0], x->a[0]->w, x->a[0]->sgn);
                bool r = false;
                if (o == "!")
                    r = !a.any();
                else if (o == "|")
                    r = a.any();
                else if (o == "~|")
                    r = !a.any();
                else if (o == "&")
                    r = a.all();
                else if (o == "~&")
                    r = !a.all();
                else {
                    for (uint32_t i = 0; i < a.w; i++) r ^= a.bit(i);
                    if (o == "~^") r = !r;
                }
                return BV(w, r);
            }
            case RX::Binary: {
                const std::string &o = x->op;
                auto &l = x->a[0], &r = x->a[1];
                if (o == "&&" || o == "||") {
                    bool a = eval(l, l->w, l->sgn).any();
                    bool b = eval(r, r->w, r->sgn).any();
                    return BV(w, o == "&&" ? a && b : a || b);
                }
                if (o == "==" || o == "!=" || o == "===" || o == "!==" || o == "<" || o == "<=" ||
                    o == ">" || o == ">=") {
                    uint32_t cw = std::max(l->w, r->w);
                    bool cs = l->sgn && r->sgn;
                    BV a = eval(l, cw, cs), b = eval(r, cw, cs);
                    int c = cs ? BV::scmp(a, b) : BV::ucmp(a, b);
                    bool v;
                    if (o == "==" || o == "===")
                        v = c == 0;
                    else if (o == "!=" || o == "!==")
                        v = c != 0;
                    else if (o == "<")
                        v = c < 0;
                    else if (o == "<=")
                        v = c <= 0;
                    else if (o == ">")
                        v = c > 0;
                    else
                        v = c >= 0;
                    return BV(w, v);
                }
                if (o == "<<" || o == "<<<" || o == ">>" || o == ">>>" || o == "**") {
                    BV a = eval(l, w, sgn);
                    BV b = eval(r, r->w, r->sgn);
                    if (o == "<<" || o == "<<<") return a.shl(b.shamt());
                    if (o == ">>") return a.shr(b.shamt(), false);
                    if (o == ">>>") return a.shr(b.shamt(), sgn);
                    return BV::pow(a, b, r->sgn);
                }
                BV a = eval(l, w, sgn), b = eval(r, w, sgn);
                if (o == "+") return BV::add(a, b);
                if (o == "-") return BV::sub(a, b);
                if (o == "*") return BV::mul(a, b);
                if (o == "/") return b.any() ? BV::div(a, b, sgn, false) : divzero(w);
                if (o == "%") return b.any() ? BV::div(a, b, sgn, true) : divzero(w);
                BV z(w, 0);
                for (uint32_t i = 0; i < z.nw(); i++) {
                    if (o == "&")
                        z.d[i] = a.d[i] & b.d[i];
                    else if (o == "|")
                        z.d[i] = a.d[i] | b.d[i];
                    else if (o == "^")
                        z.d[i] = a.d[i] ^ b.d[i];
                    else if (o == "~^")
                        z.d[i] = ~(a.d[i] ^ b.d[i]);
                    else
                        throw Error("run", "operator " + o);
                }
                z.mask();
                return z;
            }
            case RX::Cond: {
                bool c = eval(x->a[0], x->a[0]->w, x->a[0]->sgn).any();
                return eval(x->a[c ? 1 : 2], w, sgn);
            }
            case RX::Concat: {
                BV z(x->w, 0);
                uint32_t lo = x->w;
                for (auto &c : x->a) {
                    lo -= c->w;
                    z.insert(lo, eval(c, c->w, c->sgn));
                }
                return fit(z, w, sgn);
            }
            case RX::Repl: {
                BV z(x->w, 0);
                BV c = eval(x->a[0], x->a[0]->w, false);
                for (uint32_t i = 0; i < x->rep; i++) z.insert(i * c.w, c);
                return fit(z, w, sgn);
            }
            case RX::CastSize: {
                BV a = eval(x->a[0], x->a[0]->w, x->a[0]->sgn);
                return fit(a.resize(x->w, x->a[0]->sgn), w, sgn);
            }
            case RX::CastSign: {
                BV a = eval(x->a[0], x->a[0]->w, x->a[0]->sgn);
                return fit(a, w, sgn);
            }
            case RX::Call:
                return fit(do_call(x), w, sgn);
            case RX::SysCall: {
                if (x->a.empty()) return BV(w, 0);
                BV a = eval(x->a[0], x->a[0]->w, x->a[0]->sgn);
                uint64_t n = 0;
                for (uint32_t i = 0; i < a.w; i++) n += a.bit(i);
                uint64_t r = 0;
                if (x->op == "$countones")
                    r = n;
                else if (x->op == "$onehot")
                    r = n == 1;
                else if (x->op == "$onehot0")
                    r = n <= 1;
                else if (x->op == "$isunknown")
                    r = 0;
                else if (x->op == "$bits")
                    r = x->a[0]->w;
                else if (x->op == "$clog2") {
                    if (a.any()) {
                        BV m = BV::sub(a, BV(a.w, 1));
                        while (m.any()) {
                            m = m.shr(1, false);
                            r++;
                        }
                    }
                } else
                    throw Error("run", "unsupported system function " + x->op);
                return fit(BV(x->w, r), w, sgn);
            }
        }
        throw Error("run", "bad expression");
    }
    uint64_t divzeros = 0;
    BV divzero(uint32_t w) {
        divzeros++;
        BV g(w, 0);
        for (uint32_t i = 0; i < g.nw(); i++) g.d[i] = rnd("divzero", i);
        g.mask();
        return g;
    }

    BV do_call(const RX *x) {
        RFunc *f = x->fn;
        if (f->external) throw Error("run", "external function " + f->name);
        std::vector<BV> v;
        for (size_t i = 0; i < x->a.size(); i++) {
            uint32_t w = std::max(x->a[i]->w, f->ports[i]->w);
            v.push_back(eval(x->a[i], w, x->a[i]->sgn).resize(f->ports[i]->w, false));
        }
        for (size_t i = 0; i < v.size(); i++) f->ports[i]->v = v[i];
        if (f->ret) {
            BV g(f->ret->w, 0);
            for (uint32_t i = 0; i < g.nw(); i++) g.d[i] = rnd("fret", i);
            g.mask();
            f->ret->v = g;
        }
        run(f->body.get());
        return f->ret ? f->ret->v : BV(1, 0);
    }

    void sched(Proc *p) {
        if (!p->pending) {
            p->pending = true;
            (p->k == Item::Latch ? lq : q).push_back(p);
        }
    }

    void write(Net *n, uint32_t lo, const BV &v) {
        BV old = n->v;
        n->v.insert(lo, v);
        if (n->local) return;
        if (old == n->v) return;
        for (auto *p : n->deps) sched(p);
        if (!n->edges.empty() && old.bit(0) != n->v.bit(0)) {
            bool now1 = n->v.bit(0);
            for (auto *p : n->edges)
                for (auto &[m, pos] : p->ev)
                    if (m == n && pos == now1) {
                        sched(p);
                        break;
                    }
        }
    }

    void assign(const RX *l, const BV &v, bool nb) {
        if (l->k == RX::Concat) {
            uint32_t lo = l->w;
            for (auto &c : l->a) {
                lo -= c->w;
                assign(c.get(), v.slice(lo, c->w), nb);
            }
            return;
        }
        uint32_t lo;
        if (!offset(l, lo)) return;
        BV t = v;
        if (t.w != l->w) t = t.resize(l->w, false);
        if (nb)
            nba.push_back({l->net, lo, t});
        else
            write(l->net, lo, t);
    }

    Flow run(const RS *s) {
        switch (s->k) {
            case Stmt::Null:
                return Next;
            case Stmt::Block:
                for (auto &b : s->b) {
                    Flow f = run(b.get());
                    if (f != Next) return f;
                }
                return Next;
            case Stmt::Assign: {
                uint32_t w = std::max(s->l->w, s->r->w);
                BV v = eval(s->r, w, s->r->sgn).resize(s->l->w, false);
                assign(s->l.get(), v, s->nb);
                return Next;
            }
            case Stmt::If:
                if (eval(s->c, s->c->w, s->c->sgn).any()) return run(s->b[0].get());
                if (s->b.size() > 1) return run(s->b[1].get());
                return Next;
            case Stmt::Case: {
                uint32_t w = s->c->w;
                bool sg = s->c->sgn;
                for (auto &it : s->items)
                    for (auto &e : it.first) {
                        w = std::max(w, e->w);
                        sg = sg && e->sgn;
                    }
                BV c = eval(s->c, w, sg);
                const RS *hit = nullptr, *def = nullptr;
                int n = 0;
                for (auto &it : s->items) {
                    if (it.first.empty()) {
                        def = it.second.get();
                        continue;
                    }
                    bool m = false;
                    for (auto &e : it.first) m |= eval(e, w, sg) == c;
                    if (m) {
                        if (!hit) hit = it.second.get();
                        n++;
                    }
                }
                if (s->unique && (n > 1 || (n == 0 && !def))) uniq_viol++;
                if (hit) return run(hit);
                if (def) return run(def);
                return Next;
            }
            case Stmt::For: {
                Net *n = s->iter;
                n->v = eval(s->l, std::max(n->w, s->l->w), s->l->sgn).resize(n->w, false);
                int guard = 0;
                for (;;) {
                    if (!eval(s->c, s->c->w, s->c->sgn).any()) break;
                    Flow f = run(s->b[0].get());
                    if (f == Brk) break;
                    if (f == Ret) return f;
                    BV st = eval(s->r, std::max(n->w, s->r->w), s->r->sgn).resize(n->w, false);
                    n->v = s->op == "+=" ? BV::add(n->v, st) : s->op == "-=" ? BV::sub(n->v, st) : st;
                    if (++guard > 100000) throw Error("run", "for loop does not end");
                }
                return Next;
            }
            case Stmt::Call:
                if (s->r->k == RX::Call) do_call(s->r.get());
                return Next;
            case Stmt::Return:
                if (s->r) {
                    uint32_t w = std::max(s->l->w, s->r->w);
                    s->l->net->v = eval(s->r, w, s->r->sgn).resize(s->l->w, false);
                }
                return Ret;
            case Stmt::Break:
                return Brk;
            case Stmt::Assert:
                return Next;
            case Stmt::Delay:
                throw Error("run", "delays are not simulated");
        }
        return Next;
    }

    void exec(Proc *p) {
        if (p->k == Item::Assign) {
            uint32_t w = std::max(p->l->w, p->r->w);
            BV v = eval(p->r, w, p->r->sgn).resize(p->l->w, false);
            assign(p->l.get(), v, false);
        } else
            run(p->body.get());
    }

    void settle() {
        uint64_t n = 0;
        for (;;) {
            // latches run after everything else is stable, so that they see no glitches
            while (!q.empty() || !lq.empty()) {
                auto &cur = q.empty() ? lq : q;
                Proc *p = cur.front();
                cur.pop_front();
                p->pending = false;
                if (++n > 20000 + 200 * procs.size()) {
                    q.clear();
                    lq.clear();
                    for (auto &x : procs) x->pending = false;
                    throw Error("run", "no convergence (combinational loop), last at " + p->where);
                }
                exec(p);
            }
            if (nba.empty()) return;
            auto v = std::move(nba);
            nba.clear();
            for (auto &x : v) write(x.n, x.lo, x.v);
        }
    }
};

Design::Design(const Unit &u, const std::string &top, Options o) : p(new DesignImpl(u, o)) {
    p->build(top);
    p->settle();
}
Design::~Design() = default;
std::vector<std::pair<std::string, std::string>> Design::ports() const {
    std::vector<std::pair<std::string, std::string>> r;
    for (auto &x : p->top->mod->ports) r.emplace_back(x.dir, x.d.name);
    return r;
}
bool Design::has(const std::string &n) const { return p->by_name.count(n) > 0; }
static Net *net(const DesignImpl &p, const std::string &n) {
    auto it = p.by_name.find(n);
    if (it == p.by_name.end()) throw Error("run", "no net " + n);
    return it->second;
}
uint32_t Design::width(const std::string &n) const { return net(*p, n)->w; }
Type Design::type_of(const std::string &n) const { return net(*p, n)->t; }
void Design::set(const std::string &n, const BV &v) {
    Net *x = net(*p, n);
    p->write(x, 0, v.w == x->w ? v : v.resize(x->w, false));
}
BV Design::get(const std::string &n) const { return net(*p, n)->v; }
void Design::settle() { p->settle(); }
std::vector<std::string> Design::net_names() const {
    std::vector<std::string> r;
    for (auto &[n, x] : p->by_name) r.push_back(n);
    return r;
}
const std::vector<std::string> &Design::lint() const { return p->lints; }
uint64_t Design::unique_violations() const { return p->uniq_viol; }
std::vector<std::string> Design::trace() const { return {}; }

}  // namespace sv
