// P21 passes that insert or change the clocking of a design: pipeline stages, clock enables,
// synchronous resets, removal of asynchronous resets
#include <functional>

#include "context.hh"
#include "expr.hh"
#include "formal.hh"
#include "generator.hh"
#include "pass.hh"
#include "port.hh"
#include "rdl.hh"
#include "stmt.hh"
#include "sv.hh"
using namespace rdl;
namespace k = kratos;

namespace {
struct X;
using XP = std::shared_ptr<X>;
struct X {
    enum K { Const, Var, Add, Xor, Not, EqC, Bit } k = Const;
    uint64_t c = 0;
    uint32_t w = 1;
    int v = 0;
    XP a, b;
};
struct Vr {
    std::string name;
    uint32_t w;
    enum K { In, Reg, Wire, Out, Inst } k;
    int inst = -1, port = -1;
};
struct As {
    int v;
    XP x, cond;  // cond may be null
};
struct FF {
    enum R { None, Async, Sync } r = None;
    bool touch = true, own_ce = false, cmp = false, has_else = true;
    int ce_style = 0;  // how the reset is written
    std::vector<As> rst, a;
    std::vector<As> tail;  // after the branch on the reset
};
struct Sub {
    int mod;
    std::vector<std::pair<int, XP>> in;  // our variable of the instance
    int ce = 0;                          // 0: left alone, 1: constant, 2: our clock enable, 3: ce_x
    int flush = 0;                       // same for a reset the module already has
    XP ce_x, flush_x;
};
struct Mod {
    std::string name;
    std::vector<Vr> v;
    std::vector<std::pair<int, XP>> cont;  // in order
    std::vector<FF> ff;
    std::vector<Sub> sub;
    std::vector<int> order;  // >= 0: continuous assignment, < 0: instance ~x
    bool ce = false, flush = false, touch = true;
    int stages = 0;
    bool named_clk = false;
};
struct D {
    std::vector<Mod> m;  // 0 is the top
    bool ce_pass = false, sync_pass = false, over = false, pipe = false, unasync = false, low = false, dbg = false, flow = true;
    bool srst = false;
    int spell = 0;
};
uint64_t mask(uint32_t w) { return (1ull << w) - 1; }
uint64_t ev(const X &x, const std::vector<uint64_t> &v) {
    switch (x.k) {
        case X::Const: return x.c;
        case X::Var: return v[x.v];
        case X::Add: return (ev(*x.a, v) + ev(*x.b, v)) & mask(x.w);
        case X::Xor: return ev(*x.a, v) ^ ev(*x.b, v);
        case X::Not: return ~ev(*x.a, v) & mask(x.w);
        case X::EqC: return v[x.v] == x.c;
        case X::Bit: return v[x.v] >> x.c & 1;
    }
    return 0;
}
std::string vn(const Mod &m, int v) { return m.v[v].k == Vr::Inst ? "u" + std::to_string(m.v[v].inst) + "." + m.v[v].name : m.v[v].name; }
std::string show(const Mod &m, const X &x) {
    switch (x.k) {
        case X::Const: return std::to_string(x.w) + "'d" + std::to_string(x.c);
        case X::Var: return vn(m, x.v);
        case X::Add: return "(" + show(m, *x.a) + "+" + show(m, *x.b) + ")";
        case X::Xor: return "(" + show(m, *x.a) + "^" + show(m, *x.b) + ")";
        case X::Not: return "~" + show(m, *x.a);
        case X::EqC: return "(" + vn(m, x.v) + "==" + std::to_string(x.c) + ")";
        case X::Bit: return vn(m, x.v) + "[" + std::to_string(x.c) + "]";
    }
    return "";
}
std::string show(const D &d) {
    std::string o = std::string("passes:") + (d.pipe ? " pipeline" : "") + (d.ce_pass ? " clock enable" : "") + (d.sync_pass ? d.over ? " sync reset over clock enable" : " sync reset" : "") + (d.unasync ? " remove async reset" : "") + (d.flow ? "" : ", plain flow") + (d.low ? ", reset active low" : "") + "\n";
    for (auto const &m : d.m) {
        o += "module " + m.name + (m.ce ? ", has clk_en" : "") + (m.flush ? ", has flush" : "") + (m.touch ? "" : ", dont_touch") + (m.stages ? ", " + std::to_string(m.stages) + " stages" : "") + (m.named_clk ? ", clock named" : "") + "\n";
        for (auto const &v : m.v)
            if (v.k != Vr::Inst) o += std::string("  ") + (v.k == Vr::In ? "input " : v.k == Vr::Reg ? "reg " : v.k == Vr::Wire ? "wire " : "output ") + v.name + " " + std::to_string(v.w) + "\n";
        for (int q : m.order) {
            if (q >= 0) {
                o += "  assign " + vn(m, m.cont[q].first) + " = " + show(m, *m.cont[q].second) + "\n";
                continue;
            }
            auto const &s = m.sub[~q];
            o += "  instance u" + std::to_string(~q) + " of " + d.m[s.mod].name;
            for (auto const &[v, x] : s.in) o += " ." + m.v[v].name + "(" + show(m, *x) + ")";
            const char *what[] = {"", "1", "clk_en", ""};
            if (s.ce) o += std::string(" .clk_en(") + (s.ce == 3 ? show(m, *s.ce_x) : what[s.ce]) + ")";
            if (s.flush) o += std::string(" .flush(") + (s.flush == 3 ? show(m, *s.flush_x) : s.flush == 1 ? "0" : "flush") + ")";
            o += "\n";
        }
        for (auto const &f : m.ff) {
            o += std::string("  ff ") + (f.r == FF::None ? "no reset" : f.r == FF::Async ? "async reset" : "sync reset") + (f.touch ? "" : ", dont_touch") + (f.own_ce ? ", has its own clock enable" : "") + "\n";
            for (auto const &a : f.rst) o += "    reset " + vn(m, a.v) + " <= " + show(m, *a.x) + "\n";
            for (auto const &a : f.a) o += "    " + (a.cond ? "if " + show(m, *a.cond) + " " : std::string()) + vn(m, a.v) + " <= " + show(m, *a.x) + "\n";
            for (auto const &a : f.tail) o += "    then " + (a.cond ? "if " + show(m, *a.cond) + " " : std::string()) + vn(m, a.v) + " <= " + show(m, *a.x) + "\n";
        }
    }
    return o;
}

// whether the value depends on something unknown
bool un(const X &x, const std::vector<uint8_t> &u) {
    if (x.k == X::Const) return false;
    if (x.a || x.b) return (x.a && un(*x.a, u)) || (x.b && un(*x.b, u));
    return u[x.v];
}

struct G {
    pbt::Case &c;
    pbt::Src &s;
    D d;
    Mod *m = nullptr;
    std::vector<int> rd;
    explicit G(pbt::Case &c) : c(c), s(c.src) {}
    XP cst(uint32_t w) {
        auto x = std::make_shared<X>();
        x->w = w, x->c = s.draw(1ull << w);
        return x;
    }
    XP bit() {
        auto x = std::make_shared<X>();
        x->v = s.pick(rd);
        auto w = m->v[x->v].w;
        if (w == 1 && s.flip()) {
            x->k = X::Var;
        } else if (s.flip() && w > 1) {
            x->k = X::Bit, x->c = s.draw(w);
        } else {
            x->k = X::EqC, x->c = s.draw(1ull << w);
        }
        return x;
    }
    XP val(uint32_t w, int depth = 2) {
        if (w == 1 && s.chance(1, 3)) return bit();
        auto x = std::make_shared<X>();
        x->w = w;
        if (depth && s.flip()) {
            x->k = s.chance(1, 3) ? X::Not : s.flip() ? X::Add : X::Xor;
            x->a = val(w, depth - 1);
            if (x->k != X::Not) x->b = val(w, depth - 1);
            return x;
        }
        std::vector<int> ok;
        for (int v : rd)
            if (m->v[v].w == w) ok.push_back(v);
        if (ok.empty() || s.chance(1, 8)) return cst(w);
        x->k = X::Var, x->v = s.pick(ok);
        return x;
    }
    int add(const std::string &n, uint32_t w, Vr::K kk) {
        m->v.push_back({n, w, kk});
        return (int)m->v.size() - 1;
    }
    uint32_t width() { return s.chance(1, 3) ? 1 : 1 + s.draw(5); }
    Mod module(int index, int level) {
        Mod mm;
        mm.name = index ? "child" + std::to_string(index) : "top";
        auto *keep = m;
        auto krd = rd;
        m = &mm;
        rd.clear();
        bool top = index == 0;
        mm.ce = top ? d.ce_pass || s.chance(1, 3) : s.chance(1, 3);
        if (!d.ce_pass) mm.ce = mm.ce && s.flip();
        mm.flush = d.sync_pass && s.chance(1, 3);
        if (top && d.sync_pass) mm.flush = true;  // so that it can be driven
        mm.touch = top || !s.chance(1, 6);
        if (d.pipe && s.chance(1, 2)) mm.stages = 1 + s.draw(3), mm.named_clk = s.flip();
        int ni = 1 + s.draw(3), nr = s.draw(4), nw = s.draw(3), no = 1 + s.draw(2);
        for (int i = 0; i < ni; i++) rd.push_back(add("i" + std::to_string(i), width(), Vr::In));
        std::vector<int> regs;
        for (int i = 0; i < nr; i++) regs.push_back(add("r" + std::to_string(i), width(), Vr::Reg)), rd.push_back(regs.back());
        std::vector<int> outs, kids;
        for (int i = 0; i < no; i++) {
            uint32_t w = width();
            outs.push_back(add("o" + std::to_string(i), w, Vr::Out));
        }
        if (level < 2) {
            int n = s.draw(level == 0 ? 4 : 2);
            for (int i = 0; i < n; i++) kids.push_back(child(level));
        }
        // wires and instances in any order
        int left = nw;
        while (left || !kids.empty()) {
            if (!kids.empty() && (left == 0 || s.flip())) {
                Sub u;
                u.mod = kids.back();
                kids.pop_back();
                auto const &cm = d.m[u.mod];
                std::vector<int> no_;
                for (size_t q = 0; q < cm.v.size(); q++) {
                    auto v = cm.v[q];
                    if (v.k == Vr::Out) {
                        v.k = Vr::Inst, v.inst = mm.sub.size(), v.port = q;
                        mm.v.push_back(v);
                        no_.push_back(mm.v.size() - 1);
                    } else if (v.k == Vr::In) {
                        v.k = Vr::Inst, v.inst = mm.sub.size(), v.port = q;
                        auto x = val(v.w);
                        mm.v.push_back(v);
                        u.in.push_back({(int)mm.v.size() - 1, x});
                    }
                }
                if (cm.ce) {
                    u.ce = 1 + s.draw(3);
                    if (u.ce == 2 && !mm.ce) u.ce = 1;
                    if (u.ce == 3) u.ce_x = bit();
                }
                if (cm.flush) {
                    u.flush = 1 + s.draw(3);
                    if (u.flush == 2 && !mm.flush) u.flush = 1;
                    if (u.flush == 3) u.flush_x = bit();
                }
                mm.order.push_back(~(int)mm.sub.size());
                mm.sub.push_back(u);
                for (int x : no_) rd.push_back(x);
            } else {
                left--;
                auto x = add("w" + std::to_string(left), width(), Vr::Wire);
                mm.order.push_back(mm.cont.size());
                mm.cont.push_back({x, val(mm.v[x].w)});
                rd.push_back(x);
            }
        }
        for (int o : outs) {
            // outputs may be registers
            if (s.chance(1, 3)) {
                regs.push_back(o);
            } else {
                mm.order.push_back(mm.cont.size());
                mm.cont.push_back({o, val(mm.v[o].w)});
            }
            if (s.flip()) rd.push_back(o);
        }
        // registers in groups
        while (!regs.empty()) {
            FF f;
            f.r = s.chance(1, 4) ? FF::None : d.srst && s.flip() ? FF::Sync : FF::Async;
            f.touch = !s.chance(1, 6);
            f.own_ce = mm.ce && s.chance(1, 4);
            f.ce_style = s.draw(4);
            int n = 1 + s.draw(s.flip() ? 2 : std::min<int>(regs.size(), 3));
            n = std::min<int>(n, regs.size());
            for (int i = 0; i < n; i++) {
                int v = regs.back();
                regs.pop_back();
                if (f.r != FF::None && (i == 0 || d.pipe || s.chance(3, 4))) f.rst.push_back({v, cst(mm.v[v].w), nullptr});
                if (i == 0 || f.rst.empty() || f.rst.back().v != v || s.chance(3, 4)) f.a.push_back({v, val(mm.v[v].w), s.chance(1, 3) ? bit() : nullptr});
            }
            if (f.r == FF::Sync && !d.flow && !regs.empty() && s.chance(3, 4)) {
                int v = regs.back();
                regs.pop_back();
                f.tail.push_back({v, val(mm.v[v].w), s.chance(1, 3) ? bit() : nullptr});
            }
            // only one if is allowed at the top of a block
            if (f.r == FF::None && f.a.size() > 1 && !f.own_ce && d.flow)
                for (auto &a : f.a) a.cond = nullptr;
            mm.ff.push_back(f);
        }
        m = keep;
        rd = krd;
        return mm;
    }
    int child(int level) {
        if (d.m.size() > 1 && s.chance(1, 4)) {
            // same module once more, not one that is still being made
            std::vector<int> ok;
            for (size_t i = 1; i < d.m.size(); i++)
                if (!d.m[i].name.empty() && (level == 0 || d.m[i].sub.empty())) ok.push_back(i);
            if (!ok.empty()) return s.pick(ok);
        }
        int n = d.m.size();
        d.m.emplace_back();
        auto mm = module(n, level + 1);
        d.m[n] = mm;
        return n;
    }
    void make() {
        d.pipe = s.chance(1, 4);
        if (!d.pipe) {
            d.ce_pass = s.flip();
            d.sync_pass = s.flip();
            d.over = s.flip();
        }
        d.unasync = s.chance(1, 3) || (!d.pipe && !d.ce_pass && !d.sync_pass);
        d.low = s.chance(1, 3);
        d.srst = s.chance(2, 5);
        d.dbg = s.chance(1, 5);
        d.flow = !s.chance(1, 3);
        d.m.emplace_back();
        auto t = module(0, 0);
        d.m[0] = t;
    }
};

// ---- reference ------------------------------------------------------------------------------
struct I {
    const Mod *m;
    std::vector<uint64_t> v;
    std::vector<uint8_t> u;  // has no known value (yet)
    std::vector<std::vector<uint64_t>> pipe;  // of each variable
    std::vector<std::vector<uint8_t>> pipe_u;
    uint64_t ce = 1, flush = 0;
    bool ce_u = false, flush_u = false;
    bool gate = false, has_flush = false;  // what the passes add
    std::vector<std::unique_ptr<I>> sub;
};
struct Ref {
    const D &d;
    std::unique_ptr<I> top;
    bool rst = false, srst = false;
    explicit Ref(const D &d) : d(d) {
        top = make(0, d.ce_pass);
    }
    std::unique_ptr<I> make(int mod, bool gate) {
        auto r = std::make_unique<I>();
        auto const &m = d.m[mod];
        r->m = &m;
        r->v.assign(m.v.size(), 0);
        r->u.assign(m.v.size(), 1);
        r->pipe.assign(m.v.size(), std::vector<uint64_t>(m.stages));
        r->pipe_u.assign(m.v.size(), std::vector<uint8_t>(m.stages, 1));
        r->gate = gate;
        r->has_flush = d.sync_pass;
        for (auto const &s : m.sub) r->sub.push_back(make(s.mod, gate && d.m[s.mod].touch));
        return r;
    }
    void settle(I &i) {
        for (int q : i.m->order) {
            if (q >= 0) {
                i.v[i.m->cont[q].first] = ev(*i.m->cont[q].second, i.v);
                i.u[i.m->cont[q].first] = un(*i.m->cont[q].second, i.u);
                continue;
            }
            auto const &s = i.m->sub[~q];
            auto &c = *i.sub[~q];
            for (auto const &[v, x] : s.in) c.v[i.m->v[v].port] = ev(*x, i.v), c.u[i.m->v[v].port] = un(*x, i.u);
            c.ce_u = s.ce == 3 ? un(*s.ce_x, i.u) : s.ce == 2 || c.gate ? i.ce_u : false;
            c.flush_u = s.flush == 3 ? un(*s.flush_x, i.u) : s.flush == 2 || d.sync_pass ? i.flush_u : false;
            // a constant, or nothing, is replaced by the enable of the parent
            c.ce = s.ce == 3 ? ev(*s.ce_x, i.v) : s.ce == 2 || c.gate ? i.ce : 1;
            c.flush = s.flush == 3 ? ev(*s.flush_x, i.v) : s.flush == 2 || d.sync_pass ? i.flush : 0;
            settle(c);
            for (size_t q2 = 0; q2 < i.m->v.size(); q2++) {
                auto const &v = i.m->v[q2];
                if (v.k != Vr::Inst || v.inst != ~q || c.m->v[v.port].k != Vr::Out) continue;
                i.v[q2] = c.m->stages ? c.pipe[v.port].back() : c.v[v.port];
                i.u[q2] = c.m->stages ? c.pipe_u[v.port].back() : c.u[v.port];
            }
        }
    }
    struct Next {
        I *i;
        std::vector<uint64_t> v;
        std::vector<uint8_t> u;
    };
    // unsure: it is not known whether this happens
    void run(I &i, const std::vector<As> &a, Next &n, bool unsure) {
        for (auto const &x : a) {
            if (unsure || (x.cond && un(*x.cond, i.u))) {
                n.u[x.v] = 1;
            } else if (!x.cond || ev(*x.cond, i.v)) {
                n.v[x.v] = ev(*x.x, i.v);
                n.u[x.v] = un(*x.x, i.u);
            }
        }
    }
    void edge(I &i, bool clk, std::vector<Next> &next) {
        Next n{&i, i.v, i.u};
        for (auto const &f : i.m->ff) {
            bool async = f.r == FF::Async && !d.unasync;
            if (!clk && !async) continue;
            if (f.r == FF::Async && rst) {
                run(i, f.rst, n, false);
                continue;
            }
            if (!clk) continue;
            bool by_pass = i.gate && f.touch, gated = by_pass || f.own_ce;
            bool en = !gated || i.ce, unsure = gated && i.ce_u;
            if (!f.tail.empty() && (!by_pass || i.ce || i.ce_u)) run(i, f.tail, n, by_pass && i.ce_u);
            if (f.r == FF::Sync && srst) {
                // whether the enable is stronger than the reset is not said when there is more than the branch
                run(i, f.rst, n, !f.tail.empty() && by_pass && (i.ce_u || !i.ce));
                continue;
            }
            if (i.has_flush && f.r == FF::Async) {
                bool fl = i.flush && (d.over || en);
                bool fl_unsure = i.flush_u || (unsure && !d.over && i.flush);
                if (fl_unsure) {
                    run(i, f.rst, n, true);
                    run(i, f.a, n, true);
                    continue;
                }
                if (fl) {
                    run(i, f.rst, n, false);
                    continue;
                }
            }
            if (en || unsure) run(i, f.a, n, unsure);
        }
        if (clk && i.m->stages)
            for (size_t q = 0; q < i.v.size(); q++)
                if (i.m->v[q].k == Vr::Out) {
                    auto &p = i.pipe[q];
                    auto &u = i.pipe_u[q];
                    for (size_t z = p.size() - 1; z > 0; z--) p[z] = p[z - 1], u[z] = u[z - 1];
                    p[0] = i.v[q], u[0] = i.u[q];
                }
        next.push_back(n);
        for (auto &s : i.sub) edge(*s, clk, next);
    }
    void event(bool clk) {
        std::vector<Next> next;
        edge(*top, clk, next);
        for (auto &n : next) n.i->v = n.v, n.i->u = n.u;
        settle(*top);
    }
};

// ---- building -------------------------------------------------------------------------------
struct M {
    const Mod *m;
    k::Generator *g;
    std::vector<k::Var *> v;
    k::Port *clk, *rst, *srst = nullptr, *ce = nullptr, *flush = nullptr;
    std::vector<std::unique_ptr<M>> sub;
};
struct B {
    const D &d;
    std::shared_ptr<k::Context> ctx = std::make_shared<k::Context>();
    std::unique_ptr<M> top;
    explicit B(const D &d) : d(d) { top = make(0); }
    k::Var &x(M &m, const X &e) {
        switch (e.k) {
            case X::Const: return k::constant((int64_t)e.c, e.w);
            case X::Var: return *m.v[e.v];
            case X::Add: return x(m, *e.a) + x(m, *e.b);
            case X::Xor: return x(m, *e.a) ^ x(m, *e.b);
            case X::Not: return ~x(m, *e.a);
            case X::EqC: return m.v[e.v]->eq(k::constant((int64_t)e.c, m.v[e.v]->width()));
            case X::Bit: return (*m.v[e.v])[(uint32_t)e.c];
        }
        throw std::runtime_error("x");
    }
    std::shared_ptr<k::Stmt> as(M &m, const As &a) {
        auto s = m.v[a.v]->assign(x(m, *a.x), k::AssignmentType::NonBlocking);
        if (!a.cond) return s;
        auto i = std::make_shared<k::IfStmt>(x(m, *a.cond));
        i->add_then_stmt(s);
        return i;
    }
    static void mark(k::IRNode &n, const std::string &v, const std::string &t = "") {
        auto a = std::make_shared<k::Attribute>();
        a->value_str = v;
        if (!t.empty()) a->type_str = t;
        n.add_attribute(a);
    }
    std::unique_ptr<M> make(int mod) {
        auto r = std::make_unique<M>();
        auto const &m = d.m[mod];
        r->m = &m;
        // only the default flow gives every kind of instance a module
        auto &g = ctx->generator(d.flow ? m.name : m.name + (mod ? "_" + std::to_string(n_++) : ""));
        g.debug = d.dbg;
        r->g = &g;
        auto in = k::PortDirection::In;
        r->clk = &g.port(in, "clk", 1, k::PortType::Clock);
        r->rst = &g.port(in, "rst", 1, k::PortType::AsyncReset);
        if (d.low) r->rst->set_active_high(false);
        else r->rst->set_active_high(true);
        if (d.srst) r->srst = &g.port(in, "srst", 1, k::PortType::Reset);
        if (m.ce) r->ce = &g.port(in, "clk_en", 1, k::PortType::ClockEnable);
        if (m.flush) r->flush = &g.port(in, "flush", 1, k::PortType::Reset);
        if (!m.touch) mark(g, "dont_touch");
        if (m.stages) {
            mark(g, std::to_string(m.stages), "pipeline");
            if (m.named_clk) mark(g, "clk", "pipeline_clk");
        }
        if (mod == 0 && d.sync_pass) mark(g, d.over ? "sync-reset=flush;over_clk_en=true" : c_ ? "sync-reset=flush;over_clk_en=false" : "sync-reset=flush");
        for (size_t i = 0; i < m.sub.size(); i++) {
            r->sub.push_back(make(m.sub[i].mod));
            g.add_child_generator("u" + std::to_string(i), r->sub.back()->g->shared_from_this());
        }
        for (auto const &v : m.v) {
            switch (v.k) {
                case Vr::In: r->v.push_back(&g.port(in, v.name, v.w)); break;
                case Vr::Out: r->v.push_back(&g.port(k::PortDirection::Out, v.name, v.w)); break;
                case Vr::Inst: r->v.push_back(r->sub[v.inst]->v[v.port]); break;
                default: r->v.push_back(&g.var(v.name, v.w));
            }
        }
        for (size_t i = 0; i < m.sub.size(); i++) {
            auto &u = *r->sub[i];
            auto const &s = m.sub[i];
            auto wire = [&](k::Var &a, k::Var &b) { g.add_stmt(a.assign(b, k::AssignmentType::Blocking)); };
            wire(*u.clk, *r->clk);
            wire(*u.rst, *r->rst);
            if (d.srst) wire(*u.srst, *r->srst);
            for (auto const &[v, e] : s.in) wire(*r->v[v], x(*r, *e));
            if (s.ce == 1) wire(*u.ce, k::constant(1, 1));
            if (s.ce == 2) wire(*u.ce, *r->ce);
            if (s.ce == 3) wire(*u.ce, *x(*r, *s.ce_x).cast(k::VarCastType::ClockEnable));
            if (s.flush == 1) wire(*u.flush, k::constant(0, 1));
            if (s.flush == 2) wire(*u.flush, *r->flush);
            if (s.flush == 3) wire(*u.flush, *x(*r, *s.flush_x).cast(k::VarCastType::Reset));
        }
        for (auto const &[v, e] : m.cont) g.add_stmt(r->v[v]->assign(x(*r, *e), k::AssignmentType::Blocking));
        for (auto const &f : m.ff) {
            auto c = g.sequential();
            c->add_condition({k::EventEdgeType::Posedge, r->clk->shared_from_this()});
            if (f.r == FF::Async) c->add_condition({d.low ? k::EventEdgeType::Negedge : k::EventEdgeType::Posedge, r->rst->shared_from_this()});
            if (!f.touch) mark(*c, "dont_touch");
            std::vector<std::shared_ptr<k::Stmt>> body;
            for (auto const &a : f.a) body.push_back(as(*r, a));
            if (f.own_ce) {
                auto i = std::make_shared<k::IfStmt>(*r->ce);
                for (auto const &s : body) i->add_then_stmt(s);
                body = {i};
            }
            if (f.r == FF::None) {
                for (auto const &s : body) c->add_stmt(s);
                continue;
            }
            k::Var *cond;
            if (f.r == FF::Sync)
                cond = r->srst;
            else if (d.low)
                cond = f.ce_style == 1 ? (k::Var *)&r->rst->operator~() : f.ce_style == 2 ? (k::Var *)&r->rst->eq(k::constant(0, 1)) : (k::Var *)&g.expr(k::ExprOp::UNot, r->rst, nullptr);
            else
                cond = f.ce_style == 2 ? (k::Var *)&r->rst->eq(k::constant(1, 1)) : (k::Var *)r->rst;
            auto i = std::make_shared<k::IfStmt>(*cond);
            for (auto const &a : f.rst) i->add_then_stmt(as(*r, a));
            for (auto const &s : body) i->add_else_stmt(s);
            c->add_stmt(i);
            for (auto const &a : f.tail) c->add_stmt(as(*r, a));
        }
        return r;
    }
    bool c_ = false;
    int n_ = 0;
};

void p21(pbt::Case &c) {
    G g(c);
    g.make();
    auto const &d = g.d;
    c.sample = show(d);
    std::string text;
    Flow f;
    f.optimize_if = c.src.flip();
    f.optimize_fanout = c.src.flip();
    f.optimize_passthrough = c.src.flip();
    f.check_latch = false;  // registers may be left out in the reset, or assigned only there
    try {
        B b(d);
        auto *top = b.top->g;
        if (d.pipe) k::insert_pipeline_stages(top);
        if (d.ce_pass) k::auto_insert_clock_enable(top);
        if (d.sync_pass) k::auto_insert_sync_reset(top);
        if (d.unasync) k::remove_async_reset(top);
        text = join(d.flow ? default_flow(top, f) : plain_flow(top));
    } catch (const std::exception &e) {
        c.fail("exception", std::string(e.what()) + "\n" + c.sample);
    }
    if (d.unasync && text.find("edge rst") != std::string::npos) c.fail("async", "an asynchronous reset is left\n" + c.sample + text);
    try {
        sv::Unit u;
        sv::parse(text, u);
        sv::Options so;
        so.init_seed = c.src.draw(1000);
        sv::Design sd(u, "top", so);
        if (!sd.lint().empty()) c.fail("text", sd.lint()[0] + "\n" + c.sample + text);
        Ref ref(d);
        auto &t = *ref.top;
        std::string log;
        int n = 0, held = 0, flushed = 0;
        auto set = [&](const std::string &nm, uint64_t x, uint32_t w) {
            log += " " + nm + "=" + std::to_string(x);
            sd.poke(nm, BV(w, x));
        };
        auto compare = [&]() {
            for (size_t q = 0; q < t.v.size(); q++)
                if (t.m->v[q].k == Vr::Out && !(t.m->stages ? t.pipe_u[q].back() : t.u[q])) {
                    auto want = t.m->stages ? t.pipe[q].back() : t.v[q];
                    auto got = sd.get(t.m->v[q].name).u64();
                    n++;
                    if (got != want) c.fail("behaviour", t.m->v[q].name + " is " + std::to_string(got) + " instead of " + std::to_string(want) + " after" + log + "\n" + c.sample + text);
                }
        };
        bool act = !d.low;
        sd.poke("clk", BV(1, 0));
        auto rst = [&](bool on) {
            set("rst", on == act, 1);
            bool rise = on && !ref.rst;
            ref.rst = on;
            if (rise) ref.event(false);
        };
        auto clk = [&]() {
            log += " clock";
            sd.poke("clk", BV(1, 1));
            ref.event(true);
            sd.poke("clk", BV(1, 0));
        };
        sd.poke("rst", BV(1, !act));
        if (d.srst) sd.poke("srst", BV(1, 0));
        if (t.m->ce) sd.poke("clk_en", BV(1, 1));
        if (t.m->flush || d.sync_pass) sd.poke("flush", BV(1, 0));
        for (size_t q = 0; q < t.v.size(); q++)
            if (t.m->v[q].k == Vr::In) sd.poke(t.m->v[q].name, BV(t.m->v[q].w, 0)), t.u[q] = 0;
        sd.settle();
        // nothing is known before the reset
        rst(true);
        ref.srst = true;
        if (d.srst) set("srst", 1, 1);
        ref.settle(t);
        for (int q = 0; q < (d.pipe ? 6 : 1); q++) clk();
        rst(false);
        ref.srst = false;
        if (d.srst) set("srst", 0, 1);
        ref.settle(t);
        compare();
        int steps = 6 + c.src.draw(8);
        for (int q = 0; q < steps; q++) {
            for (size_t z = 0; z < t.v.size(); z++)
                if (t.m->v[z].k == Vr::In && c.src.flip()) {
                    t.v[z] = c.src.draw(1ull << t.m->v[z].w);
                    set(t.m->v[z].name, t.v[z], t.m->v[z].w);
                }
            if (t.m->ce && c.src.chance(1, 3)) t.ce ^= 1, set("clk_en", t.ce, 1);
            if ((t.m->flush || d.sync_pass) && c.src.chance(1, 3)) t.flush ^= 1, set("flush", t.flush, 1);
            if (d.srst && c.src.chance(1, 5)) ref.srst = !ref.srst, set("srst", ref.srst, 1);
            ref.settle(t);
            if (c.src.chance(1, 6)) rst(!ref.rst);
            compare();
            held += t.m->ce && !t.ce, flushed += t.flush;
            if (c.src.chance(4, 5)) clk(), compare();
        }
        bool change = false;
        for (auto const &m : d.m)
            for (auto const &ff : m.ff)
                if (!ff.a.empty()) change = true;
        for (auto const &m : d.m)
            for (auto const &ff : m.ff)
                if (!ff.tail.empty()) c.label(d.ce_pass && m.touch && ff.touch ? "enable for several statements" : "several statements");
        c.nontrivial = change && n > 6 && (d.pipe || d.unasync || (d.ce_pass && held) || (d.sync_pass && flushed));
        if (d.pipe) c.label("pipeline");
        if (d.ce_pass) c.label("clock enable");
        if (d.sync_pass) c.label("sync reset");
        if (d.unasync) c.label("remove async reset");
    } catch (const sv::Error &e) {
        c.fail("text", std::string(e.what()) + "\n" + c.sample + text);
    }
}
pbt::Reg r21({"P21", "there are registers, and a pass that matters for the history (enable low or the added reset high in a step)", p21, 60000, 1000000, {}, {}});
}  // namespace
