// Modules that share a name but differ slightly (or not at all).
#include "rdl.hh"
namespace rdl {
static EP cl(const EP &e) {
    if (!e) return e;
    auto n = std::make_shared<E>(*e);
    for (auto &x : n->a) x = cl(x);
    for (auto &x : n->sel) x.dyn = cl(x.dyn);
    return n;
}
static SP cl(const SP &s) {
    if (!s) return s;
    auto n = std::make_shared<S>(*s);
    n->l = cl(s->l), n->r = cl(s->r), n->c = cl(s->c);
    for (auto &x : n->then_) x = cl(x);
    for (auto &x : n->else_) x = cl(x);
    for (auto &[v, b] : n->cases)
        for (auto &x : b) x = cl(x);
    return n;
}
Module deep_copy(const Module &m) {
    Module r = m;
    for (auto &b : r.blks)
        for (auto &s : b.stmts) s = cl(s);
    for (auto &f : r.funcs) f.cond = cl(f.cond), f.r1 = cl(f.r1), f.r2 = cl(f.r2);
    return r;
}
namespace {
struct Mut {
    pbt::Src &s;
    Module &m;
    std::vector<std::pair<std::string, std::function<void()>>> ops;
    void ex(const EP &e) {
        if (!e) return;
        switch (e->k) {
            case E::Const:
                ops.push_back({"const", [e, this] {
                                   uint32_t bit = (uint32_t)s.draw(std::min(e->c.w, 64u));
                                   e->c.insert(bit, BV(1, !e->c.bit(bit)));
                               }});
                break;
            case E::Bin: {
                static const std::vector<std::vector<ExprOp>> cls = {
                    {ExprOp::Add, ExprOp::Minus, ExprOp::Multiply, ExprOp::And, ExprOp::Or, ExprOp::Xor},
                    {ExprOp::LessThan, ExprOp::GreaterThan, ExprOp::LessEqThan, ExprOp::GreaterEqThan, ExprOp::Eq, ExprOp::Neq},
                    {ExprOp::LAnd, ExprOp::LOr},
                    {ExprOp::ShiftLeft, ExprOp::LogicalShiftRight}};
                for (auto const &g : cls)
                    if (std::find(g.begin(), g.end(), e->op) != g.end())
                        ops.push_back({"op", [e, g, this] {
                                           auto o = g;
                                           o.erase(std::find(o.begin(), o.end(), e->op));
                                           e->op = s.pick(o);
                                       }});
                if (e->op != ExprOp::Divide && e->op != ExprOp::Mod && e->op != ExprOp::Power && e->a[0]->w == e->a[1]->w && e->a[0]->s == e->a[1]->s && e->a[0]->k != E::Const && e->a[1]->k != E::Const)
                    ops.push_back({"swap-operands", [e] { std::swap(e->a[0], e->a[1]); }});
                break;
            }
            case E::Un:
                if (e->op == ExprOp::UInvert && e->a[0]->w == e->w && e->a[0]->s == e->s)
                    ops.push_back({"unary", [e] { e->op = ExprOp::UMinus; }});
                break;
            case E::Mux:
                ops.push_back({"mux-arms", [e] { std::swap(e->a[1], e->a[2]); }});
                break;
            case E::Cat:
                if (e->a.size() == 2 && e->a[0]->w == e->a[1]->w)
                    ops.push_back({"concat-order", [e] { std::swap(e->a[0], e->a[1]); }});
                break;
            case E::Ref: {
                // another variable of the same kind
                std::vector<int> o;
                auto const &v = m.vars[e->v];
                if (v.k == VK::In)
                    for (size_t i = 0; i < m.vars.size(); i++)
                        if ((int)i != e->v && m.vars[i].k == VK::In && m.vars[i].t == v.t) o.push_back((int)i);
                if (!o.empty()) ops.push_back({"other-var", [e, o, this] { e->v = s.pick(o); }});
                if (!e->sel.empty() && e->sel[0].k == Sel::Idx && !v.t.arr() && v.t.w > 1 && (v.k == VK::In))
                    ops.push_back({"other-bit", [e, this, v] {
                                       uint32_t b = (uint32_t)s.draw(v.t.w);
                                       e->sel[0].hi = e->sel[0].lo = b;
                                   }});
                break;
            }
            default:
                break;
        }
        if (e->k == E::Bin && (e->op == ExprOp::Divide || e->op == ExprOp::Mod || e->op == ExprOp::Power)) {
            ex(e->a[0]);
            return;
        }
        for (auto &x : e->a) ex(x);
    }
    void st(std::vector<SP> &v, int lvl, bool order) {
        for (size_t i = 0; i < v.size(); i++) {
            auto s0 = v[i];
            switch (s0->k) {
                case S::Assign:
                    ex(s0->r);
                    break;
                case S::If:
                    ex(s0->c);
                    if (!s0->then_.empty() && !s0->else_.empty() && lvl > 0)
                        ops.push_back({"then-else", [s0] { std::swap(s0->then_, s0->else_); }});
                    st(s0->then_, lvl + 1, order);
                    st(s0->else_, lvl + 1, order);
                    break;
                case S::Switch:
                    ex(s0->c);
                    if (s0->cases.size() > 1 && s0->cases[0].first && s0->cases[1].first) {
                        ops.push_back({"case-bodies", [s0] { std::swap(s0->cases[0].second, s0->cases[1].second); }});
                        ops.push_back({"case-value", [s0, this] {
                                           std::set<uint64_t> used;
                                           for (auto &c : s0->cases)
                                               if (c.first) used.insert(*c.first);
                                           uint64_t n = s0->c->w > 30 ? (1u << 30) : (1u << s0->c->w);
                                           for (uint64_t x = 0; x < n; x++)
                                               if (!used.count(x)) {
                                                   s0->cases[0].first = x;
                                                   break;
                                               }
                                       }});
                    }
                    for (auto &c : s0->cases) st(c.second, lvl + 1, order);
                    break;
                case S::For:
                    st(s0->then_, lvl + 1, order);
                    break;
            }
        }
        if (order && lvl > 0 && v.size() > 1)
            ops.push_back({"stmt-order", [&v] { std::swap(v[0], v[1]); }});
    }
};
}  // namespace

std::vector<std::string> Gen::twins(Design &r, int n) {
    std::vector<std::string> log;
    for (int t = 0; t < n; t++) {
        if (r.mods.size() < 2) return log;
        int i = (int)s.draw(r.mods.size() - 1);
        Module cp = deep_copy(r.mods[i]);
        // redirect an instance to a different twin, or change something inside
        std::vector<std::pair<size_t, int>> redirect;
        for (size_t k = 0; k < cp.insts.size(); k++)
            for (int o = 0; o < i; o++)
                if (o != cp.insts[k].mod && r.mods[o].name == r.mods[cp.insts[k].mod].name) redirect.push_back({k, o});
        std::string what = "same";
        if (!redirect.empty() && s.flip()) {
            auto q = s.pick(redirect);
            cp.insts[q.first].mod = q.second;
            what = "child";
        } else if (s.draw(5)) {
            Mut mu{s, cp, {}};
            for (auto &b : cp.blks) {
                for (auto &x : b.stmts) {
                    (void)x;
                }
                bool seq = b.k == Blk::Seq;
                bool reset = seq || b.k == Blk::Latch;
                if (reset) {
                    // only below the reset
                    for (auto &x : b.stmts) {
                        if (x->k == S::If) {
                            mu.st(x->then_, 1, false);
                            mu.st(x->else_, 1, true);
                        } else if (x->k == S::Assign)
                            mu.ex(x->r);
                    }
                } else
                    mu.st(b.stmts, 0, false);
                if (seq && !b.sens.empty()) {
                    auto *bp = &b;
                    mu.ops.push_back({"edge", [bp] { bp->sens[0].first = !bp->sens[0].first; }});
                    if (b.sens.size() > 1) mu.ops.push_back({"async", [bp] { bp->sens.pop_back(); }});
                }
            }
            for (auto &f : cp.funcs) mu.ex(f.cond), mu.ex(f.r1), mu.ex(f.r2);
            if (!mu.ops.empty()) {
                auto &o = mu.ops[s.draw(mu.ops.size())];
                o.second();
                what = o.first;
            }
        }
        // switching an async reset to "sync" keeps its plain predicate, which is rejected; redo as ==
        for (auto &b : cp.blks)
            if (what == "async" && b.k == Blk::Seq && b.sens.size() == 1 && b.stmts.size() == 1 && b.stmts[0]->k == S::If &&
                b.stmts[0]->c->k != E::Bin) {
                int rv = -1;
                for (size_t q = 0; q < cp.vars.size(); q++)
                    if (cp.vars[q].k == VK::Rst) rv = (int)q;
                E e;
                e.k = E::Bin;
                e.op = ExprOp::Eq;
                e.w = 1;
                Module *sm = m;
                m = &cp;
                e.a = {ref(rv), konst(1, cp.vars[rv].rst_high)};
                m = sm;
                b.stmts[0]->c = std::make_shared<E>(e);
            }
        log.push_back(what);
        // insert right behind the original
        for (auto &mm : r.mods)
            for (auto &in : mm.insts)
                if (in.mod > i) in.mod++;
        for (auto &in : cp.insts)
            if (in.mod > i) in.mod++;
        r.mods.insert(r.mods.begin() + i + 1, cp);
        // some of the instances of the original become instances of the copy
        bool any = false;
        std::vector<Inst *> all;
        for (size_t mm = i + 2; mm < r.mods.size(); mm++)
            for (auto &in : r.mods[mm].insts)
                if (in.mod == i) all.push_back(&in);
        for (size_t q = 0; q < all.size(); q++)
            if (s.flip() || (!any && q + 1 == all.size())) all[q]->mod = i + 1, any = true;
    }
    return log;
}
}  // namespace rdl
