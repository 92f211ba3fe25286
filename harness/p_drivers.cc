// P10 drivers: every bit has one driver
#include "codegen.hh"
#include "context.hh"
#include "except.hh"
#include "rdl.hh"
#include "stmt.hh"
#include "transform.hh"
using namespace kratos;

namespace {
enum Kind { KCont, KComb, KSeq, KLatch, KInst };
const char *kname[] = {"continuous", "comb", "seq", "latch", "child output"};

struct World {
    pbt::Case &c;
    pbt::Src &s;
    Context ctx;
    Generator *top = nullptr, *g = nullptr;
    Var *in = nullptr;      // data input, wide
    Var *clk = nullptr, *rst = nullptr;
    int nchild = 0;
    std::ostringstream log;
    explicit World(pbt::Case &c_) : c(c_), s(c_.src) {}

    Var &bits(uint32_t w) {
        uint32_t lo = (uint32_t)s.draw(8);
        return (*in)[std::make_pair(lo + w - 1, lo)];
    }
    Var &bit() { return (*in)[std::make_pair(0u, 0u)]; }
    Var &cond() {
        uint32_t i = (uint32_t)s.draw(8);
        return (*in)[std::make_pair(i, i)];
    }
    // the right hand side for a target
    std::shared_ptr<Var> value(uint32_t w) {
        switch (s.draw(3)) {
            case 0:
                return bits(w).shared_from_this();
            case 1:
                return constant((int64_t)s.draw(2), w).shared_from_this();
            default:
                return (bits(w) ^ bits(w)).shared_from_this();
        }
    }
};

struct V {
    Var *src;  // an input of the same shape
    Var *v;
    uint32_t n, w;  // n elements of w bits
    std::string name;
};

// a target covering bits lo..hi of the flattened variable; ranges stay inside an element, or cover whole elements
Var &target(World &W, V v, uint32_t lo, uint32_t hi) {
    uint32_t total = v.n * v.w;
    if (lo == 0 && hi + 1 == total) return *v.v;
    if (v.n == 1) {
        if (lo == hi && W.s.flip()) return (*v.v)[lo];
        if (hi + 1 < total && W.s.chance(1, 4)) {  // a slice of a slice
            uint32_t lo2 = lo ? lo - 1 : 0;
            return (*v.v)[std::make_pair(hi + 1, lo2)][std::make_pair(hi - lo2, lo - lo2)];
        }
        return (*v.v)[std::make_pair(hi, lo)];
    }
    uint32_t e0 = lo / v.w, e1 = hi / v.w;
    if (e0 == e1) {
        uint32_t l = lo % v.w, h = hi % v.w;
        if (W.s.chance(1, 4)) {  // the element of a range of elements
            uint32_t E0 = (uint32_t)W.s.draw(e0 + 1), E1 = e0 + (uint32_t)W.s.draw(v.n - e0);
            if (E0 != E1) {
                auto &el = (*v.v)[std::make_pair(E1, E0)][e0 - E0];
                return l == 0 && h + 1 == v.w ? el : el[std::make_pair(h, l)];
            }
        }
        if (l == 0 && h + 1 == v.w) return (*v.v)[e0];
        return (*v.v)[e0][std::make_pair(h, l)];
    }
    return (*v.v)[std::make_pair(e1, e0)];
}
std::string range(const V &v, uint32_t lo, uint32_t hi) { return v.name + "<" + std::to_string(hi) + ":" + std::to_string(lo) + ">"; }

bool wide(const V &v, uint32_t lo, uint32_t hi) { return v.n > 1 && lo / v.w != hi / v.w; }
std::shared_ptr<Var> value(World &W, const V &v, uint32_t lo, uint32_t hi) {
    if (!wide(v, lo, hi)) return W.value(hi - lo + 1);
    V o = v;
    o.v = v.src;
    return target(W, o, lo, hi).shared_from_this();
}

struct Place {
    Kind k;
    StmtBlock *blk = nullptr;
    ScopedStmtBlock *scope = nullptr;  // where exactly the assignment sits
};

// one statement assigning the target, legal for the kind
Place drive_it(World &W, Kind k, const V &v, uint32_t lo, uint32_t hi, StmtBlock *blk) {
    auto &s = W.s;
    Place p{k, blk};
    auto t = [&]() { return target(W, v, lo, hi).shared_from_this(); };
    AssignmentType at = k == KSeq ? AssignmentType::NonBlocking : AssignmentType::Blocking;
    if (s.flip()) at = AssignmentType::Undefined;
    auto as = [&]() -> std::shared_ptr<Stmt> { return t()->assign(value(W, v, lo, hi), at); };
    W.log << "  " << kname[k] << " " << (blk ? std::to_string((uintptr_t)blk % 997) : "") << " drives " << range(v, lo, hi) << "\n";
    if (k == KCont) {
        W.g->add_stmt(as());
        return p;
    }
    if (k == KInst) {
        auto name = "child" + std::to_string(W.nchild++);
        auto &c = W.ctx.generator(name);
        // as large as the target
        auto tv = t();
        auto &o = c.port(PortDirection::Out, "o", tv->var_width(), tv->size());
        o.set_is_packed(tv->is_packed());
        auto &ci = c.port(PortDirection::In, "i", tv->var_width(), tv->size());
        ci.set_is_packed(tv->is_packed());
        c.add_stmt(o.assign(ci, AssignmentType::Blocking));
        W.g->add_child_generator("inst_" + name, c.shared_from_this());
        W.g->add_stmt(ci.assign(value(W, v, lo, hi), AssignmentType::Blocking));
        W.g->add_stmt(tv->assign(o, AssignmentType::Blocking));
        return p;
    }
    int shapes = k == KSeq ? 5 : 7;
    switch (s.draw(shapes)) {
        case 0:
            blk->add_stmt(as());
            break;
        case 1: {
            auto i = std::make_shared<IfStmt>(W.cond());
            i->add_then_stmt(as());
            i->add_else_stmt(as());
            blk->add_stmt(i);
            p.scope = i->then_body().get();
            break;
        }
        case 2: {
            auto i = std::make_shared<IfStmt>(W.cond());
            i->add_then_stmt(as());
            blk->add_stmt(i);
            p.scope = i->then_body().get();
            break;
        }
        case 3: {
            auto i = std::make_shared<IfStmt>(W.cond()), j = std::make_shared<IfStmt>(W.cond());
            i->add_then_stmt(as());
            j->add_then_stmt(as());
            j->add_else_stmt(as());
            i->add_else_stmt(j);
            blk->add_stmt(i);
            p.scope = j->else_body().get();
            break;
        }
        case 4: {
            auto sw = std::make_shared<SwitchStmt>((*W.in)[std::make_pair(1u, 0u)]);
            int n = 1 + (int)s.draw(3);
            for (int q = 0; q < n; q++) sw->add_switch_case(constant(q, 2).as<Const>(), as());
            sw->add_switch_case(nullptr, as());
            blk->add_stmt(sw);
            p.scope = sw->body().begin()->second.get();
            break;
        }
        case 5: {
            blk->add_stmt(as());
            auto i = std::make_shared<IfStmt>(W.cond());
            i->add_then_stmt(as());
            blk->add_stmt(i);
            break;
        }
        default:
            blk->add_stmt(as());
            blk->add_stmt(as());
    }
    return p;
}

StmtBlock *new_block(World &W, Kind k) {
    switch (k) {
        case KComb:
            return W.g->combinational().get();
        case KLatch:
            return W.g->latch().get();
        default: {
            auto b = W.g->sequential();
            b->add_condition({W.s.flip() ? EventEdgeType::Negedge : EventEdgeType::Posedge, W.clk->shared_from_this()});
            if (W.s.flip()) b->add_condition({EventEdgeType::Negedge, W.rst->shared_from_this()});
            return b.get();
        }
    }
}

std::string run_checks(World &W, bool decouple) {
    std::vector<std::pair<const char *, void (*)(Generator *)>> ps = {
        {"fix_assignment_type", fix_assignment_type}, {"verify_assignments", verify_assignments}, {"check_mixed_assignment", check_mixed_assignment}};
    if (decouple) ps.push_back({"decouple_generator_ports", decouple_generator_ports});
    ps.push_back({"check_multiple_driver", check_multiple_driver});
    for (auto &[n, f] : ps) {
        try {
            f(W.top);
        } catch (const std::exception &e) {
            return std::string(n) + ": " + e.what();
        }
    }
    return "";
}

struct Seg {
    int var;
    uint32_t lo, hi;
    bool driven;
    Place p;
};

void p10(pbt::Case &c) {
    World W(c);
    auto &s = c.src;
    // hierarchy: the module under test sits at some depth
    W.top = &W.ctx.generator("top");
    Generator *g = W.top;
    auto ports = [&](Generator *m) {
        W.in = &m->port(PortDirection::In, "in", 48);
        W.clk = &m->port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
        W.rst = &m->port(PortDirection::In, "rst", 1, 1, PortType::AsyncReset, false);
    };
    ports(g);
    int depth = (int)s.draw(3);
    for (int i = 0; i < depth; i++) {
        auto &m = W.ctx.generator("mid" + std::to_string(i));
        auto *pi = W.in, *pc = W.clk, *pr = W.rst;
        ports(&m);
        g->add_child_generator("u" + std::to_string(i), m.shared_from_this());
        g->add_stmt(W.in->assign(*pi, AssignmentType::Blocking));
        g->add_stmt(W.clk->assign(*pc, AssignmentType::Blocking));
        g->add_stmt(W.rst->assign(*pr, AssignmentType::Blocking));
        g = &m;
    }
    W.g = g;
    std::vector<V> vars;
    std::vector<Kind> kinds;
    std::vector<Seg> segs;
    std::map<int, std::vector<StmtBlock *>> blocks;
    int nv = 1 + (int)s.draw(4);
    for (int i = 0; i < nv; i++) {
        V v;
        v.n = s.flip() ? 1 : 2 + (uint32_t)s.draw(3);
        v.w = v.n == 1 ? 1 + (uint32_t)s.draw(14) : 2 + (uint32_t)s.draw(6);
        v.name = "v" + std::to_string(i);
        if (s.chance(1, 3))
            v.v = &g->port(PortDirection::Out, v.name, v.w, v.n);
        else if (s.chance(1, 3)) {  // an input of a child
            auto &ch = W.ctx.generator("sink" + std::to_string(i));
            v.v = &ch.port(PortDirection::In, v.name, v.w, v.n);
            g->add_child_generator("sink_" + std::to_string(i), ch.shared_from_this());
        } else
            v.v = &g->var(v.name, v.w, v.n);
        v.src = &g->port(PortDirection::In, "src" + std::to_string(i), v.w, v.n);
        if (v.n > 1 && s.flip()) v.v->set_is_packed(false), v.src->set_is_packed(false);
        vars.push_back(v);
        Kind k = (Kind)s.draw(5);
        kinds.push_back(k);
        W.log << v.name << " " << v.w << "[" << v.n << "] " << kname[k] << "\n";
        // partition
        uint32_t lo = 0, total = v.n * v.w;
        while (lo < total) {
            uint32_t e = lo / v.w, hi;
            if (s.flip() && lo % v.w == 0 && e + 1 < v.n)
                hi = (e + 1 + (uint32_t)s.draw(v.n - e)) * v.w - 1;  // whole elements
            else
                hi = std::min((e + 1) * v.w - 1, lo + (uint32_t)s.draw(v.w));
            Seg sg{i, lo, hi, !s.chance(1, 6), {}};
            if (sg.driven) {
                StmtBlock *b = nullptr;
                if (k == KComb || k == KSeq || k == KLatch) {
                    auto &bs = blocks[k];
                    if (bs.empty() || s.chance(1, 3)) bs.push_back(new_block(W, k));
                    b = s.pick(bs);
                }
                sg.p = drive_it(W, k, v, lo, hi, b);
            }
            segs.push_back(sg);
            lo = hi + 1;
        }
    }
    // the second driver, or not
    std::vector<size_t> cand;
    for (size_t i = 0; i < segs.size(); i++)
        if (segs[i].driven) cand.push_back(i);
    bool conflict = !cand.empty() && s.chance(3, 4);
    std::string what = "single drivers";
    if (conflict) {
        auto &sg = segs[s.pick(cand)];
        auto &v = vars[sg.var];
        Kind k0 = kinds[sg.var];
        // bits that overlap the segment
        uint32_t lo = sg.lo, hi = sg.hi;
        switch (s.draw(4)) {
            case 0:
                break;
            case 1:
                lo = hi = sg.lo + (uint32_t)s.draw(sg.hi - sg.lo + 1);
                break;
            case 2:
                lo = 0, hi = v.n * v.w - 1;
                break;
            default:  // the whole elements the segment lies in
                lo = sg.lo / v.w * v.w, hi = (sg.hi / v.w + 1) * v.w - 1;
        }
        if (lo / v.w != hi / v.w && (lo % v.w || (hi + 1) % v.w)) lo = sg.lo, hi = sg.hi;
        switch (s.draw(3)) {
            case 0: {  // the same scope of a process, or any other place of the same kind
                if (k0 == KSeq) {
                    auto st1 = target(W, v, sg.lo, sg.hi).assign(value(W, v, sg.lo, sg.hi), AssignmentType::NonBlocking);
                    if (sg.p.scope) {
                        sg.p.scope->add_stmt(st1);
                        what = "same branch of a process";
                    } else {
                        sg.p.blk->add_stmt(st1);
                        what = "same level of a process";
                    }
                    // an overlapping default is not a conflict: only count the same statement list
                    break;
                }
                [[fallthrough]];
            }
            case 1: {  // another driver of some kind
                Kind k = (Kind)s.draw(5);
                StmtBlock *b = nullptr;
                if (k == KComb || k == KSeq || k == KLatch) {
                    // another block than the one that drives it
                    for (auto *o : blocks[k])
                        if (o != sg.p.blk && s.flip()) {
                            // nothing of these bits may be in there, else it is not the second driver that counts
                            b = o;
                            break;
                        }
                    if (!b) b = new_block(W, k);
                }
                what = std::string(kname[k0]) + " and " + kname[k];
                drive_it(W, k, v, lo, hi, b);
                break;
            }
            default: {  // both blocking and non blocking
                if (k0 == KCont || k0 == KInst) {
                    auto *b = new_block(W, KSeq);
                    drive_it(W, KSeq, v, lo, hi, b);
                    what = std::string(kname[k0]) + " and seq";
                } else {
                    auto st = target(W, v, lo, hi).assign(value(W, v, lo, hi), k0 == KSeq ? AssignmentType::Blocking : AssignmentType::NonBlocking);
                    auto i = std::make_shared<IfStmt>(W.cond());
                    i->add_then_stmt(st);
                    sg.p.blk->add_stmt(i);
                    what = std::string("mixed assignments in ") + kname[k0];
                }
            }
        }
    }
    bool decouple = s.flip();
    c.sample = W.log.str() + what + (decouple ? " (decoupled)" : "") + "\n";
    c.label(conflict ? "conflict: " + what : what);
    c.nontrivial = conflict || cand.size() > 1;
    std::string r = run_checks(W, decouple);
    if (conflict)
        c.check(!r.empty(), "missed", "two drivers went unnoticed: " + what + "\n" + W.log.str());
    else
        c.check(r.empty(), "rejected", "a design with single drivers was rejected by " + r + "\n" + W.log.str());
}
pbt::Reg r10({"P10", "a bit has two drivers, or there are at least two drivers of different bits", p10, 300000, 4000000, {}, {}});
}  // namespace
