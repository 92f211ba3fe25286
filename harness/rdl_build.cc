#include <algorithm>

#include "analysis.hh"
#include "hash.hh"
#include "optimize.hh"
#include "rdl.hh"
#include "transform.hh"
#include "util.hh"

namespace rdl {
namespace k = kratos;

k::Var &bexpr(Built &b, int gi, const EP &e, std::map<int, k::Var *> *iters,
              const std::vector<k::Var *> *args) {
    auto sub = [&](size_t i) -> k::Var & { return bexpr(b, gi, e->a[i], iters, args); };
    auto &I = b.insts[gi];
    switch (e->k) {
        case E::Ref: {
            k::Var *v = I.v[e->v];
            for (auto const &s : e->sel) {
                if (s.k == Sel::Idx)
                    v = &(*v)[s.lo];
                else if (s.k == Sel::Range)
                    v = &(*v)[{s.hi, s.lo}];
                else
                    v = &(*v)[bexpr(b, gi, s.dyn, iters, args).shared_from_this()];
            }
            return *v;
        }
        case E::Const: {
            if (e->c.fits64()) {
                int64_t v = (int64_t)e->c.u64();
                if (e->s && e->w < 64) v = (int64_t)((uint64_t)v << (64 - e->w)) >> (64 - e->w);
                return k::constant(v, e->w, e->s);
            }
            throw std::logic_error("rdl: wide constant");
        }
        case E::Arg:
            return *(*args)[e->id];
        case E::Iter:
            return *iters->at(e->id);
        case E::CastS:
            return *sub(0).cast(k::VarCastType::Signed);
        case E::CastU:
            return *sub(0).cast(k::VarCastType::Unsigned);
        case E::Ext:
            return sub(0).extend(e->w);
        case E::Part: {
            auto &x = sub(0);
            auto const &p = e->sel[0];
            if (p.k == Sel::Dyn) return x[bexpr(b, gi, p.dyn, iters, args).shared_from_this()];
            if (p.k == Sel::Idx) return x[p.lo];
            return x[{p.hi, p.lo}];
        }
        case E::Dup: {
            auto &x = sub(0);
            return x.duplicate(e->w / e->a[0]->w);
        }
        case E::Cat: {
            k::Var *r = &sub(0);
            for (size_t i = 1; i < e->a.size(); i++) r = &r->concat(sub(i));
            return *r;
        }
        case E::Mux: {
            auto &c = sub(0);
            auto &x = sub(1);
            auto &y = sub(2);
            return *k::util::mux(c, x, y);
        }
        case E::Call: {
            const Func *f = nullptr;
            for (auto const &x : I.m->funcs)
                if (x.name == e->fn) f = &x;
            std::map<std::string, std::shared_ptr<k::Var>> m;
            for (size_t i = 0; i < e->a.size(); i++) m[f->args[i].first] = sub(i).shared_from_this();
            return I.g->call(e->fn, m);
        }
        case E::Un: {
            auto &x = sub(0);
            switch (e->op) {
                case ExprOp::UInvert:
                    return ~x;
                case ExprOp::UMinus:
                    return -x;
                case ExprOp::UPlus:
                    return +x;
                case ExprOp::UOr:
                    return x.r_or();
                case ExprOp::UAnd:
                    return x.r_and();
                case ExprOp::UXor:
                    return x.r_xor();
                default:
                    return x.r_not();
            }
        }
        case E::Bin: {
            auto &x = sub(0);
            auto &y = sub(1);
            switch (e->op) {
                case ExprOp::Add:
                    return x + y;
                case ExprOp::Minus:
                    return x - y;
                case ExprOp::Multiply:
                    return x * y;
                case ExprOp::Divide:
                    return x / y;
                case ExprOp::Mod:
                    return x % y;
                case ExprOp::LogicalShiftRight:
                    return x >> y;
                case ExprOp::SignedShiftRight:
                    return x.ashr(y);
                case ExprOp::ShiftLeft:
                    return x << y;
                case ExprOp::Or:
                    return x | y;
                case ExprOp::And:
                    return x & y;
                case ExprOp::Xor:
                    return x ^ y;
                case ExprOp::Power:
                    return x.pow(y);
                case ExprOp::LAnd:
                    return x && y;
                case ExprOp::LOr:
                    return x || y;
                case ExprOp::LessThan:
                    return x < y;
                case ExprOp::GreaterThan:
                    return x > y;
                case ExprOp::LessEqThan:
                    return x <= y;
                case ExprOp::GreaterEqThan:
                    return x >= y;
                case ExprOp::Eq:
                    return x.eq(y);
                default:
                    return x != y;
            }
        }
    }
    throw std::logic_error("rdl: bexpr");
}

std::shared_ptr<k::Stmt> bstmt(Built &b, int gi, const SP &s, std::map<int, k::Var *> &iters,
                               k::AssignmentType t) {
    switch (s->k) {
        case S::Assign: {
            auto &l = bexpr(b, gi, s->l, &iters);
            auto &r = bexpr(b, gi, s->r, &iters);
            auto st = l.assign(r, t);
            b.insts[gi].stmts.push_back(st);
            return st;
        }
        case S::If: {
            auto st = std::make_shared<k::IfStmt>(bexpr(b, gi, s->c, &iters));
            b.insts[gi].stmts.push_back(st);
            for (auto const &x : s->then_) st->add_then_stmt(bstmt(b, gi, x, iters, t));
            for (auto const &x : s->else_) st->add_else_stmt(bstmt(b, gi, x, iters, t));
            return st;
        }
        case S::Switch: {
            auto &c = bexpr(b, gi, s->c, &iters);
            auto st = std::make_shared<k::SwitchStmt>(c);
            b.insts[gi].stmts.push_back(st);
            for (auto const &[key, body] : s->cases) {
                std::vector<std::shared_ptr<k::Stmt>> ss;
                for (auto const &x : body) ss.push_back(bstmt(b, gi, x, iters, t));
                std::shared_ptr<k::Const> kc;
                if (key) kc = k::constant((int64_t)*key, c.width()).as<k::Const>();
                st->add_switch_case(kc, ss);
            }
            return st;
        }
        case S::For: {
            auto st = std::make_shared<k::ForStmt>(s->iter, s->start, s->end, s->step);
            b.insts[gi].stmts.push_back(st);
            iters[s->iter_id] = st->get_iter_var().get();
            for (auto const &x : s->then_) st->add_stmt(bstmt(b, gi, x, iters, t));
            iters.erase(s->iter_id);
            return st;
        }
    }
    throw std::logic_error("rdl: bstmt");
}

static int binst(Built &b, const Design &d, int mi, const std::string &iname, const BuildOpt &o,
                 std::map<int, int> &first, int &uniq) {
    auto const &m = d.mods[mi];
    int gi = (int)b.insts.size();
    std::string gname = m.name;
    k::Generator *g;
    bool is_clone = false;
    if (o.clone && first.count(mi)) {
        auto *orig = b.insts[first[mi]].g;
        auto cl = orig->clone();
        b.ctx->add(cl.get());
        g = cl.get();
        is_clone = true;
        static thread_local std::vector<std::shared_ptr<k::Generator>> keep;
        if (keep.size() > 200) keep.clear();
        keep.push_back(cl);
    } else {
        if (o.uniquify_names && first.count(mi)) gname += "_u" + std::to_string(uniq++);
        g = &b.ctx->generator(gname);
    }
    g->instance_name = iname;
    if (!first.count(mi)) first[mi] = gi;
    b.insts.push_back({&m, g, {}, {}, {}});
    b.insts[gi].v.assign(m.vars.size(), nullptr);
    // ports
    for (size_t i = 0; i < m.vars.size(); i++) {
        auto const &v = m.vars[i];
        auto dims = v.t.dims;
        if (dims.empty()) dims = {1};
        k::Var *kv = nullptr;
        switch (v.k) {
            case VK::In:
            case VK::Out:
                kv = is_clone ? g->get_port(v.name).get()
                              : &g->port(v.k == VK::In ? k::PortDirection::In : k::PortDirection::Out, v.name, v.t.w,
                                         dims, k::PortType::Data, v.t.s);
                break;
            case VK::Clk:
                kv = is_clone ? g->get_port(v.name).get()
                              : &g->port(k::PortDirection::In, v.name, 1, 1, k::PortType::Clock, false);
                break;
            case VK::Rst: {
                kv = is_clone ? g->get_port(v.name).get()
                              : &g->port(k::PortDirection::In, v.name, 1, 1, k::PortType::AsyncReset, false);
                if (!is_clone) static_cast<k::Port *>(kv)->set_active_high(v.rst_high);
                break;
            }
            case VK::Wire:
            case VK::Reg:
                if (!is_clone) kv = &g->var(v.name, v.t.w, dims, v.t.s);
                break;
            default:
                break;
        }
        if (kv && v.t.arr() && !v.t.packed) kv->set_is_packed(false);
        b.insts[gi].v[i] = kv;
    }
    if (is_clone) return gi;
    if (!m.attr.empty()) {
        auto at = std::make_shared<k::Attribute>();
        at->value_str = m.attr;
        g->add_attribute(at);
    }
    // functions
    for (auto const &f : m.funcs) {
        auto fb = g->function(f.name);
        std::vector<k::Var *> args;
        for (auto const &a : f.args) args.push_back(fb->input(a.first, a.second, false).get());
        if (f.cond) {
            auto st = std::make_shared<k::IfStmt>(bexpr(b, gi, f.cond, nullptr, &args));
            st->add_then_stmt(fb->return_stmt(bexpr(b, gi, f.r1, nullptr, &args).shared_from_this()));
            fb->add_stmt(st);
        }
        fb->add_stmt(fb->return_stmt(bexpr(b, gi, f.r2, nullptr, &args).shared_from_this()));
        if (!fb->function_handler()) fb->create_function_handler(f.w, false);
        fb->set_has_return_value(true);
    }
    // instances
    for (auto const &in : m.insts) {
        int ci = binst(b, d, in.mod, in.name, o, first, uniq);
        g->add_child_generator(in.name, b.insts[ci].g->shared_from_this());
        b.insts[gi].sub.push_back(ci);
        for (size_t v = 0; v < in.vars.size(); v++)
            if (in.vars[v] >= 0) b.insts[gi].v[in.vars[v]] = b.insts[ci].v[v];
    }
    std::map<int, k::Var *> iters;
    for (auto const &blk : m.blks) {
        auto type = [&](k::AssignmentType t) { return o.explicit_types ? t : k::AssignmentType::Undefined; };
        switch (blk.k) {
            case Blk::Cont:
                for (auto const &s : blk.stmts)
                    g->add_stmt(bstmt(b, gi, s, iters, type(k::AssignmentType::Blocking)));
                break;
            case Blk::Comb: {
                auto c = g->combinational();
                b.insts[gi].stmts.push_back(c);
                if (!blk.attr.empty()) {
                    auto at = std::make_shared<k::Attribute>();
                    at->value_str = blk.attr;
                    c->add_attribute(at);
                }
                for (auto const &s : blk.stmts)
                    c->add_stmt(bstmt(b, gi, s, iters, type(k::AssignmentType::Blocking)));
                break;
            }
            case Blk::Latch: {
                auto c = g->latch();
                b.insts[gi].stmts.push_back(c);
                for (auto const &s : blk.stmts)
                    c->add_stmt(bstmt(b, gi, s, iters, k::AssignmentType::Blocking));
                break;
            }
            case Blk::Seq: {
                auto c = g->sequential();
                b.insts[gi].stmts.push_back(c);
                for (auto const &[pos, v] : blk.sens)
                    c->add_condition({pos ? k::EventEdgeType::Posedge : k::EventEdgeType::Negedge,
                                      b.insts[gi].v[v]->shared_from_this()});
                for (auto const &s : blk.stmts)
                    c->add_stmt(bstmt(b, gi, s, iters, type(k::AssignmentType::NonBlocking)));
                break;
            }
        }
    }
    return gi;
}

Built build(const Design &d, const BuildOpt &o) {
    Built b;
    b.ctx = std::make_shared<k::Context>();
    std::map<int, int> first;
    int uniq = 0;
    int t = binst(b, d, (int)d.mods.size() - 1, d.top().name, o, first, uniq);
    b.top = b.insts[t].g;
    return b;
}

std::string join(const std::map<std::string, std::string> &src) {
    std::string r;
    for (auto const &[n, t] : src) r += t + "\n";
    return r;
}

std::map<std::string, std::string> plain_flow(k::Generator *g) {
    k::fix_assignment_type(g);
    k::decouple_generator_ports(g);
    k::create_module_instantiation(g);
    k::create_interface_instantiation(g);
    return k::generate_verilog(g, {});
}

std::map<std::string, std::string> default_flow(k::Generator *g, const Flow &f,
                                                k::SystemVerilogCodeGenOptions o) {
    k::VerilogModule vm(g);
    auto &pm = vm.pass_manager();
    auto P = [&](const char *n) {
        pm.add_pass(n);
        if (!f.after) return;
        std::string name = n;
        pm.register_pass("after_" + name, std::function<void(k::Generator *)>([&f, name](k::Generator *x) { f.after(name, x); }));
        pm.add_pass("after_" + name);
    };
    if (f.remove_assertion) P("remove_assertion");
    P("realize_fsm");
    if (f.ssa) P("ssa_transform_fix");
    if (f.optimize_passthrough) P("remove_pass_through_modules");
    if (f.optimize_if) P("merge_if_block"), P("transform_if_to_case");
    if (f.dead_code) P("dead_code_elimination");
    P("zero_out_stubs");
    if (f.optimize_fanout) P("remove_fanout_one_wires");
    P("zero_generator_inputs");
    if (f.optimize_bundle) P("change_port_bundle_struct");
    P("verify_generator_connectivity");
    if (f.merge_const) P("merge_const_port_assignment");
    P("decouple_generator_ports");
    P("fix_assignment_type");
    if (f.remove_unused) P("remove_unused_vars"), P("remove_unused_stmts");
    P("verify_assignments");
    if (f.check_comb) P("check_combinational_loop");
    P("check_mixed_assignment");
    P("check_always_sensitivity");
    if (f.check_latch) P("check_inferred_latch");
    P("check_active_high");
    P("check_function_return");
    P("merge_wire_assignments");
    if (f.check_multiple_driver) P("check_multiple_driver");
    if (f.check_ff) P("check_flip_flop_always_ff");
    P(f.parallel_hash ? "hash_generators_parallel" : "hash_generators_sequential");
    if (f.optimize_inline) P("inline_instance");
    P("change_property_into_stmt");
    P("infer_property_clocking");
    P("uniquify_generators");
    P("create_module_instantiation");
    P("create_interface_instantiation");
    if (f.lift_genvar) P("lift_genvar_instances");
    if (f.pipeline) P("insert_pipeline_stages");
    if (f.reorder) P("sort_stmts");
    if (f.fix_port) P("port_legality_fix");
    vm.run_passes();
    return vm.verilog_src(o);
}

std::vector<std::string> lint(const std::string &text, const std::string &top) {
    sv::Unit u;
    sv::parse(text, u);
    sv::Design d(u, top);
    return d.lint();
}

std::string numbered(const std::string &t) { return t.size() > 20000 ? t.substr(0, 20000) : t; }

Hist history(pbt::Case &c, const Design &d, int steps, int flush) {
    Hist h;
    auto const &t = d.top();
    int clk = -1, rst = -1;
    std::vector<int> ins;
    for (size_t i = 0; i < t.vars.size(); i++) {
        if (t.vars[i].k == VK::Clk) clk = (int)i;
        if (t.vars[i].k == VK::Rst) rst = (int)i;
        if (t.vars[i].k == VK::In) ins.push_back((int)i);
    }
    auto rnd = [&](int v) {
        uint32_t w = t.vars[v].t.total();
        BV x(w, 0);
        uint64_t mode = c.src.draw(6);
        for (uint32_t o = 0; o < w; o += 32) {
            uint32_t n = std::min(32u, w - o);
            uint64_t q = mode == 0 ? c.src.draw(4) : mode == 1 ? ~0ull - c.src.draw(3) : c.src.draw(1ull << n);
            x.insert(o, BV(n, q));
        }
        return x;
    };
    auto data = [&](bool all) {
        std::vector<Hist::Step> r;
        for (int v : ins)
            if (all || c.src.chance(2, 3)) r.push_back({v, rnd(v)});
        return r;
    };
    bool on = rst >= 0 && t.vars[rst].rst_high;
    h.g.push_back({false, data(true)});
    if (clk >= 0) h.g.push_back({false, {{clk, BV(1, 0)}}});
    if (rst >= 0) {
        h.g.push_back({false, {{rst, BV(1, !on)}}});
        h.g.push_back({false, {{rst, BV(1, on)}}});
    }
    if (clk >= 0)
        for (int i = 0; i < flush; i++) {
            h.g.push_back({false, {{clk, BV(1, 1)}}});
            h.g.push_back({false, {{clk, BV(1, 0)}}});
        }
    h.g.push_back({true, {}});
    if (rst >= 0) h.g.push_back({true, {{rst, BV(1, !on)}}});
    bool ck = false;
    for (int i = 0; i < steps; i++) {
        h.g.push_back({true, data(false)});
        if (clk >= 0) {
            ck = !ck;
            h.g.push_back({true, {{clk, BV(1, ck)}}});
            if (c.src.chance(3, 4)) {
                ck = !ck;
                h.g.push_back({true, {{clk, BV(1, ck)}}});
            }
        }
        if (rst >= 0 && c.src.chance(1, 8)) {
            h.g.push_back({true, {{rst, BV(1, on)}}});
            if (c.src.flip()) {
                ck = !ck;
                h.g.push_back({true, {{clk, BV(1, ck)}}});
            }
            h.g.push_back({true, {{rst, BV(1, !on)}}});
        }
    }
    return h;
}

void drive(pbt::Case &c, const Design &d, const std::string &text, const DriveOpt &o) {
    sv::Unit u;
    try {
        sv::parse(text, u);
    } catch (sv::Error &e) {
        c.fail(o.tag + ":unreadable", std::string(e.what()) + "\n" + o.extra + numbered(text));
    }
    auto const &t = d.top();
    uint64_t seed = c.src.draw(1000);
    std::unique_ptr<sv::Design> D;
    try {
        D = std::make_unique<sv::Design>(u, o.top.empty() ? t.name : o.top, sv::Options{seed + 1, false});
    } catch (sv::Error &e) {
        c.fail(o.tag + ":" + e.kind, std::string(e.what()) + "\n" + o.extra + numbered(text));
    }
    if (o.check_lint && !D->lint().empty())
        c.fail(o.tag + ":lint:" + D->lint()[0].substr(0, D->lint()[0].find(':')), D->lint()[0] + "\n" + o.extra + numbered(text));
    Sim ref(d);
    Hist h = history(c, d, o.steps, ref.total_norst() + 2);
    std::string log;
    auto port = [&](const std::string &n) {
        auto it = o.rename.find(n);
        return it == o.rename.end() ? n : it->second;
    };
    // the elements of an array and where they are
    auto parts = [&](const V &v) {
        std::vector<std::pair<std::string, uint32_t>> r = {{port(v.name), 0}};
        if (!o.flat) return r;
        for (size_t i = 0; i < v.t.dims.size(); i++) {
            uint32_t inner = v.t.w;
            for (size_t j = i + 1; j < v.t.dims.size(); j++) inner *= v.t.dims[j];
            std::vector<std::pair<std::string, uint32_t>> q;
            for (auto const &[n, lo] : r)
                for (uint32_t k = 0; k < v.t.dims[i]; k++) q.push_back({n + "_" + std::to_string(k), lo + k * inner});
            r = q;
        }
        return r;
    };
    try {
        for (auto const &[cmp, st] : h.g) {
            for (auto const &s : st) {
                ref.set(s.v, s.x);
                for (auto const &[pn, lo] : parts(t.vars[s.v]))
                    if (!pn.empty() && D->has(pn)) D->set(pn, o.flat ? s.x.slice(lo, t.vars[s.v].t.w) : s.x);
                log += " " + t.vars[s.v].name + "=" + s.x.str();
            }
            ref.settle();
            D->settle();
            if (!cmp) continue;
            for (size_t i = 0; i < t.vars.size(); i++) {
                if (t.vars[i].k != VK::Out) continue;
                auto pn = port(t.vars[i].name);
                if (pn.empty()) continue;
                BV got(t.vars[i].t.total(), 0);
                for (auto const &[en, lo] : parts(t.vars[i])) {
                    if (!D->has(en)) c.fail(o.tag + ":missing-output", en + "\n" + o.extra + numbered(text));
                    BV x = D->get(en);
                    if (!o.flat)
                        got = x;
                    else
                        for (uint32_t k = 0; k < x.w; k++) got.setbit(lo + k, x.bit(k));
                }
                if (got != ref.get((int)i))
                    c.fail(o.tag, "output " + t.vars[i].name + " is " + got.str() + ", built design says " +
                                      ref.get((int)i).str() + "\nhistory:" + log + "\n" + o.extra + "built:\n" + show(d) +
                                      "\nemitted:\n" + numbered(text));
            }
        }
    } catch (sv::Error &e) {
        c.fail(o.tag + ":" + e.kind, std::string(e.what()) + "\nhistory:" + log + "\n" + o.extra + numbered(text));
    }
}

void drive2(pbt::Case &c, const Design &d, const std::string &t1, const std::string &t2, const DriveOpt &o) {
    auto const &t = d.top();
    std::unique_ptr<sv::Design> D[2];
    for (int i = 0; i < 2; i++) {
        sv::Unit u;
        try {
            sv::parse(i ? t2 : t1, u);
            D[i] = std::make_unique<sv::Design>(u, t.name, sv::Options{(uint64_t)i + 1, false});
        } catch (sv::Error &e) {
            c.fail(o.tag + ":" + e.kind, std::string(e.what()) + (i ? "\nafter:\n" : "\nbefore:\n") + numbered(i ? t2 : t1) + o.extra);
        }
    }
    Sim ref(d);
    Hist h = history(c, d, o.steps, ref.total_norst() + 2);
    for (auto const &[cmp, st] : h.g) {
        for (auto const &s : st)
            for (auto &x : D)
                if (x->has(t.vars[s.v].name)) x->set(t.vars[s.v].name, s.x);
        for (auto &x : D) x->settle();
        if (!cmp) continue;
        for (auto const &v : t.vars) {
            if (v.k != VK::Out) continue;
            if (!D[0]->has(v.name) || !D[1]->has(v.name)) c.fail(o.tag + ":missing-output", v.name + "\n" + t1 + "\n" + t2);
            if (D[0]->get(v.name) != D[1]->get(v.name))
                c.fail(o.tag, "output " + v.name + ": " + D[0]->get(v.name).str() + " before, " + D[1]->get(v.name).str() +
                                  " after\nbefore:\n" + numbered(t1) + "\nafter:\n" + numbered(t2) + o.extra);
        }
    }
}
}  // namespace rdl
