// P11 latches and returns: checks of the control flow; P35 checks of clocks, resets, loops and synthesizability
#include "codegen.hh"
#include "context.hh"
#include "except.hh"
#include "rdl.hh"
#include "stmt.hh"
#include "transform.hh"
using namespace kratos;

namespace {
struct T {  // an assignment target
    Var *root;
    std::function<Var &()> get;
};
struct World {
    pbt::Case &c;
    pbt::Src &s;
    Context ctx;
    Generator *top = nullptr, *g = nullptr;
    Var *in = nullptr;
    Port *clk = nullptr, *rst = nullptr;
    std::ostringstream log;
    int nsw = 0;
    explicit World(pbt::Case &c_) : c(c_), s(c_.src) {
        top = &ctx.generator("top");
        g = top;
        int depth = (int)s.draw(3);
        for (int i = 0; i < depth; i++) {
            auto &m = ctx.generator("mid" + std::to_string(i));
            g->add_child_generator("u" + std::to_string(i), m.shared_from_this());
            // siblings
            if (s.flip()) g->add_child_generator("x" + std::to_string(i), ctx.generator("other" + std::to_string(i)).shared_from_this());
            g = &m;
        }
        in = &g->port(PortDirection::In, "in", 48);
    }
    Var &bits(uint32_t w) {
        uint32_t lo = (uint32_t)s.draw(8);
        return (*in)[std::make_pair(lo + w - 1, lo)];
    }
    Var &cond() {
        switch (s.draw(3)) {
            case 0:
                return bits(1);
            case 1:
                return bits(2).eq(bits(2));
            default:
                return bits(1) & bits(1);
        }
    }
    std::shared_ptr<Var> value(uint32_t w) { return s.flip() ? constant(0, w).shared_from_this() : bits(w).shared_from_this(); }
};

// ---- control flow ----------------------------------------------------------------------
using Set = std::set<std::string>;
Set both(const Set &a, const Set &b) {
    Set r;
    for (auto &x : a)
        if (b.count(x)) r.insert(x);
    return r;
}
struct Flow {
    Set must, may;
    bool returns = false;      // on every path
    bool unreachable = false;  // something after a return
    bool some_return = false;
};
struct Ctl {
    World &W;
    std::vector<T> t;
    std::vector<std::string> names;
    AssignmentType at = AssignmentType::Blocking;
    FunctionStmtBlock *fn = nullptr;
    std::shared_ptr<Enum> en;
    Var *ev = nullptr;
    explicit Ctl(World &w) : W(w) {}
    void line(int ind, const std::string &x) { W.log << std::string(2 * ind + 2, ' ') << x << "\n"; }
    void targets() {
        auto &s = W.s;
        int n = 1 + (int)s.draw(4);
        for (int i = 0; i < n; i++) {
            std::string nm = "t" + std::to_string(i);
            Var *v;
            uint32_t cnt = s.chance(1, 4) ? 2 + (uint32_t)s.draw(3) : 1;
            uint32_t w = 1 + (uint32_t)s.draw(6);
            if (s.chance(1, 3))
                v = &W.g->port(PortDirection::Out, nm, w, cnt);
            else
                v = &W.g->var(nm, w, cnt);
            T x;
            x.root = v;
            if (cnt > 1) {
                uint32_t e = (uint32_t)s.draw(cnt);
                if (w > 1 && s.flip()) {
                    uint32_t b = (uint32_t)s.draw(w);
                    x.get = [=]() -> Var & { return (*v)[e][b]; };
                } else
                    x.get = [=]() -> Var & { return (*v)[e]; };
            } else if (w > 1 && s.chance(1, 3)) {
                uint32_t b = (uint32_t)s.draw(w - 1);
                x.get = [=]() -> Var & { return (*v)[std::make_pair(b + 1, b)]; };
            } else
                x.get = [=]() -> Var & { return *v; };
            t.push_back(x);
            names.push_back(nm);
        }
    }
    std::vector<std::shared_ptr<Stmt>> block(int depth, int ind, Flow &f, bool nonempty = false) {
        auto &s = W.s;
        std::vector<std::shared_ptr<Stmt>> r;
        int n = (int)s.draw(4);
        if (nonempty && !n) n = 1;
        for (int i = 0; i < n; i++) {
            if (f.returns) f.unreachable = true;
            Flow q;
            r.push_back(stmt(depth, ind, q));
            f.must.insert(q.must.begin(), q.must.end());
            f.may.insert(q.may.begin(), q.may.end());
            f.returns |= q.returns;
            f.unreachable |= q.unreachable;
            f.some_return |= q.some_return;
        }
        return r;
    }
    std::shared_ptr<Stmt> stmt(int depth, int ind, Flow &f) {
        auto &s = W.s;
        int k = depth == 0 ? 0 : (int)s.draw(6);
        if (fn && s.chance(1, 3)) {
            f.returns = f.some_return = true;
            line(ind, "return");
            return fn->return_stmt(W.s.flip() ? fn->get_port("a") : constant(1, 4).shared_from_this());
        }
        auto asg = [&]() -> std::shared_ptr<Stmt> {
            size_t i = s.draw(t.size());
            f.must.insert(names[i]);
            f.may.insert(names[i]);
            auto &l = t[i].get();
            line(ind, l.to_string() + " = ");
            return l.assign(W.value(l.width()), at);
        };
        if (k <= 1) return asg();
        if (k <= 3) {
            line(ind, "if");
            auto st = std::make_shared<IfStmt>(W.cond());
            Flow a, b;
            for (auto &x : block(depth - 1, ind + 1, a)) st->add_then_stmt(x);
            if (s.draw(4)) {
                line(ind, "else");
                for (auto &x : block(depth - 1, ind + 1, b)) st->add_else_stmt(x);
            }
            f.must = both(a.must, b.must);
            f.may = a.may;
            f.may.insert(b.may.begin(), b.may.end());
            f.returns = a.returns && b.returns;
            f.unreachable = a.unreachable || b.unreachable;
            f.some_return = a.some_return || b.some_return;
            return st;
        }
        if (k == 4 && !fn) {
            line(ind, "for");
            auto st = std::make_shared<ForStmt>("i" + std::to_string(W.nsw++), 0, 1 + (int64_t)s.draw(3), 1);
            for (auto &x : block(depth - 1, ind + 1, f, true)) st->add_stmt(x);
            return st;
        }
        bool e = en && s.flip();
        uint32_t w = 1 + (uint32_t)s.draw(2);
        if (!e && s.chance(1, 8)) w = 31 + (uint32_t)s.draw(10);
        uint64_t total = e ? en->values.size() : 1ull << w;
        Var &tg = e ? *ev : W.bits(w);
        if (!e && tg.width() != w) throw pbt::Discard{"w"};
        line(ind, e ? "switch enum" : "switch " + std::to_string(w));
        auto st = std::make_shared<SwitchStmt>(tg);
        uint64_t n = total < 5 ? (s.flip() ? total : 1 + s.draw(total)) : 1 + s.draw(4);
        bool first = true;
        auto join = [&](const Flow &q) {
            f.must = first ? q.must : both(f.must, q.must);
            f.may.insert(q.may.begin(), q.may.end());
            f.returns = first ? q.returns : f.returns && q.returns;
            f.unreachable |= q.unreachable;
            f.some_return |= q.some_return;
            first = false;
        };
        uint64_t off = s.draw(2) && total >= 5 ? total - n : 0;
        std::vector<std::shared_ptr<Const>> keys;
        if (e)
            for (auto const &[nm, v] : en->values) keys.push_back(v);
        for (uint64_t i = 0; i < n; i++) {
            line(ind, "case");
            Flow q;
            auto b = block(depth - 1, ind + 1, q, true);
            auto key = e ? keys[i] : constant((int64_t)(off + i), w).as<Const>();
            for (auto &x : b) st->add_switch_case(key, x);
            join(q);
        }
        if (s.flip()) {
            line(ind, "default");
            Flow q;
            auto b = block(depth - 1, ind + 1, q, true);
            for (auto &x : b) st->add_switch_case(nullptr, x);
            join(q);
        } else if (n < total) {
            f.must.clear();
            f.returns = false;
        }
        return st;
    }
    void enums() {
        if (!W.s.flip()) return;
        std::map<std::string, uint64_t> d;
        int n = 2 + (int)W.s.draw(3);
        for (int i = 0; i < n; i++) d["E" + std::to_string(i)] = (uint64_t)i;
        en = W.g->enum_("en", d, 2).shared_from_this();
        ev = &W.g->enum_var("ev", en);
    }
};

void p11(pbt::Case &c) {
    World W(c);
    auto &s = W.s;
    Ctl k(W);
    k.enums();
    int mode = (int)s.draw(3);
    std::set<std::string> bad;  // what has to be reported: names, one of them in the message
    std::string r;
    auto run = [&](void (*f)(Generator *)) {
        try {
            f(W.top);
        } catch (const StmtException &e) {
            r = e.what();
            if (r.empty()) r = "?";
        } catch (const std::exception &e) {
            c.fail("failed", std::string(e.what()) + "\n" + W.log.str());
        }
    };
    int nb = 1 + (int)s.draw(2);
    if (mode == 0) {
        c.label("combinational");
        for (int i = 0; i < nb; i++) {
            k.t.clear(), k.names.clear();
            W.log << " always_comb\n";
            auto b = W.g->combinational();
            if (i) {
                Var *v = &W.g->var("z" + std::to_string(i), 1);
                k.t.push_back({v, [=]() -> Var & { return *v; }});
                k.names.push_back("z" + std::to_string(i));
            } else
                k.targets();
            Flow f;
            for (auto &x : k.block(3, 1, f)) b->add_stmt(x);
            for (auto &n : f.may)
                if (!f.must.count(n)) bad.insert(n);
        }
        run(check_inferred_latch);
    } else if (mode == 1) {
        c.label("sequential");
        W.clk = &W.g->port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
        W.rst = &W.g->port(PortDirection::In, "rst", 1, 1, PortType::AsyncReset, false);
        Var *rst2 = s.flip() ? (Var *)&W.g->port(PortDirection::In, "rst2", 1, 1, PortType::AsyncReset, false) : nullptr;
        k.at = AssignmentType::NonBlocking;
        k.targets();
        auto b = W.g->sequential();
        std::vector<Var *> ev;
        b->add_condition({EventEdgeType::Posedge, W.clk->shared_from_this()});
        if (s.chance(5, 6)) b->add_condition({s.flip() ? EventEdgeType::Posedge : EventEdgeType::Negedge, W.rst->shared_from_this()}), ev.push_back(W.rst);
        if (rst2 && s.chance(5, 6)) b->add_condition({EventEdgeType::Negedge, rst2->shared_from_this()}), ev.push_back(rst2);
        std::function<std::shared_ptr<Stmt>(int, int)> go = [&](int d, int ind) -> std::shared_ptr<Stmt> {
            Var *v = s.draw(3) == 0 && rst2 ? rst2 : (Var *)W.rst;
            if (s.chance(1, 5)) v = nullptr;
            bool listed = false;
            for (auto *e : ev) listed |= e == v;
            Var *p = v;
            if (!v)
                p = &W.cond();
            else
                switch (s.draw(7)) {
                    case 0:
                        break;
                    case 5:
                        p = &constant((int64_t)s.draw(2), 1).eq(*v);
                        break;
                    case 6:
                        p = &(constant(1, 1) & (W.cond() | v->eq(constant(1, 1))));
                        break;
                    case 1:
                        p = &~*v;
                        break;
                    case 2:
                        p = &v->r_not();
                        break;
                    case 3:
                        p = &(*v & W.cond());
                        break;
                    default:
                        p = &(W.cond() | (~*v).eq(constant(0, 1)));
                }
            k.line(ind, "if " + p->to_string());
            auto st = std::make_shared<IfStmt>(*p);
            Flow a, e;
            for (auto &x : k.block(2, ind + 1, a)) st->add_then_stmt(x);
            k.line(ind, "else");
            for (auto &x : k.block(2, ind + 1, e)) st->add_else_stmt(x);
            if (d > 0 && s.flip()) {
                size_t before = W.log.str().size();
                (void)before;
                // a nested reset: whatever it assigns counts for the outer else as well
                auto n = go(d - 1, ind + 1);
                // collect what it may assign
                std::function<void(Stmt *)> col = [&](Stmt *q) {
                    if (q->type() == StatementType::Assign) {
                        auto *l = static_cast<AssignStmt *>(q)->left();
                        for (size_t i = 0; i < k.t.size(); i++)
                            if (k.t[i].root == l->get_var_root_parent()) e.may.insert(k.names[i]);
                    }
                    for (uint64_t i = 0; i < q->child_count(); i++) {
                        auto *ch = q->get_child(i);
                        if (ch && ch->ir_node_kind() == IRNodeKind::StmtKind) col(static_cast<Stmt *>(ch));
                    }
                };
                col(n.get());
                st->add_else_stmt(n);
            }
            if (listed)
                for (auto &n : a.may)
                    if (!e.may.count(n)) bad.insert(n);
            return st;
        };
        W.log << " always_ff\n";
        b->add_stmt(go(2, 1));
        if (s.chance(1, 4)) b->add_stmt(go(0, 1));
        run(check_inferred_latch);
    } else {
        c.label("function");
        std::string why;
        for (int i = 0; i < nb; i++) {
            auto f = W.g->function("f" + std::to_string(i));
            W.log << " function\n";
            k.t.clear(), k.names.clear();
            auto a = f->input("a", 4, false);
            Var *v = a.get();
            k.t.push_back({v, [=]() -> Var & { return *v; }});
            k.names.push_back("a");
            k.fn = f.get();
            Flow q;
            for (auto &x : k.block(3, 1, q)) f->add_stmt(x);
            if (q.unreachable || (q.some_return && !q.returns)) bad.insert("f" + std::to_string(i));
        }
        run(check_function_return);
    }
    c.sample = W.log.str();
    c.nontrivial = !bad.empty() || W.log.str().size() > 60;
    c.label(bad.empty() ? "accepted" : "rejected");
    if (bad.empty()) c.check(r.empty(), "alarm", "nothing is wrong, but: " + r);
    if (bad.empty()) return;
    c.check(!r.empty(), "missed", *bad.begin() + " is not reported");
    if (mode < 2) {
        auto e = r.find(" will be inferred");
        c.check(e != std::string::npos && bad.count(r.substr(0, e)), "wrong-variable", r + "; but it is " + *bad.begin());
    }
}
pbt::Reg r11({"P11", "something has to be reported, or the blocks contain several statements", p11, 300000, 4000000, {}, {}});

// ---- clocks, resets, loops, synthesizability --------------------------------------------
struct Expect {
    bool bad = false, unsure = false;
    std::string why;
    void no(const std::string &w) {
        bad = true;
        if (why.empty()) why = w;
    }
};
void sensitivity(World &W, Expect &e) {
    auto &s = W.s;
    auto *g = W.g;
    std::vector<std::pair<std::shared_ptr<Var>, bool>> vs;
    int n = 1 + (int)s.draw(5);
    for (int i = 0; i < n; i++) {
        auto nm = "e" + std::to_string(i);
        switch (s.draw(7)) {
            case 0:
            case 1:
                vs.push_back({g->port(PortDirection::In, nm, 1, 1, PortType::Clock, false).shared_from_this(), true});
                break;
            case 2:
                vs.push_back({g->port(PortDirection::In, nm, 1, 1, PortType::AsyncReset, false).shared_from_this(), true});
                break;
            case 3: {
                auto t = s.pick(std::vector<PortType>{PortType::Data, PortType::Reset, PortType::ClockEnable});
                vs.push_back({g->port(PortDirection::In, nm, 1, 1, t, false).shared_from_this(), false});
                break;
            }
            case 4:
                vs.push_back({g->var(nm, 1).cast(s.flip() ? VarCastType::Clock : VarCastType::AsyncReset), true});
                break;
            case 5:
                vs.push_back({g->var(nm, 1).cast(s.flip() ? VarCastType::ClockEnable : VarCastType::Reset), false});
                break;
            default:
                vs.push_back({g->var(nm, 1).shared_from_this(), false});
        }
    }
    int nb = 1 + (int)s.draw(3);
    for (int b = 0; b < nb; b++) {
        auto blk = g->sequential();
        blk->add_stmt(g->var("q" + std::to_string(b), 1).assign(W.bits(1), AssignmentType::NonBlocking));
        W.log << "always_ff";
        int k = 1 + (int)s.draw(2);
        for (int i = 0; i < k; i++) {
            auto const &v = s.pick(vs);
            if (!v.second && s.chance(3, 4)) continue;
            blk->add_condition({s.flip() ? EventEdgeType::Posedge : EventEdgeType::Negedge, v.first});
            W.log << " " << v.first->to_string() << (v.second ? "" : "!");
            if (!v.second) e.no(v.first->to_string() + " is in a sensitivity list");
        }
        W.log << "\n";
    }
}
void active(World &W, Expect &e) {
    auto &s = W.s;
    auto *g = W.g;
    auto &clk = g->port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
    struct R {
        Port *p;
        bool sync;
        int declared;
        int used = -1;
    };
    std::vector<R> rs;
    int n = 1 + (int)s.draw(3);
    for (int i = 0; i < n; i++) {
        R r;
        r.sync = s.chance(1, 4);
        r.p = &g->port(PortDirection::In, "rst" + std::to_string(i), 1, 1, r.sync ? PortType::Reset : PortType::AsyncReset, false);
        r.declared = (int)s.draw(3) - 1;
        if (r.declared >= 0) r.p->set_active_high(r.declared == 1);
        W.log << r.p->name << (r.sync ? " sync" : " async") << " declared " << r.declared << "\n";
        rs.push_back(r);
    }
    int nb = 1 + (int)s.draw(3);
    int faults = (int)s.draw(2);  // how many mistakes to make
    auto mistake = [&](bool ok) { return ok && faults > 0 && s.chance(1, 3) ? (faults--, true) : false; };
    for (int b = 0; b < nb; b++) {
        auto blk = g->sequential();
        W.log << "always_ff";
        blk->add_condition({EventEdgeType::Posedge, clk.shared_from_this()});
        std::vector<R *> in;
        for (auto &r : rs) {
            if (s.flip() && !r.sync) {
                bool high = r.used >= 0 ? r.used == 1 : r.declared >= 0 ? r.declared == 1 : s.flip();
                if (mistake(r.used >= 0 || r.declared >= 0)) {
                    high = !high;
                    e.no(r.p->name + " is used with two polarities");
                }
                if (r.used < 0) r.used = high;
                blk->add_condition({high ? EventEdgeType::Posedge : EventEdgeType::Negedge, r.p->shared_from_this()});
                W.log << (high ? " posedge " : " negedge ") << r.p->name;
                in.push_back(&r);
            } else if (r.sync && mistake(true)) {
                blk->add_condition({EventEdgeType::Posedge, r.p->shared_from_this()});
                W.log << " " << r.p->name;
                e.no(r.p->name + " is synchronous and in a sensitivity list");
            }
        }
        W.log << "\n";
        StmtBlock *at = blk.get();
        auto &q = g->var("q" + std::to_string(b), 4);
        std::shared_ptr<IfStmt> last;
        for (auto *r : in) {
            if (s.chance(1, 4)) continue;
            bool high = r->used == 1;
            if (mistake(true)) {
                high = !high;
                e.no(r->p->name + " is tested with the other polarity");
            }
            Var &rv = *r->p;
            Var &inv = s.flip() ? static_cast<Var &>(~rv) : rv.r_not();
            Var &pr = high ? rv : inv;
            W.log << "  if " << pr.to_string() << "\n";
            auto st = std::make_shared<IfStmt>(pr);
            st->add_then_stmt(q.assign(constant(0, 4), AssignmentType::NonBlocking));
            if (last)
                last->add_else_stmt(st);
            else
                at->add_stmt(st);
            last = st;
        }
        // a synchronous reset, either polarity
        for (auto &r : rs)
            if (r.sync && s.flip()) {
                auto st = std::make_shared<IfStmt>(s.flip() ? static_cast<Var &>(*r.p) : static_cast<Var &>(~*r.p));
                st->add_then_stmt(q.assign(constant(1, 4), AssignmentType::NonBlocking));
                W.log << "  if " << r.p->name << " (sync)\n";
                if (last)
                    last->add_else_stmt(st);
                else
                    at->add_stmt(st);
                last = st;
            }
        if (last)
            last->add_else_stmt(q.assign(W.bits(4), AssignmentType::NonBlocking));
        else
            at->add_stmt(q.assign(W.bits(4), AssignmentType::NonBlocking));
    }
    // an asynchronous reset that no block listens to, tested all the same
    for (auto &r : rs)
        if (!r.sync && r.used < 0 && mistake(true)) {
            auto blk = s.flip() ? (StmtBlock *)g->combinational().get() : (StmtBlock *)g->sequential().get();
            auto st = std::make_shared<IfStmt>(s.flip() ? static_cast<Var &>(*r.p) : static_cast<Var &>(~*r.p));
            st->add_then_stmt(g->var("z", 1).assign(constant(1, 1)));
            blk->add_stmt(st);
            W.log << "if " << r.p->name << " where nobody listens\n";
            e.no(r.p->name + " is tested and never listened to");
        }
}
void flipflop(World &W, Expect &e) {
    auto &s = W.s;
    auto &clk = W.g->port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
    int nb = 1 + (int)s.draw(3);
    for (int b = 0; b < nb; b++) {
        auto kind = s.draw(5);
        StmtBlock *blk = kind == 0 ? (StmtBlock *)W.g->combinational().get() : kind == 1 ? (StmtBlock *)W.g->latch().get() : nullptr;
        bool seq = !blk;
        if (!blk) {
            auto q = W.g->sequential();
            q->add_condition({EventEdgeType::Posedge, clk.shared_from_this()});
            blk = q.get();
        }
        int n = (int)s.draw(4), ifs = 0;
        W.log << (seq ? "seq" : "other") << "\n";
        for (int i = 0; i < n; i++) {
            auto &v = W.g->var("q" + std::to_string(b) + "_" + std::to_string(i), 2);
            auto a = [&]() { return v.assign(W.bits(2)); };
            int k = (int)s.draw(4);
            W.log << "  " << (k == 0 ? "if" : k == 1 ? "switch" : "assign") << "\n";
            if (k == 0) {
                auto st = std::make_shared<IfStmt>(W.cond());
                st->add_then_stmt(a());
                if (s.flip()) {  // nested ones do not matter
                    auto st2 = std::make_shared<IfStmt>(W.cond());
                    st2->add_then_stmt(a());
                    st->add_else_stmt(a());
                    st->add_else_stmt(st2);
                }
                blk->add_stmt(st);
                ifs++;
            } else if (k == 1) {
                auto st = std::make_shared<SwitchStmt>(W.bits(2));
                st->add_switch_case(nullptr, a());
                if (s.flip()) {
                    auto st2 = std::make_shared<IfStmt>(W.cond());
                    st2->add_then_stmt(a());
                    st->add_switch_case(constant(0, 2).as<Const>(), st2);
                    st->add_switch_case(constant(0, 2).as<Const>(), a());
                }
                blk->add_stmt(st);
            } else
                blk->add_stmt(a());
        }
        if (seq && ifs && n > 1) e.no("an if and something else at the top of a clocked process");
    }
}
void loops(World &W, Expect &e) {
    auto &s = W.s;
    auto *g = W.g;
    int n = 1 + (int)s.draw(4);
    for (int i = 0; i < n; i++) {
        auto nm = "v" + std::to_string(i);
        uint32_t w = 2 + (uint32_t)s.draw(6), cnt = s.chance(1, 3) ? 2 + (uint32_t)s.draw(3) : 1;
        Var &v = s.chance(1, 3) ? (Var &)g->port(PortDirection::Out, nm, w, cnt) : g->var(nm, w, cnt);
        auto idx = [&](uint32_t m) { return (uint32_t)s.draw(m); };
        // a part of the variable, and its bits
        auto part = [&](uint32_t &lo, uint32_t &hi) -> Var & {
            if (cnt > 1) {
                uint32_t k = idx(cnt);
                if (s.flip()) {
                    uint32_t a = idx(w), b = a + idx(w - a);
                    lo = k * w + a, hi = k * w + b;
                    return v[k][std::make_pair(b, a)];
                }
                lo = k * w, hi = k * w + w - 1;
                return v[k];
            }
            if (s.chance(1, 4)) {
                lo = 0, hi = w - 1;
                return v;
            }
            uint32_t a = idx(w), b = a + idx(w - a);
            lo = a, hi = b;
            return v[std::make_pair(b, a)];
        };
        uint32_t ll, lh, rl, rh;
        Var &l = part(ll, lh);
        bool self = s.flip();
        std::string how;
        auto bit_of = [&](Var &x) -> Var & { return x.width() == 1 ? x : x.r_or(); };
        std::function<Var &(uint32_t, int)> expr = [&](uint32_t width, int d) -> Var & {
            // an expression of the width that does not read v
            if (d == 0) return W.bits(width);
            switch (s.draw(3)) {
                case 0:
                    return expr(width, d - 1) + W.bits(width);
                case 1:
                    return ~expr(width, d - 1);
                default:
                    return W.bits(width);
            }
        };
        Var *r = nullptr;
        bool overlap = false;
        if (!self)
            r = &expr(l.width(), 2);
        else {
            Var &o = part(rl, rh);
            overlap = rl <= lh && ll <= rh;
            Var &ob = bit_of(o);
            uint32_t lw = l.width();
            auto fit = [&](Var &b) -> Var & {  // one bit to the width of the target
                if (lw == 1) return b;
                return s.flip() ? static_cast<Var &>(b.extend(lw)) : static_cast<Var &>(W.bits(lw - 1).concat(b));
            };
            switch (s.draw(7)) {
                case 0:
                    r = &fit(ob);
                    break;
                case 1:
                    r = &(fit(ob) + W.bits(lw));
                    break;
                case 2:
                    r = kratos::util::mux(ob, W.bits(lw), W.bits(lw)).get();
                    break;
                case 3:
                    r = kratos::util::mux(W.bits(1), W.bits(lw), fit(ob)).get();
                    break;
                case 4:
                    r = &(~fit(ob) & expr(lw, 1));
                    break;
                case 5: {  // as an index
                    auto &arr = g->var("arr" + std::to_string(i), lw, 2);
                    r = &arr[ob.shared_from_this()];
                    if (ob.type() == VarType::Expression) r = &fit(ob);
                    break;
                }
                default:
                    r = fit(ob).cast(VarCastType::Signed).get();
                    r = r->cast(VarCastType::Unsigned).get();
            }
        }
        bool proc = s.chance(1, 4);
        auto a = l.assign(*r, AssignmentType::Blocking);
        if (proc)
            g->combinational()->add_stmt(a);
        else
            g->add_stmt(a);
        W.log << "  " << (proc ? "comb " : "") << l.to_string() << " = " << r->to_string() << "\n";
        if (overlap && !proc) e.no(l.to_string() + " = " + r->to_string());
    }
}
void synth(World &W, Expect &e) {
    auto &s = W.s;
    auto *g = W.g;
    auto dpi = g->dpi_function("dpi_f");
    dpi->input("a", 2, false);
    dpi->set_return_width(2);
    auto fn = g->function("fn");
    auto fa = fn->input("a", 2, false);
    fn->create_function_handler(2, false);
    fn->add_stmt(fn->return_stmt(fa));
    auto bad_expr = [&]() -> Var & { return g->call("dpi_f", std::map<std::string, std::shared_ptr<Var>>{{"a", W.bits(2).shared_from_this()}}); };
    auto good_expr = [&]() -> Var & {
        if (s.chance(1, 3)) return g->call("fn", std::map<std::string, std::shared_ptr<Var>>{{"a", W.bits(2).shared_from_this()}});
        return W.bits(2);
    };
    bool make_bad = s.flip();
    int n = 1 + (int)s.draw(3), chosen = (int)s.draw(n);
    for (int i = 0; i < n; i++) {
        bool bad = make_bad && i == chosen;
        auto &v = g->var("v" + std::to_string(i), 2);
        bool seq = s.chance(1, 3);
        auto blk = seq ? std::static_pointer_cast<StmtBlock>(g->sequential()) : std::static_pointer_cast<StmtBlock>(g->combinational());
        int kind = bad ? (int)s.draw(8) : 0;
        auto wrap = [&](std::shared_ptr<Stmt> st) -> std::shared_ptr<Stmt> {
            for (int d = (int)s.draw(3); d > 0; d--) {
                if (s.flip()) {
                    auto f = std::make_shared<IfStmt>(W.cond());
                    if (s.flip())
                        f->add_then_stmt(st);
                    else
                        f->add_else_stmt(st);
                    st = f;
                } else {
                    auto f = std::make_shared<SwitchStmt>(W.bits(2));
                    f->add_switch_case(s.flip() ? constant(1, 2).as<Const>() : nullptr, st);
                    st = f;
                }
            }
            return st;
        };
        auto at = seq ? AssignmentType::NonBlocking : AssignmentType::Blocking;
        if (!bad) {
            blk->add_stmt(wrap(v.assign(good_expr(), at)));
            W.log << "fine\n";
            continue;
        }
        auto call = [&](const std::string &f, std::vector<std::shared_ptr<Var>> as) {
            auto fb = g->has_function(f) ? g->get_function(f) : std::static_pointer_cast<FunctionStmtBlock>(g->builtin_function(f));
            (void)fb;
            return std::make_shared<FunctionCallStmt>(g->call(f, as).as<FunctionCallVar>());
        };
        static const char *kn[] = {"dpi in an expression", "dpi as operand", "dpi in a condition", "dpi statement", "$display", "delay", "initial", "general purpose always"};
        W.log << kn[kind] << "\n";
        e.no(kn[kind]);
        switch (kind) {
            case 0:
                blk->add_stmt(wrap(v.assign(bad_expr(), at)));
                break;
            case 1:
                blk->add_stmt(wrap(v.assign(W.bits(2) ^ bad_expr(), at)));
                break;
            case 2: {
                auto f = std::make_shared<IfStmt>(bad_expr().eq(W.bits(2)));
                f->add_then_stmt(v.assign(W.bits(2), at));
                blk->add_stmt(wrap(f));
                break;
            }
            case 3:
                blk->add_stmt(wrap(std::make_shared<FunctionCallStmt>(static_cast<Var &>(bad_expr()).as<FunctionCallVar>())));
                break;
            case 4:
                blk->add_stmt(wrap(call("display", {W.bits(2).shared_from_this()})));
                break;
            case 5: {
                auto a = v.assign(W.bits(2), at);
                a->set_delay(EventControl(1));
                blk->add_stmt(wrap(a));
                break;
            }
            case 6:
                g->initial()->add_stmt(wrap(v.assign(W.bits(2), at)));
                break;
            default: {
                auto b = g->combinational();
                b->set_general_purpose(true);
                b->add_stmt(wrap(v.assign(W.bits(2), AssignmentType::Blocking)));
            }
        }
    }
}

void p35(pbt::Case &c) {
    World W(c);
    Expect e;
    struct M {
        const char *name;
        void (*make)(World &, Expect &);
        void (*check)(Generator *);
    };
    static const M ms[] = {{"check_always_sensitivity", sensitivity, check_always_sensitivity},
                           {"check_active_high", active, check_active_high},
                           {"check_flip_flop_always_ff", flipflop, check_flip_flop_always_ff},
                           {"check_combinational_loop", loops, check_combinational_loop},
                           {"check_non_synthesizable_content", synth, check_non_synthesizable_content}};
    auto const &m = ms[W.s.draw(5)];
    m.make(W, e);
    c.sample = std::string(m.name) + "\n" + W.log.str();
    c.label(std::string(m.name) + (e.bad ? " rejects" : " accepts"));
    c.nontrivial = W.log.str().size() > 12;
    std::string r;
    bool threw = false;
    try {
        m.check(W.top);
    } catch (const StmtException &x) {
        threw = true, r = x.what();
    } catch (const VarException &x) {
        threw = true, r = x.what();
    } catch (const UserException &x) {
        threw = true, r = x.what();
    } catch (const std::exception &x) {
        c.fail("failed", std::string(x.what()) + "\n" + c.sample);
    }
    if (e.bad)
        c.check(threw, std::string("missed:") + m.name, e.why + " is not reported");
    else
        c.check(!threw, std::string("alarm:") + m.name, r);
}
pbt::Reg r35({"P35", "there is at least one process or assignment to judge", p35, 300000, 4000000, {}, {}});
}  // namespace
