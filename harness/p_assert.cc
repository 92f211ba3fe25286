// P26 assertions are written as described, and event annotations can be taken out
#include <cctype>

#include "codegen.hh"
#include "context.hh"
#include "core.hh"
#include "event.hh"
#include "expr.hh"
#include "generator.hh"
#include "pass.hh"
#include "port.hh"
#include "stmt.hh"
#include "tb.hh"
namespace k = kratos;

namespace {
struct Ev {
    int action = 0;  // 1 starts, 2 terminates
    std::string name, transaction;
    std::vector<std::pair<std::string, int>> fields, match;
};
struct St {
    enum Kind { Assign, Event, If, Switch, For, Assert } kind = Assign;
    int id = 0, v = 0, w = 0;
    bool els = false;
    Ev ev;
    std::vector<std::vector<St>> body;
};
enum Block { Comb, Seq, Latch, Initial, Final, Func, Plain, Blocks };
struct Elem {
    int v, w, op, lo, hi;
    bool child;
};
struct Prop {
    std::string name;
    int action = 0, edge = 0;
    bool direct = false, els = false;
    std::vector<Elem> seq;
};
struct Mod {
    std::vector<std::pair<Block, std::vector<St>>> blocks;
    std::vector<Prop> props;
};
std::string dense(const std::string &t) {
    std::string r;
    for (char x : t)
        if (!std::isspace((unsigned char)x)) r += x;
    return r;
}
struct Gen {
    pbt::Src &s;
    int ids = 0, events = 0, asserts = 0;
    std::vector<St> stmts(Block b, int depth, int &budget, bool in_loop = false) {
        std::vector<St> r;
        int n = 1 + s.draw(3);
        for (int i = 0; i < n && budget > 0; i++) {
            budget--;
            St x;
            x.id = ids++;
            x.v = s.draw(4), x.w = s.draw(4);
            int q = s.draw(depth > 0 ? 9 : 6);
            if (b == Plain) q = q < 3 ? 0 : 3;
            if (q < 3) x.kind = St::Assign;
            else if (q < 5) x.kind = St::Event;
            else if (q < 6) x.kind = St::Assert;
            else x.kind = q == 6 ? St::If : q == 7 ? St::Switch : St::For;
            if (x.kind == St::For && in_loop) x.kind = St::If;
            if (x.kind == St::Event) {
                events++;
                x.ev.name = "ev" + std::to_string(s.draw(4));
                x.ev.action = s.draw(4);
                if (s.flip()) x.ev.transaction = "t" + std::to_string(s.draw(3));
                for (int f = s.draw(3); f > 0; f--) x.ev.fields.emplace_back("f" + std::to_string(f), s.draw(4));
                if (s.chance(1, 3)) x.ev.match.emplace_back("f1", s.draw(4));
            }
            if (x.kind == St::Assert) {
                asserts++;
                x.els = s.chance(1, 3);
            }
            int nb = x.kind == St::If ? 1 + s.draw(2) : x.kind == St::Switch ? 1 + s.draw(3) : x.kind == St::For ? 1 : 0;
            for (int j = 0; j < nb; j++) x.body.push_back(stmts(b, depth - 1, budget, in_loop || x.kind == St::For));
            r.push_back(x);
        }
        return r;
    }
};
struct Made {
    const St *st;
    std::shared_ptr<k::EventTracingStmt> e;
    Block b;
    k::Generator *g;
};
struct Built {
    k::Context ctx;
    k::Generator *top = nullptr;
    std::vector<k::Generator *> gens;
    std::vector<std::vector<k::Var *>> vars;
    std::vector<k::Var *> clk;
    std::vector<Made> made;
    std::vector<std::shared_ptr<k::Property>> keep;
};

std::vector<std::shared_ptr<k::Stmt>> put(Built &b, int m, Block blk, const std::vector<St> &ss, bool events) {
    std::vector<std::shared_ptr<k::Stmt>> r;
    auto &vs = b.vars[m];
    for (auto const &x : ss) {
        switch (x.kind) {
            case St::Assign: r.push_back(vs[x.v]->assign(k::constant(x.id, 16))); break;
            case St::Event: {
                if (!events) break;
                std::map<std::string, std::shared_ptr<k::Var>> f;
                for (auto const &[n, v] : x.ev.fields) f.emplace(n, vs[v]->shared_from_this());
                auto e = k::Event(x.ev.name).fire(f);
                bool named = !x.ev.transaction.empty();
                if (x.ev.action & 1) named ? e->starts(x.ev.transaction) : e->starts();
                if (x.ev.action & 2) named && x.ev.action == 2 ? e->terminates(x.ev.transaction) : e->terminates();
                if (!x.ev.action && named) e->belongs(x.ev.transaction);
                for (auto const &[n, v] : x.ev.match) e->matches(n, vs[v]->shared_from_this());
                b.made.push_back({&x, e, blk, b.gens[m]});
                r.push_back(e);
                break;
            }
            case St::Assert: {
                auto a = std::make_shared<k::AssertValueStmt>(vs[x.v]->eq(k::constant(x.id, 16)).shared_from_this());
                if (x.els) a->set_else(std::make_shared<k::RawStringStmt>("$error(\"no " + std::to_string(x.id) + "\");"));
                r.push_back(a);
                break;
            }
            case St::If: {
                auto i = std::make_shared<k::IfStmt>(vs[x.v]->eq(k::constant(x.id, 16)));
                for (auto const &y : put(b, m, blk, x.body[0], events)) i->add_then_stmt(y);
                if (x.body.size() > 1)
                    for (auto const &y : put(b, m, blk, x.body[1], events)) i->add_else_stmt(y);
                r.push_back(i);
                break;
            }
            case St::Switch: {
                auto w = std::make_shared<k::SwitchStmt>(vs[x.v]->shared_from_this());
                for (size_t j = 0; j < x.body.size(); j++) {
                    auto label = j == 2 ? nullptr : k::constant((int64_t)(x.id + 1000 * j), 16).as<k::Const>();
                    w->add_switch_case(label, put(b, m, blk, x.body[j], events));
                }
                r.push_back(w);
                break;
            }
            case St::For: {
                auto f = std::make_shared<k::ForStmt>("i", 0, 2 + x.w, 1);
                for (auto const &y : put(b, m, blk, x.body[0], events)) f->get_loop_body()->add_stmt(y);
                r.push_back(f);
                break;
            }
        }
    }
    return r;
}
void build(Built &b, const std::vector<Mod> &ms, const std::vector<int> &up, bool events) {
    for (size_t m = 0; m < ms.size(); m++) {
        auto &g = b.ctx.generator("mod" + std::to_string(m));
        b.gens.push_back(&g);
        b.vars.emplace_back();
        for (int i = 0; i < 4; i++) b.vars[m].push_back(&g.var("v" + std::to_string(i), 16));
        b.clk.push_back(&g.var("clk", 1));
        for (auto const &[blk, ss] : ms[m].blocks) {
            auto all = put(b, m, blk, ss, events);
            std::shared_ptr<k::StmtBlock> to;
            switch (blk) {
                case Comb: to = g.combinational(); break;
                case Seq: {
                    auto q = g.sequential();
                    q->add_condition({k::EventEdgeType::Posedge, b.clk[m]->cast(k::VarCastType::Clock)});
                    to = q;
                    break;
                }
                case Latch: to = g.latch(); break;
                case Initial: to = g.initial(); break;
                case Final: to = g.final(); break;
                case Func: to = g.function("fn" + std::to_string(&ss - &ms[m].blocks[0].second)); break;
                default: break;
            }
            for (auto const &st : all) {
                if (to) to->add_stmt(st);
                else g.add_stmt(st);
            }
        }
        if (m) b.gens[up[m]]->add_child_generator("inst" + std::to_string(m), g);
    }
    b.top = b.gens[0];
}
k::Var &elem(Built &b, const Elem &e, int m, const std::vector<int> &up) {
    auto &own = b.vars[m];
    auto *vs = &own;
    if (e.child)
        for (size_t i = 1; i < up.size(); i++)
            if (up[i] == m) vs = &b.vars[i];
    auto &l = *(*vs)[e.v], &r = *(*vs)[e.w];
    switch (e.op) {
        case 0: return l.eq(r);
        case 1: return l[e.w];
        case 2: return l < r;
        default: return *k::util::mux(l.eq(r), l[0u], r[1u]);
    }
}
void p26(pbt::Case &c) {
    auto &s = c.src;
    std::vector<Mod> ms(1 + s.draw(3));
    std::vector<int> up(ms.size(), -1);
    Gen gen{s};
    int np = 0;
    for (size_t m = 0; m < ms.size(); m++) {
        if (m) up[m] = s.draw(m);
        int budget = 8;
        for (int n = s.draw(4); n > 0; n--) {
            auto b = (Block)s.draw(Blocks);
            ms[m].blocks.emplace_back(b, gen.stmts(b, 2, budget));
        }
        for (int n = s.draw(3); n > 0; n--) {
            Prop p;
            p.name = "prop" + std::to_string(np++);
            p.action = s.draw(4), p.edge = s.draw(3), p.direct = s.flip(), p.els = s.flip();
            for (int q = 1 + s.draw(4); q > 0; q--) {
                Elem e{(int)s.draw(4), (int)s.draw(4), (int)s.draw(4), 0, 0, s.chance(1, 4)};
                if (s.flip()) e.lo = s.draw(4), e.hi = e.lo + (s.flip() ? s.draw(3) : 0);
                p.seq.push_back(e);
            }
            ms[m].props.push_back(p);
        }
    }
    c.sample = std::to_string(ms.size()) + " modules, " + std::to_string(gen.events) + " events, " + std::to_string(gen.asserts) + " assertions, " + std::to_string(np) + " properties\n";
    static const char *bn[] = {"comb", "seq", "latch", "initial", "final", "function", "plain"};
    std::function<std::string(const std::vector<St> &)> show = [&](const std::vector<St> &ss) {
        std::string r;
        static const char *kn[] = {"assign", "event", "if", "switch", "for", "assert"};
        for (auto const &x : ss) {
            r += std::string(" ") + kn[x.kind];
            for (auto const &y : x.body) r += " {" + show(y) + " }";
        }
        return r;
    };
    for (size_t m = 0; m < ms.size(); m++)
        for (auto const &[b, ss] : ms[m].blocks) c.sample += "module " + std::to_string(m) + " " + bn[b] + ":" + show(ss) + "\n";
    std::string with, without;
    std::vector<std::string> expect, absent;
    try {
        Built a, b;
        build(a, ms, up, true);
        build(b, ms, up, false);
        // every event is found
        std::map<const k::Stmt *, int> found;
        auto info = k::extract_event_info(a.top);
        for (auto const &i : info) found[i.stmt.get()]++;
        if (info.size() != a.made.size()) c.fail("events", std::to_string(info.size()) + " events instead of " + std::to_string(a.made.size()) + "\n" + c.sample);
        for (auto const &x : a.made) {
            if (found[x.e.get()] != 1) c.fail("events", x.st->ev.name + " is found " + std::to_string(found[x.e.get()]) + " times\n" + c.sample);
            for (auto const &i : info) {
                if (i.stmt != x.e) continue;
                std::map<std::string, std::shared_ptr<k::Var>> f, mv;
                int m = 0;
                while (a.gens[m] != x.g) m++;
                for (auto const &[n, v] : x.st->ev.fields) f.emplace(n, a.vars[m][v]->shared_from_this());
                for (auto const &[n, v] : x.st->ev.match) mv.emplace(n, a.vars[m][v]->shared_from_this());
                if (i.name != x.st->ev.name || i.fields != f || x.e->match_values() != mv) c.fail("event", x.st->ev.name + " has other fields\n" + c.sample);
                if (i.transaction != x.st->ev.transaction) c.fail("event", x.st->ev.name + " belongs to " + i.transaction + " instead of " + x.st->ev.transaction + "\n" + c.sample);
                auto is = [&](k::EventActionType t) { return (static_cast<uint64_t>(i.type) & static_cast<uint64_t>(t)) != 0; };
                if (is(k::EventActionType::Start) != bool(x.st->ev.action & 1) || is(k::EventActionType::End) != bool(x.st->ev.action & 2)) c.fail("event", x.st->ev.name + " has another action\n" + c.sample);
                if (i.combinational != (x.b != Seq)) c.fail("event", x.st->ev.name + " is " + (i.combinational ? "" : "not ") + "combinational\n" + c.sample);
            }
        }
        bool early = s.flip();
        auto finish = [&](Built &d, bool first) {
            if (early) k::remove_event_stmts(d.top);
            for (size_t m = 0; m < ms.size(); m++)
                for (auto const &p : ms[m].props) {
                    std::string want = "property" + p.name + ";";
                    std::shared_ptr<k::Sequence> seq;
                    k::Sequence *at = nullptr;
                    if (p.edge) want += p.edge == 1 ? "@(posedgeclk)" : "@(negedgeclk)";
                    for (auto const &e : p.seq) {
                        auto &v = elem(d, e, m, up);
                        if (!at) {
                            seq = std::make_shared<k::Sequence>(v.shared_from_this());
                            at = seq.get();
                        } else {
                            at = at->imply(v.shared_from_this());
                            want += "|->";
                        }
                        if (e.lo == e.hi && e.lo) {
                            at->wait(e.lo);
                            want += "##" + std::to_string(e.lo);
                        } else if (e.hi) {
                            at->wait(e.lo, e.hi);
                            want += "##[" + std::to_string(e.lo) + ":" + std::to_string(e.hi) + "]";
                        }
                        want += v.generator() == d.gens[m] ? v.to_string() : v.handle_name(true);
                    }
                    want += ";endproperty";
                    auto prop = p.direct ? std::make_shared<k::Property>(p.name, seq) : d.gens[m]->property(p.name, seq);
                    d.keep.push_back(prop);
                    if (p.edge) prop->edge(p.edge == 1 ? k::EventEdgeType::Posedge : k::EventEdgeType::Negedge, d.clk[m]->shared_from_this());
                    static const k::PropertyAction act[] = {k::PropertyAction::None, k::PropertyAction::Cover, k::PropertyAction::Assume, k::PropertyAction::Assert};
                    static const char *word[] = {"", "cover", "assume", "assert"};
                    prop->set_action(act[p.action]);
                    bool els = false;
                    if (p.direct) {
                        auto st = std::make_shared<k::AssertPropertyStmt>(prop);
                        if (p.els && p.action == 3) st->set_else(std::make_shared<k::RawStringStmt>("$error(\"not " + p.name + "\");")), els = true;
                        d.gens[m]->add_stmt(st);
                    }
                    if (p.action) want += word[p.action] + ("property(" + p.name + ")") + (els ? "else$error(\"not" + p.name + "\");" : ";");
                    else if (first) absent.push_back("property(" + p.name + ")");
                    if (first) expect.push_back(dense(want));
                }
            k::change_property_into_stmt(d.top);
            k::fix_assignment_type(d.top);
            k::create_module_instantiation(d.top);
            if (!early) k::remove_event_stmts(d.top);
            std::string r;
            for (auto const &[n, t] : k::generate_verilog(d.top, {})) r += t;
            return r;
        };
        with = finish(a, true);
        without = finish(b, false);
        if (!k::extract_event_info(a.top).empty()) c.fail("removed", "there are events left\n" + c.sample);
    } catch (const pbt::Failure &) {
        throw;
    } catch (const std::exception &e) {
        c.fail("exception", std::string(e.what()) + "\n" + c.sample);
    }
    if (with != without) c.fail("removed", with + "instead of\n" + without + c.sample);
    auto d = dense(with);
    auto once = [&](const std::string &x) {
        auto i = d.find(x);
        return i != std::string::npos && d.find(x, i + 1) == std::string::npos;
    };
    for (auto const &x : expect)
        if (!once(x)) c.fail("property", "no " + x + "\n" + with + c.sample);
    for (auto const &x : absent)
        if (d.find(x) != std::string::npos) c.fail("property", x + "\n" + with + c.sample);
    std::function<void(const std::vector<St> &)> asserts = [&](const std::vector<St> &ss) {
        for (auto const &x : ss) {
            for (auto const &y : x.body) asserts(y);
            if (x.kind != St::Assert) continue;
            char id[8];
            snprintf(id, sizeof id, "%X", x.id);
            auto w = "assert(v" + std::to_string(x.v) + "==16'h" + id + ")" + (x.els ? "else$error(\"no" + std::to_string(x.id) + "\");" : ";");
            if (!once(w)) c.fail("assertion", "no " + w + "\n" + with + c.sample);
        }
    };
    for (auto const &m : ms)
        for (auto const &[b, ss] : m.blocks) asserts(ss);
    if (gen.events) c.label("events");
    if (np) c.label("properties");
    c.nontrivial = gen.events + gen.asserts + np >= 3;
}
pbt::Reg r26({"P26", "there are at least three events, assertions and properties", p26, 400000, 6000000, {}, {}});
}  // namespace
