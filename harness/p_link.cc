// P24 which statements use a variable: sources and sinks against the statements of the design
#include <functional>

#include "expr.hh"
#include "rdl.hh"
#include "stmt.hh"
using namespace rdl;
namespace k = kratos;

namespace {
struct Use {
    std::set<k::AssignStmt *> stmts;             // statements of the design
    std::set<k::Stmt *> conds;                   // if and switch statements
    std::map<k::Var *, std::set<k::AssignStmt *>> rd, wr;
    std::map<k::Var *, std::set<std::pair<k::Stmt *, k::Var *>>> cond;
    std::string astray;  // a statement that does not lead back to its generator
    k::Generator *cur = nullptr;

    static void reads(k::Var *v, std::set<k::Var *> &r) {
        if (!v) return;
        if (v->is_function()) {
            if (auto *call = dynamic_cast<k::FunctionCallVar *>(v))
                for (auto const &[n, a] : call->args()) reads(a.get(), r);
            return;
        }
        switch (v->type()) {
            case k::VarType::Base:
            case k::VarType::PortIO:
                r.insert(v);
                return;
            case k::VarType::Slice: {
                auto s = v->as<k::VarSlice>();
                if (s->sliced_by_var()) reads(s->as<k::VarVarSlice>()->sliced_var(), r);
                reads(s->parent_var, r);
                return;
            }
            case k::VarType::BaseCasted:
                reads(v->as<k::VarCasted>()->parent_var(), r);
                return;
            case k::VarType::Expression: {
                auto e = v->as<k::Expr>();
                if (e->op == k::ExprOp::Concat) {
                    for (auto *x : e->as<k::VarConcat>()->vars()) reads(x, r);
                    return;
                }
                if (e->op == k::ExprOp::Extend) {
                    reads(e->as<k::VarExtend>()->parent_var(), r);
                    return;
                }
                if (e->op == k::ExprOp::Conditional) reads(e->as<k::ConditionalExpr>()->condition, r);
                reads(e->left, r);
                reads(e->right, r);
                return;
            }
            default:
                return;
        }
    }
    static void writes(k::Var *v, std::set<k::Var *> &w, std::set<k::Var *> &r) {
        if (v->type() == k::VarType::Slice) {
            auto s = v->as<k::VarSlice>();
            if (s->sliced_by_var()) reads(s->as<k::VarVarSlice>()->sliced_var(), r);
            writes(s->parent_var, w, r);
        } else if (v->type() == k::VarType::BaseCasted) {
            writes(v->as<k::VarCasted>()->parent_var(), w, r);
        } else if (v->type() == k::VarType::Expression && v->as<k::Expr>()->op == k::ExprOp::Concat) {
            for (auto *x : v->as<k::Expr>()->as<k::VarConcat>()->vars()) writes(x, w, r);
        } else {
            w.insert(v);
        }
    }
    void assign(k::AssignStmt *a) {
        stmts.insert(a);
        std::set<k::Var *> w, r;
        writes(a->left(), w, r);
        reads(a->right(), r);
        for (auto *v : w) wr[v].insert(a);
        for (auto *v : r) rd[v].insert(a);
    }
    void condition(k::Stmt *s, k::Var *v) {
        conds.insert(s);
        std::set<k::Var *> r;
        reads(v, r);
        for (auto *x : r) cond[x].insert({s, v});
    }
    void stmt(k::Stmt *s) {
        if (s->generator_parent() != cur) astray = "a statement of " + cur->name + " belongs to " + (s->generator_parent() ? s->generator_parent()->name : "nothing");
        switch (s->type()) {
            case k::StatementType::Assign:
                assign(static_cast<k::AssignStmt *>(s));
                break;
            case k::StatementType::If: {
                auto i = static_cast<k::IfStmt *>(s);
                condition(s, i->predicate().get());
                stmt(i->then_body().get());
                stmt(i->else_body().get());
                break;
            }
            case k::StatementType::Switch: {
                auto i = static_cast<k::SwitchStmt *>(s);
                condition(s, i->target().get());
                for (auto const &[c, b] : i->body()) stmt(b.get());
                break;
            }
            case k::StatementType::For:
                stmt(static_cast<k::ForStmt *>(s)->get_loop_body().get());
                break;
            case k::StatementType::Block:
                for (auto const &t : *static_cast<k::StmtBlock *>(s)) stmt(t.get());
                break;
            case k::StatementType::ModuleInstantiation:
                for (auto const &t : static_cast<k::ModuleInstantiationStmt *>(s)->connection_stmt()) assign(t);
                break;
            default:
                break;
        }
    }
    void gen(k::Generator *g) {
        cur = g;
        for (auto const &s : g->get_all_stmts()) stmt(s.get());
        for (auto const &[n, f] : g->functions()) stmt(f.get());
        for (auto const &c : g->get_child_generators()) {
            // connections of an instance are not statements of their own
            for (auto const &n : c->get_port_names()) {
                auto p = c->get_port(n);
                if (p->port_direction() == k::PortDirection::In) {
                    for (auto const &x : p->sources())
                        if (x->parent() == g && x->left() == p.get()) assign(x.get());
                } else {
                    for (auto const &x : p->sinks())
                        if (x->parent() == g && x->right() == p.get()) assign(x.get());
                }
            }
            gen(c.get());
        }
    }
};

std::string name(k::Var *v) { return (v->generator() ? v->generator()->instance_name + "." : std::string()) + v->to_string(); }
std::string str(k::AssignStmt *a) { return name(a->left()) + " <- " + name(a->right()); }

// the difference between the two, "" if there is none
std::pair<std::string, std::string> linkage(k::Generator *top) {
    Use u;
    u.gen(top);
    auto has = [](const std::unordered_set<std::shared_ptr<k::AssignStmt>> &s, k::AssignStmt *a) {
        for (auto const &x : s)
            if (x.get() == a) return true;
        return false;
    };
    if (!u.astray.empty()) return {"astray", u.astray};
    // nothing refers to a variable that is gone
    std::set<k::Var *> known;
    std::function<void(k::Generator *)> decls = [&](k::Generator *g) {
        for (auto const &n : g->get_all_var_names()) known.insert(g->get_var(n).get());
        for (auto const &[n, f] : g->functions())
            for (auto const &[m, p] : f->ports()) known.insert(p.get());
        for (auto const &[n, f] : g->functions())
            if (f->function_handler()) known.insert(f->function_handler().get());
        for (auto const &c : g->get_child_generators()) decls(c.get());
    };
    decls(top);
    for (auto const &[v, ss] : u.rd)
        if (!known.count(v)) return {"gone", str(*ss.begin()) + " reads " + name(v) + ", which is gone"};
    for (auto const &[v, ss] : u.wr)
        if (!known.count(v)) return {"gone", str(*ss.begin()) + " drives " + name(v) + ", which is gone"};
    for (auto const &[v, ss] : u.cond)
        if (!known.count(v)) return {"gone", "the condition " + name(ss.begin()->second) + " reads " + name(v) + ", which is gone"};
    for (auto const &[v, ss] : u.rd)
        for (auto *a : ss)
            if (!has(v->sinks(), a)) return {"sink-missing", str(a) + " reads " + name(v) + ", which does not know"};
    for (auto const &[v, ss] : u.wr)
        for (auto *a : ss)
            if (!has(v->sources(), a)) return {"source-missing", str(a) + " drives " + name(v) + ", which does not know"};
    for (auto const &[v, ss] : u.cond)
        for (auto const &[s, e] : ss) {
            bool ok = false;
            for (auto const &x : v->sinks()) ok |= x->parent() == s && x->right() == e;
            if (!ok) return {"condition-missing", "the condition " + name(e) + " reads " + name(v) + ", which does not know"};
        }
    std::function<std::pair<std::string, std::string>(k::Generator *)> back = [&](k::Generator *g) -> std::pair<std::string, std::string> {
        for (auto const &n : g->get_all_var_names()) {
            auto v = g->get_var(n);
            if (v->generator() != g) return {"owner", n + " of " + g->name + " belongs to " + v->generator()->name};
            if (v->name != n) return {"name", n + " is called " + v->name};
            for (auto const &x : v->sources()) {
                if (!u.stmts.count(x.get())) return {"source-stale", str(x.get()) + " is no statement of the design, but a source of " + name(v.get())};
                if (!u.wr.count(v.get()) || !u.wr.at(v.get()).count(x.get())) return {"source-wrong", str(x.get()) + " does not drive " + name(v.get())};
            }
            for (auto const &x : v->sinks()) {
                if (u.stmts.count(x.get())) {
                    if (!u.rd.count(v.get()) || !u.rd.at(v.get()).count(x.get())) return {"sink-wrong", str(x.get()) + " does not read " + name(v.get())};
                    continue;
                }
                auto *p = x->parent();
                bool live = p && p->ir_node_kind() == k::IRNodeKind::StmtKind && u.conds.count(static_cast<k::Stmt *>(p));
                if (!live) return {"sink-stale", str(x.get()) + " is no statement of the design, but a sink of " + name(v.get())};
            }
        }
        for (auto const &c : g->get_child_generators()) {
            auto r = back(c.get());
            if (!r.first.empty()) return r;
        }
        return {};
    };
    return back(top);
}

void p24(pbt::Case &c) {
    auto [d, bo, f] = any_setup(c);
    f.reorder = f.reorder && c.src.flip();
    Built b = build(d, bo);
    auto t = linkage(b.top);
    if (t.first.empty() && c.src.chance(1, 3)) {
        // branches get the condition of another one
        c.label("conditions replaced");
        std::function<void(k::Generator *)> gen = [&](k::Generator *g) {
            std::vector<k::IfStmt *> ifs;
            std::function<void(k::Stmt *)> stmt = [&](k::Stmt *s) {
                switch (s->type()) {
                    case k::StatementType::If: {
                        auto i = static_cast<k::IfStmt *>(s);
                        ifs.push_back(i);
                        stmt(i->then_body().get()), stmt(i->else_body().get());
                        break;
                    }
                    case k::StatementType::Switch:
                        for (auto const &[c, b] : static_cast<k::SwitchStmt *>(s)->body()) stmt(b.get());
                        break;
                    case k::StatementType::Block:
                        // what is in a loop can depend on its variable
                        for (auto const &t : *static_cast<k::StmtBlock *>(s)) stmt(t.get());
                        break;
                    default: break;
                }
            };
            for (auto const &s : g->get_all_stmts()) stmt(s.get());
            for (auto *i : ifs)
                if (c.src.flip()) c.src.pick(ifs)->set_predicate(i->predicate());
            for (auto const &k : g->get_child_generators())
                if (!k->is_cloned()) gen(k.get());
        };
        gen(b.top);
        t = linkage(b.top);
    }
    c.check(t.first.empty(), "built:" + t.first, t.second + "\n" + show(d));
    std::string before = "construction", bad, what;
    size_t n = 0;
    f.after = [&](const std::string &pass, k::Generator *g) {
        n++;
        if (!bad.empty()) return;
        auto t = linkage(g);
        if (!t.first.empty()) bad = pass + ":" + t.first, what = "after " + pass + ": " + t.second;
    };
    std::string text;
    try {
        text = join(default_flow(b.top, f));
    } catch (const std::exception &e) {
        // a checker may object to the design
    }
    c.check(bad.empty(), bad, what + "\n" + show(d) + "\n" + text);
    c.sample = text;
    c.nontrivial = n > 10;
}
pbt::Reg r24({"P24", "at least ten passes ran", p24, 20000, 400000, {}, {}});
}  // namespace
