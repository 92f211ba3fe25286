// P31 modules are found by name, by path and in the order of the hierarchy
#include <algorithm>
#include <cctype>

#include "context.hh"
#include "core.hh"
#include "except.hh"
#include "expr.hh"
#include "generator.hh"
#include "graph.hh"
#include "port.hh"
#include "stmt.hh"
namespace k = kratos;

namespace {
struct M {
    std::shared_ptr<k::Generator> g;
    std::string name, inst;
    bool in = true;  // the context knows it
    int up = -1;
    std::vector<int> down;
    std::vector<k::Var *> vars;
};
const std::vector<std::string> &names() {
    static const std::vector<std::string> n = {"a", "ab", "a_b", "b", "top", "a0", "ab_c", "to"};
    return n;
}
// every name of a variable with its path in front
std::string prefixed(const std::string &t, const std::string &path) {
    std::string r;
    for (size_t i = 0; i < t.size();) {
        if (t.compare(i, 2, "v_") == 0 && (i == 0 || !(std::isalnum(t[i - 1]) || t[i - 1] == '_'))) r += path;
        if (std::isalnum(t[i]) || t[i] == '_' || t[i] == '\'') {
            while (i < t.size() && (std::isalnum(t[i]) || t[i] == '_' || t[i] == '\'')) r += t[i++];
        } else {
            r += t[i++];
        }
    }
    return r;
}
void p31(pbt::Case &c) {
    auto &s = c.src;
    auto &log = c.sample;
    k::Context ctx;
    std::vector<M> ms;
    auto path = [&](int i, int from) {
        std::string r;
        for (; i != from && i >= 0; i = ms[i].up) r = ms[i].inst + (r.empty() ? "" : "." + r);
        return r;
    };
    auto below = [&](int i, int of) {
        for (; i >= 0; i = ms[i].up)
            if (i == of) return true;
        return false;
    };
    auto same = [&] {
        for (auto const &n : names()) {
            std::set<k::Generator *> got, want;
            for (auto const &g : ctx.get_generators_by_name(n)) got.insert(g.get());
            for (auto const &m : ms)
                if (m.in && m.name == n) want.insert(m.g.get());
            if (got != want) c.fail("by name", std::to_string(got.size()) + " modules with the name " + n + " instead of " + std::to_string(want.size()) + "\n" + log);
            if (!want.empty() && (!ctx.generator_name_exists(n) || !ctx.get_generator_names().count(n))) c.fail("name", n + " does not exist\n" + log);
            for (auto *g : want)
                if (ctx.is_unique(g) != (want.size() == 1)) c.fail("unique", n + "\n" + log);
        }
        for (size_t i = 0; i < ms.size(); i++) {
            auto &m = ms[i];
            if (m.g->name != m.name || m.g->instance_name != m.inst) c.fail("names", m.g->name + " " + m.g->instance_name + " instead of " + m.name + " " + m.inst + "\n" + log);
            if (m.g->parent_generator() != (m.up < 0 ? nullptr : ms[m.up].g.get())) c.fail("parent", "of " + m.inst + "\n" + log);
            std::vector<k::Generator *> got, want;
            for (auto const &x : m.g->get_child_generators()) got.push_back(x.get());
            for (auto x : m.down) want.push_back(ms[x].g.get());
            if (got != want || m.g->get_child_generator_size() != want.size()) c.fail("children", "of " + m.inst + " (" + m.name + ")\n" + log);
            for (auto x : m.down)
                if (m.g->get_child_generator(ms[x].inst) != ms[x].g.get() || !m.g->has_child_generator(ms[x].inst) || !m.g->has_child_generator(ms[x].g)) c.fail("child", ms[x].inst + " of " + m.inst + "\n" + log);
            for (auto const &n : names()) {
                bool is = false;
                for (auto x : m.down) is |= ms[x].inst == n;
                if (m.g->has_child_generator(n) != is || (!is && m.g->get_child_generator(n))) c.fail("child", n + " of " + m.inst + "\n" + log);
            }
            if (m.g->handle_name() != path(i, -1)) c.fail("path", m.g->handle_name() + " instead of " + path(i, -1) + "\n" + log);
            int root = i;
            while (ms[root].up >= 0) root = ms[root].up;
            if (m.g->handle_name(true) != path(i, root)) c.fail("path", m.g->handle_name(true) + " below the top instead of " + path(i, root) + "\n" + log);
        }
    };
    auto fresh = [&] {
        auto const &n = s.pick(names());
        M m;
        m.g = ctx.generator(n).shared_from_this();
        m.name = m.inst = n;
        for (int i = 0; i < 3; i++) m.vars.push_back(&m.g->var("v_" + std::string(1, "xyz"[i]), 4, i == 2 ? 16 : 1));
        log += "new " + n + " is " + std::to_string(ms.size()) + "\n";
        ms.push_back(m);
    };
    int moved = 0, renamed = 0;
    try {
        fresh();
        for (int n = 2 + s.draw(20); n > 0; n--) {
            size_t i = s.draw(ms.size()), j = s.draw(ms.size());
            auto &m = ms[i];
            switch (s.draw(9)) {
                case 0:
                case 1:
                    if (ms.size() < 9) fresh();
                    break;
                case 2:
                case 3:
                case 4: {
                    // as a child
                    if (m.up >= 0 || below(j, i)) break;
                    auto inst = s.flip() ? m.inst : s.pick(names());
                    bool taken = false;
                    for (auto x : ms[j].down) taken |= ms[x].inst == inst;
                    if (taken) break;
                    log += std::to_string(i) + " is " + inst + " in " + std::to_string(j) + "\n";
                    if (s.flip()) ms[j].g->add_child_generator(inst, m.g);
                    else ms[j].g->add_child_generator(inst, *m.g);
                    m.up = j, m.inst = inst;
                    ms[j].down.push_back(i);
                    moved++;
                    break;
                }
                case 5: {
                    if (!m.in) break;
                    auto const &x = s.pick(names());
                    log += std::to_string(i) + " has the name " + x + "\n";
                    ctx.change_generator_name(m.g.get(), x);
                    m.name = x;
                    renamed++;
                    break;
                }
                case 6: {
                    if (m.up < 0) break;
                    log += std::to_string(i) + " is removed from its parent\n";
                    auto &p = ms[m.up];
                    p.g->remove_child_generator(m.g);
                    p.down.erase(std::find(p.down.begin(), p.down.end(), (int)i));
                    m.up = -1;
                    moved++;
                    break;
                }
                case 7: {
                    // another name in its parent
                    auto const &x = s.pick(names());
                    if (m.up < 0 || m.inst == x || ms[m.up].g->has_child_generator(x)) break;
                    log += std::to_string(i) + " is " + x + " in its parent\n";
                    ms[m.up].g->rename_child_generator(m.g, x);
                    m.inst = x;
                    renamed++;
                    break;
                }
                default:
                    log += std::to_string(i) + (m.in ? " is not in the context" : " is in the context") + "\n";
                    if (m.in) ctx.remove(m.g.get());
                    else ctx.add(m.g.get());
                    m.in = !m.in;
            }
            same();
        }
        for (size_t root = 0; root < ms.size(); root++) {
            if (!s.flip()) continue;
            std::vector<std::vector<k::Generator *>> levels;
            std::set<k::Generator *> all;
            std::vector<int> level{(int)root};
            while (!level.empty()) {
                std::vector<int> next;
                levels.emplace_back();
                for (auto x : level) {
                    levels.back().push_back(ms[x].g.get());
                    all.insert(ms[x].g.get());
                    next.insert(next.end(), ms[x].down.begin(), ms[x].down.end());
                }
                std::sort(levels.back().begin(), levels.back().end());
                level = next;
            }
            k::GeneratorGraph g(ms[root].g.get());
            auto nodes = g.get_nodes();
            if (nodes.size() != all.size() || std::set<k::Generator *>(nodes.begin(), nodes.end()) != all) c.fail("nodes", "below " + std::to_string(root) + "\n" + log);
            auto sorted = g.get_sorted_nodes();
            if (sorted.size() != all.size() || std::set<k::Generator *>(sorted.begin(), sorted.end()) != all) c.fail("sorted", "below " + std::to_string(root) + "\n" + log);
            std::set<k::Generator *> seen;
            for (auto *x : sorted) {
                for (auto const &y : x->get_child_generators())
                    if (!seen.count(y.get())) c.fail("order", "a module before its child, below " + std::to_string(root) + "\n" + log);
                seen.insert(x);
            }
            auto got = g.get_leveled_nodes();
            for (auto &x : got) std::sort(x.begin(), x.end());
            if (got != levels) c.fail("levels", "below " + std::to_string(root) + "\n" + log);
        }
        // names of expressions
        for (int n = 1 + s.draw(4); n > 0; n--) {
            int i = s.draw(ms.size());
            auto &v = ms[i].vars;
            k::Var *e = v[s.draw(2)];
            for (int q = s.draw(4); q > 0 && !e->is_signed(); q--) {
                auto &o = *v[s.draw(2)];
                switch (s.draw(9)) {
                    case 0:
                        if (e->width() < 4 || e->is_signed()) break;
                        e = e->width() == 4 ? &(*e + o) : &(*e + o.extend(e->width()));
                        break;
                    case 1: e = &e->concat(o); break;
                    case 2: e = &(~*e); break;
                    case 3: e = &(*e)[std::pair<uint32_t, uint32_t>(0, 0)]; break;
                    case 4: e = k::util::mux(o.eq(k::constant((int64_t)s.draw(16), 4)), *e, *e).get(); break;
                    case 5: e = &(*v[2])[s.draw(16)]; break;
                    case 6: e = &e->duplicate(2); break;
                    case 7: e = e->cast(k::VarCastType::Signed).get(); break;
                    default: e = &(*v[2])[v[0]->shared_from_this()]; break;
                }
            }
            auto text = e->to_string();
            auto p = path(i, -1);
            auto got = e->handle_name();
            if (got != prefixed(text, p + ".")) c.fail("variable", text + " in " + p + " is " + got + "\n" + log);
            int root = i;
            while (ms[root].up >= 0) root = ms[root].up;
            got = e->handle_name(true);
            auto t = path(i, root);
            if (got != prefixed(text, t.empty() ? "" : t + ".")) c.fail("variable", text + " in " + p + " below the top is " + got + "\n" + log);
            int from = s.draw(ms.size());
            got.clear();
            bool refused = false;
            try {
                got = e->handle_name(ms[from].g.get());
            } catch (const k::VarException &) {
                refused = true;
            }
            if (!below(i, from)) {
                // the same path in another hierarchy cannot be told
                auto f = path(from, -1) + ".";
                if ((p + ".").compare(0, f.size(), f) != 0) {
                    if (!refused) c.fail("scope", text + " in " + p + " is " + got + " from " + path(from, -1) + "\n" + log);
                    c.label("not in scope");
                }
                continue;
            }
            if (refused) c.fail("scope", text + " in " + p + " cannot be used from " + path(from, -1) + "\n" + log);
            t = path(i, from);
            if (got != prefixed(text, t.empty() ? "" : t + ".")) c.fail("scope", text + " in " + p + " is " + got + " from " + path(from, -1) + "\n" + log);
            if (from != i && from != root) c.label("scope between");
        }
    } catch (const pbt::Failure &) {
        throw;
    } catch (const std::exception &e) {
        c.fail("exception", std::string(e.what()) + "\n" + log);
    }
    if (renamed) c.label("renamed");
    c.nontrivial = moved >= 2;
}
pbt::Reg r31({"P31", "at least two modules become children or are removed", p31, 300000, 5000000, {}, {}});
}  // namespace
