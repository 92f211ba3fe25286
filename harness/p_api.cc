// P23 building calls: what is legal is accepted, what is not is refused, and a refused call changes nothing
#include <algorithm>
#include <functional>

#include "context.hh"
#include "expr.hh"
#include "generator.hh"
#include "port.hh"
#include "rdl.hh"
#include "stmt.hh"
namespace k = kratos;

namespace {
struct MV {
    enum K { Var, In, Out, Enum, Struct } k = Var;
    uint32_t w = 1;
    std::vector<uint32_t> n{1};
    bool sgn = false, packed = true;
    k::PortType type = k::PortType::Data;
    bool port() const { return k == In || k == Out; }
    bool arr() const { return n.size() > 1 || n[0] > 1; }
    uint32_t width() const {
        uint32_t r = w;
        for (auto x : n) r *= x;
        return r;
    }
};
struct MF {
    std::map<std::string, std::pair<uint32_t, bool>> in;
    uint32_t ret = 0;
    bool ret_s = false;
};
struct MG {
    std::map<std::string, MV> v;
    std::map<std::string, std::pair<uint32_t, bool>> param;
    std::map<std::string, MF> f;
    std::map<std::string, std::vector<std::string>> en;
    std::map<std::string, int> kids;
    std::vector<int> order;  // as they were added
    int parent = -1;
    std::string inst;
};
// a readable or assignable thing: a variable, or a part of it
struct Ref {
    int g;
    std::string v;
    MV t;       // shape
    bool part = false, cst = false, cast = false, ex = false;
    k::Var *p = nullptr;
};
const char *kinds[] = {"var", "in", "out", "enum", "struct"};

bool fits(int64_t v, uint32_t w, bool sgn) {
    if (w > 64) return true;  // wider than what can be given
    if (sgn) return w == 64 || (v >= -(int64_t(1) << (w - 1)) && v < (int64_t(1) << (w - 1)));
    return w == 64 || (uint64_t)v >> w == 0;
}
uint32_t clog(uint32_t n) {
    uint32_t r = 0;
    while ((1u << r) < n) r++;
    return r ? r : 1;
}

struct T {
    pbt::Case &c;
    pbt::Src &s;
    k::Context ctx;
    std::vector<k::Generator *> g;
    std::vector<MG> m;
    std::vector<std::array<std::string, 5>> uses;  // statements: left generator, variable, right generator, variable, where
    std::vector<std::shared_ptr<void>> keep;
    std::shared_ptr<k::PackedStruct> st;
    std::string log;
    int refused = 0, ok = 0;
    explicit T(pbt::Case &c) : c(c), s(c.src) {}

    std::string name() {
        static const std::vector<std::string> ns = {"a", "b", "c", "d", "x", "y", "g1", "in_0", "in", "a_1"};
        static const std::vector<std::string> kw = {"logic", "input", "end", "case"};
        if (s.chance(1, 20)) return s.pick(kw);
        return s.pick(ns);
    }
    static bool keyword(const std::string &n) { return n == "logic" || n == "input" || n == "end" || n == "case"; }
    std::string snapshot() {
        std::string o;
        auto idx = [&](const k::IRNode *x) {
            for (size_t i = 0; i < g.size(); i++)
                if (x == g[i]) return std::to_string(i);
            return std::string(x ? "?" : "-");
        };
        auto shape = [](const k::Var &v) {
            std::string r = std::to_string((int)v.type()) + " w" + std::to_string(v.var_width()) + (v.is_signed() ? "s" : "") + (v.is_packed() ? "p" : "");
            for (auto n : v.size()) r += " " + std::to_string(n);
            return r;
        };
        auto str = [&](const k::AssignStmt &a) { return idx(a.left()->generator()) + "." + a.left()->to_string() + " <- " + idx(a.right()->generator()) + "." + a.right()->to_string(); };
        for (size_t i = 0; i < g.size(); i++) {
            auto &x = *g[i];
            o += "module " + std::to_string(i) + " " + x.name + " " + x.instance_name + " in " + idx(x.parent()) + "\n";
            for (auto const &n : x.get_all_var_names()) {
                auto v = x.get_var(n);
                o += "  " + n + " = " + v->name + " of " + idx(v->generator()) + " " + shape(*v);
                if (v->type() == k::VarType::PortIO) {
                    auto p = std::static_pointer_cast<k::Port>(v);
                    o += " port " + std::to_string((int)p->port_direction()) + " " + std::to_string((int)p->port_type()) + (p->active_high() ? *p->active_high() ? " high" : " low" : "");
                }
                std::multiset<std::string> q;
                for (auto const &a : v->sources()) q.insert("    source " + str(*a) + "\n");
                for (auto const &a : v->sinks()) q.insert("    sink " + str(*a) + "\n");
                o += "\n";
                for (auto const &z : q) o += z;
            }
            for (auto const &n : x.get_port_names()) o += "  port " + n + "\n";
            for (auto const &[n, p] : x.get_params()) o += "  parameter " + n + " " + shape(*p) + " " + std::to_string(p->value()) + "\n";
            for (auto const &[n, e] : x.get_enums()) {
                o += "  enum " + n + " " + std::to_string(e->width());
                for (auto const &[vn, v] : e->values) o += " " + vn + "=" + std::to_string(v->value());
                o += "\n";
            }
            for (auto const &[n, f] : x.functions()) {
                o += "  function " + n + " " + f->function_name();
                for (auto const &[pn, p] : f->ports()) o += " " + pn + ": " + shape(*p);
                if (f->function_handler()) o += " returns " + shape(*f->function_handler());
                o += "\n";
            }
            for (auto const &ch : x.get_child_generators()) o += "  child " + ch->instance_name + " is " + idx(ch.get()) + (x.get_child_generator(ch->instance_name) == ch.get() ? "" : "?") + "\n";
            for (auto const &q : x.get_all_stmts()) o += "  " + (q->type() == k::StatementType::Assign ? str(*std::static_pointer_cast<k::AssignStmt>(q)) : std::string("statement")) + "\n";
        }
        return o;
    }
    // the model says the same
    void compare() {
        auto bad = [&](const std::string &what) { c.fail("state", what + "\n" + log + snapshot()); };
        for (size_t i = 0; i < g.size(); i++) {
            auto &x = *g[i];
            std::set<std::string> names, ports;
            for (auto const &[n, v] : m[i].v) {
                names.insert(n);
                if (v.port()) ports.insert(n);
                auto p = x.get_var(n);
                if (!p) bad("no " + n + " in module " + std::to_string(i));
                if (p->name != n || p->generator() != &x || p->var_width() != v.w || p->size() != v.n || p->is_signed() != v.sgn || p->is_packed() != v.packed) bad(n + " of module " + std::to_string(i) + " is not what was built");
                if ((p->type() == k::VarType::PortIO) != v.port()) bad(n + " of module " + std::to_string(i) + " is " + (v.port() ? "no" : "a") + " port");
                auto q = x.get_port(n);
                if ((q != nullptr) != v.port() || (q && q.get() != p.get())) bad("get_port " + n + " of module " + std::to_string(i));
                if (q && (q->port_direction() != (v.k == MV::In ? k::PortDirection::In : k::PortDirection::Out) || q->port_type() != v.type)) bad("direction or type of " + n);
            }
            auto all = x.get_all_var_names();
            if (std::set<std::string>(all.begin(), all.end()) != names || all.size() != names.size()) bad("variables of module " + std::to_string(i));
            auto pn = x.get_port_names();
            if (std::set<std::string>(pn.begin(), pn.end()) != ports) bad("ports of module " + std::to_string(i));
            if (x.get_params().size() != m[i].param.size() || x.functions().size() != m[i].f.size() || x.get_enums().size() != m[i].en.size()) bad("parameters, functions or enums of module " + std::to_string(i));
            for (auto const &[n, f] : m[i].f) {
                if (!x.has_function(n)) bad("no function " + n);
                if (x.get_function(n)->ports().size() != f.in.size()) bad("arguments of " + n);
            }
            if (x.get_child_generator_size() != m[i].kids.size()) bad("children of module " + std::to_string(i));
            std::vector<int> order;
            for (auto const &ch : x.get_child_generators())
                for (size_t q = 0; q < g.size(); q++)
                    if (g[q] == ch.get()) order.push_back(q);
            if (order != m[i].order) bad("the order of children of module " + std::to_string(i));
            for (auto const &[n, q] : m[i].kids)
                if (x.get_child_generator(n) != g[q] || g[q]->instance_name != n || g[q]->parent() != &x) bad("child " + n + " of module " + std::to_string(i));
            size_t ns = 0;
            std::map<std::string, std::pair<size_t, size_t>> conn;
            for (auto const &u : uses) {
                ns += u[4] == std::to_string(i);
                if (u[0] == std::to_string(i)) conn[u[1]].first++;
                if (u[2] == std::to_string(i)) conn[u[3]].second++;
            }
            if (ns != x.get_all_stmts().size()) bad("statements of module " + std::to_string(i));
            for (auto const &[n, v] : m[i].v) {
                auto p = x.get_var(n);
                if (conn[n] != std::make_pair(p->sources().size(), p->sinks().size())) bad("connections of " + n + " in module " + std::to_string(i));
            }
            if (m[i].parent < 0 && x.parent()) bad("module " + std::to_string(i) + " has a parent");
        }
    }
    // runs a call that has to be refused or not
    bool call(const std::string &what, bool legal, const std::function<void()> &f) {
        log += what + (legal ? "" : " (to be refused)") + "\n";
        auto before = legal ? std::string() : snapshot();
        auto op = what.substr(0, what.find('('));
        std::string err;
        bool threw = false;
        try {
            f();
        } catch (const std::exception &e) {
            threw = true, err = e.what();
        }
        if (threw && legal) c.fail("refused " + op, what + " is refused: " + err + "\n" + log + snapshot());
        if (!threw && !legal) c.fail("accepted " + op, what + " is accepted\n" + log + snapshot());
        if (threw) {
            auto after = snapshot();
            if (after != before) c.fail("changed " + op, what + " is refused, and leaves\n" + after + "instead of\n" + before + log);
            refused++;
        } else {
            ok++;
        }
        return !threw;
    }
    std::string mod(int i) { return "m" + std::to_string(i); }
    std::string dims(const MV &v) {
        std::string r = std::to_string(v.w) + (v.sgn ? " signed" : "");
        if (v.arr() || v.n.size() > 1)
            for (auto n : v.n) r += " x" + std::to_string(n);
        return r + (v.packed ? "" : " unpacked");
    }
    uint32_t width() {
        static const std::vector<uint32_t> ws = {1, 1, 2, 4, 4, 8, 3};
        return s.pick(ws);
    }
    MV shape(bool arrays = true) {
        MV v;
        v.w = width();
        if (s.chance(1, 5)) v.sgn = true;
        if (arrays && s.chance(1, 4)) {
            v.n[0] = 2 + s.draw(3);
            if (s.chance(1, 4)) v.n.push_back(2);
        }
        return v;
    }
    bool used(int gi, const std::string &v) {
        for (auto const &u : uses)
            if ((u[0] == std::to_string(gi) && u[1] == v) || (u[2] == std::to_string(gi) && u[3] == v)) return true;
        return false;
    }
    // something to read or to assign
    bool pick(Ref &r, int gi) {
        if (m[gi].v.empty()) return false;
        std::vector<std::string> ns;
        for (auto const &[n, v] : m[gi].v)
            if (v.k <= MV::Out) ns.push_back(n);
        if (ns.empty()) return false;
        r = Ref();
        r.g = gi, r.v = s.pick(ns);
        read.insert({gi, r.v});
        r.t = m[gi].v[r.v];
        r.p = g[gi]->get_var(r.v).get();
        if (s.chance(1, 4)) {
            // a legal part
            auto t = r.t;
            uint32_t bound = t.arr() ? t.n[0] : t.w;
            uint32_t lo = s.draw(bound), hi = lo + (s.flip() ? 0 : s.draw(bound - lo));
            log += "  part [" + std::to_string(hi) + ":" + std::to_string(lo) + "] of " + r.v + "\n";
            r.p = &(*r.p)[std::make_pair(hi, lo)];
            r.part = true;
            r.t.sgn = false;
            r.t.type = k::PortType::Data;
            r.t.k = MV::Var;
            if (t.arr()) {
                if (hi == lo) {
                    if (t.n.size() > 1) r.t.n.erase(r.t.n.begin());
                    else r.t.n = {1}, r.t.packed = true;
                } else {
                    r.t.n[0] = hi - lo + 1;
                }
            } else {
                r.t.w = hi - lo + 1;
            }
            r.t.sgn = r.p->is_signed();
        }
        return true;
    }
    std::string show(const Ref &r) { return mod(r.g) + "." + r.p->to_string(); }

    void declare(int i) {
        auto n = name();
        auto &M = m[i];
        auto *G = g[i];
        bool has = M.v.count(n), kw = keyword(n);
        auto v = shape();
        switch (s.draw(9)) {
            case 0:
            case 1: {
                if (s.chance(1, 30)) v.w = 0;
                if (has && s.flip()) {  // the same again
                    auto const &o = M.v[n];
                    v.w = o.w, v.n = o.n, v.sgn = o.sgn;
                }
                bool same = has && M.v[n].w == v.w && M.v[n].n == v.n && M.v[n].sgn == v.sgn;
                auto old = has ? G->get_var(n) : nullptr;
                k::Var *got = nullptr;
                if (call("var(" + mod(i) + ", " + n + ", " + dims(v) + ")", has ? same : !kw && v.w, [&]() { got = &G->var(n, v.w, v.n, v.sgn); })) {
                    if (has) {
                        c.check(got == old.get(), "again", "a variable is there twice\n" + log);
                    } else {
                        M.v[n] = v;
                        if (v.arr() && s.chance(1, 4)) {
                            got->set_is_packed(false);
                            M.v[n].packed = false;
                            log += "  unpacked\n";
                        }
                    }
                }
                break;
            }
            case 2:
            case 3:
            case 4: {
                v.k = s.flip() ? MV::In : MV::Out;
                static const k::PortType types[] = {k::PortType::Clock, k::PortType::AsyncReset, k::PortType::Reset, k::PortType::ClockEnable};
                if (s.chance(1, 4)) {
                    v.type = types[s.draw(4)], v.n = {1}, v.sgn = false;
                    if (s.flip()) v.w = 1;
                }
                bool legal = !has && !kw && (v.type == k::PortType::Data || v.w == 1);
                k::Port *p = nullptr;
                if (call("port(" + mod(i) + ", " + kinds[v.k] + " " + n + ", " + dims(v) + ", type " + std::to_string((int)v.type) + ")", legal,
                         [&]() { p = &G->port(v.k == MV::In ? k::PortDirection::In : k::PortDirection::Out, n, v.w, v.n, v.type, v.sgn); })) {
                    M.v[n] = v;
                    if (v.arr() && s.chance(1, 4)) p->set_is_packed(false), M.v[n].packed = false, log += "  unpacked\n";
                }
                break;
            }
            case 5: {
                if (M.en.empty()) break;
                auto it = M.en.begin();
                std::advance(it, s.draw(M.en.size()));
                auto e = G->get_enums().at(it->first);
                if (call("enum_var(" + mod(i) + ", " + n + ")", !has && !kw, [&]() { G->enum_var(n, e); })) {
                    MV z;
                    z.k = MV::Enum, z.w = e->width();
                    M.v[n] = z;
                }
                break;
            }
            case 6: {
                bool port = s.flip();
                auto dir = s.flip() ? k::PortDirection::In : k::PortDirection::Out;
                if (call(std::string(port ? "port_packed(" : "var_packed(") + mod(i) + ", " + n + ")", !has && !kw, [&]() {
                        if (port) G->port_packed(dir, n, st);
                        else G->var_packed(n, st);
                    })) {
                    MV z;
                    z.k = port ? dir == k::PortDirection::In ? MV::In : MV::Out : MV::Struct;
                    z.w = 6;
                    if (port) keep_ports.insert({i, n});
                    M.v[n] = z;
                }
                break;
            }
            case 7: {
                if (s.chance(1, 4)) {
                    // a variable like another
                    int o = s.draw(g.size());
                    std::vector<std::string> vs;
                    for (auto const &[vn, q] : m[o].v)
                        if (q.k <= MV::Out && q.type == k::PortType::Data && !keep_ports.count({o, vn})) vs.push_back(vn);
                    if (vs.empty() || has) break;
                    auto vn = s.pick(vs);
                    auto x = g[o]->get_var(vn);
                    if (call("var(" + mod(i) + ", " + n + " like " + mod(o) + "." + vn + ")", !kw, [&]() { G->var(*x, n); })) M.v[n] = m[o].v[vn], M.v[n].k = MV::Var;
                    break;
                }
                // a port like the one of another module
                int o = s.draw(g.size());
                std::vector<std::string> ps;
                for (auto const &[pn, q] : m[o].v)
                    if (q.port() && !keep_ports.count({o, pn})) ps.push_back(pn);
                if (ps.empty()) break;
                auto pn = s.pick(ps);
                if (s.flip()) n = pn, has = M.v.count(n);
                auto &p = *g[o]->get_port(pn);
                if (call("port(" + mod(i) + ", " + n + " like " + mod(o) + "." + pn + ")", !has && !keyword(n), [&]() { G->port(p, n); })) M.v[n] = m[o].v[pn];
                break;
            }
            default: {
                bool is = M.param.count(n);
                if (v.w == 1) v.sgn = false;  // its first value is 1
                if (call("parameter(" + mod(i) + ", " + n + ", " + std::to_string(v.w) + (v.sgn ? " signed" : "") + ")", !is && !kw, [&]() { G->parameter(n, v.w, v.sgn); })) M.param[n] = {v.w, v.sgn};
            }
        }
    }
    std::set<std::pair<int, std::string>> read;  // in expressions
    std::set<std::pair<int, std::string>> keep_ports;  // of structs: not used further

    void remove(int i) {
        auto &M = m[i];
        std::vector<std::string> ns;
        for (auto const &[n, v] : M.v) ns.push_back(n);
        auto n = !ns.empty() && !s.chance(1, 5) ? s.pick(ns) : name();
        bool has = M.v.count(n);
        if (s.flip()) {
            if (has && !used(i, n) && read.count({i, n})) return;  // an expression may use it
            if (has && M.v[n].port() && s.flip()) {
                if (call("remove_port(" + mod(i) + ", " + n + ")", !used(i, n), [&]() { g[i]->remove_port(n); })) M.v.erase(n), keep_ports.erase({i, n});
                return;
            }
            if (call("remove_var(" + mod(i) + ", " + n + ")", has && !used(i, n), [&]() { g[i]->remove_var(n); })) M.v.erase(n), keep_ports.erase({i, n});
        } else {
            if (!has || used(i, n)) return;  // a name that is not there is left alone
            auto to = name();
            if (to == n) return;
            auto p = g[i]->get_var(n);
            if (call("rename_var(" + mod(i) + ", " + n + ", " + to + ")", !M.v.count(to) && !keyword(to), [&]() { g[i]->rename_var(n, to); })) {
                M.v[to] = M.v[n];
                M.v.erase(n);
                if (keep_ports.erase({i, n})) keep_ports.insert({i, to});
                if (read.erase({i, n})) read.insert({i, to});
                c.check(g[i]->get_var(to) == p, "renamed", "another variable\n" + log);
            }
        }
    }
    void functions(int i) {
        auto &M = m[i];
        auto *G = g[i];
        auto n = name();
        switch (M.f.empty() ? 0 : s.draw(4)) {
            case 0:
                if (call("function(" + mod(i) + ", " + n + ")", !M.f.count(n) && !keyword(n), [&]() {
                        if (s.flip()) G->function(n);
                        else G->task(n);
                    })) {
                    M.f[n] = MF();
                }
                break;
            case 1: {
                auto &[fn, f] = pick_f(M);
                auto v = shape(false);
                if (call("input(" + mod(i) + "." + fn + ", " + n + ", " + dims(v) + ")", !f->in.count(n) && !keyword(n), [&]() { G->get_function(fn)->input(n, v.w, v.sgn); })) f->in[n] = {v.w, v.sgn};
                break;
            }
            case 2: {
                auto &[fn, f] = pick_f(M);
                auto v = shape(false);
                if (call("create_function_handler(" + mod(i) + "." + fn + ", " + dims(v) + ")", !f->ret, [&]() { G->get_function(fn)->create_function_handler(v.w, v.sgn); })) f->ret = v.w, f->ret_s = v.sgn;
                break;
            }
            default: {
                auto &[fn, f] = pick_f(M);
                std::map<std::string, std::shared_ptr<k::Var>> args;
                bool legal = true;
                std::string what;
                for (auto const &[a, t] : f->in) {
                    if (s.chance(1, 10)) {
                        legal = false;
                        continue;
                    }
                    auto w = s.chance(1, 10) ? t.first + 1 : t.first;
                    auto sg = s.chance(1, 10) ? !t.second : t.second;
                    legal = legal && w == t.first && sg == t.second;
                    auto &v = k::constant(0, w, sg);
                    args[a] = v.shared_from_this();
                    what += " " + a + ":" + std::to_string(w) + (sg ? "s" : "");
                }
                if (s.chance(1, 10)) {
                    args["extra"] = k::constant(0, 1).shared_from_this();
                    legal = false;
                    what += " extra";
                }
                bool task = G->get_function(fn)->is_task();
                bool ret = s.flip();
                if (ret && !f->ret && !task) legal = false;
                if (!G->has_function("nothing") && s.chance(1, 10)) call("call(" + mod(i) + ", nothing)", false, [&]() { G->call("nothing", args, false); });
                k::Var *r = nullptr;
                if (call("call(" + mod(i) + "." + fn + what + (ret ? " returns" : "") + ")", legal, [&]() { r = &G->call(fn, args, ret); })) {
                    if (ret && f->ret) c.check(r->width() == f->ret && r->is_signed() == f->ret_s, "call", "shape of the result\n" + log);
                }
            }
        }
    }
    std::pair<std::string, MF *> tmp_f;
    std::pair<std::string, MF *> &pick_f(MG &M) {
        auto it = M.f.begin();
        std::advance(it, s.draw(M.f.size()));
        tmp_f = {it->first, &it->second};
        return tmp_f;
    }
    void enums(int i) {
        auto &M = m[i];
        auto n = name();
        uint32_t w = 1 + s.draw(3);
        std::map<std::string, uint64_t> v;
        static const std::vector<std::string> vn = {"A", "B", "C", "D", "E"};
        bool legal = !M.en.count(n) && !keyword(n);
        for (int q = 1 + s.draw(3); q > 0; q--) {
            auto x = s.chance(1, 30) ? std::string("logic") : s.pick(vn);
            v[x] = s.draw(s.chance(1, 8) ? 20 : 1u << w);
        }
        std::vector<std::string> list;
        std::string what;
        for (auto const &[x, y] : v) {
            what += " " + x + "=" + std::to_string(y);
            list.push_back(x);
            if (keyword(x) || y >> w) legal = false;
            for (auto const &[e, l] : M.en)
                if (std::find(l.begin(), l.end(), x) != l.end()) legal = false;
        }
        if (call("enum_(" + mod(i) + ", " + n + ", " + std::to_string(w) + what + ")", legal, [&]() { g[i]->enum_(n, v, w); })) M.en[n] = list;
    }
    void children(int i) {
        auto &M = m[i];
        auto n = name();
        std::vector<int> free;
        for (size_t q = i + 1; q < g.size(); q++)
            if (m[q].parent < 0) free.push_back(q);
        std::vector<std::pair<std::string, int>> kids(M.kids.begin(), M.kids.end());
        switch (s.draw(5)) {
            case 0:
            case 1: {
                if (free.empty()) break;
                int q = s.pick(free);
                if (call("add_child_generator(" + mod(i) + ", " + n + ", " + mod(q) + ")", !M.kids.count(n) && !keyword(n), [&]() { g[i]->add_child_generator(n, g[q]->shared_from_this()); })) M.kids[n] = q, M.order.push_back(q), m[q].parent = i, m[q].inst = n;
                break;
            }
            case 2: {
                // also one that is not a child
                int q = kids.empty() || s.chance(1, 4) ? (int)s.draw(g.size()) : s.pick(kids).second;
                bool mine = m[q].parent == i;
                if (mine && m[q].inst == n) break;
                if (call("rename_child_generator(" + mod(i) + ", " + mod(q) + ", " + n + ")", mine && !M.kids.count(n) && !keyword(n), [&]() { g[i]->rename_child_generator(g[q]->shared_from_this(), n); })) {
                    M.kids.erase(m[q].inst);
                    M.kids[n] = q, m[q].inst = n;
                }
                break;
            }
            case 3: {
                if (kids.empty()) break;
                auto [kn, q] = s.pick(kids);
                // the connections go
                std::vector<std::array<std::string, 5>> left;
                for (auto const &u : uses) {
                    bool l = u[0] == std::to_string(q), r = u[2] == std::to_string(q);
                    if ((l || r) && u[4] != std::to_string(i) && u[4] != std::to_string(q)) return;
                    if (u[4] == std::to_string(i) && ((l && r) || (l && m[q].v[u[1]].k != MV::In) || (r && m[q].v[u[3]].k != MV::Out))) return;
                    if ((!l && !r) || u[4] != std::to_string(i)) left.push_back(u);
                }
                if (call("remove_child_generator(" + mod(i) + ", " + kn + ")", true, [&]() { g[i]->remove_child_generator(g[q]->shared_from_this()); })) M.kids.erase(kn), M.order.erase(std::find(M.order.begin(), M.order.end(), q)), m[q].parent = -1, uses = left;
                break;
            }
            default: {
                // another one in its place
                if (free.empty()) break;
                int q = s.pick(free);
                auto kn = kids.empty() || s.chance(1, 8) ? n : s.pick(kids).first;
                bool legal = M.kids.count(kn);
                if (legal) {
                    int o = M.kids[kn];
                    for (auto const &u : uses)  // only the connections can move
                        if (u[0] == std::to_string(q) || u[2] == std::to_string(q)) return;
                    // make them alike
                    if (s.flip()) {
                        for (auto const &[pn, p] : m[o].v)
                            if (p.port() && !m[q].v.count(pn) && !keep_ports.count({o, pn})) g[q]->port(*g[o]->get_port(pn), false), m[q].v[pn] = p, log += "  " + mod(q) + " gets port " + pn + "\n";
                    }
                    std::map<std::string, MV> a, b;
                    for (auto const &[pn, p] : m[o].v)
                        if (p.port()) a[pn] = p;
                    for (auto const &[pn, p] : m[q].v)
                        if (p.port()) b[pn] = p;
                    legal = a.size() == b.size();
                    for (auto const &[pn, p] : a) {
                        if (!b.count(pn)) {
                            legal = false;
                            continue;
                        }
                        auto const &z = b[pn];
                        legal = legal && z.n == p.n && z.w == p.w && z.sgn == p.sgn && z.type == p.type && z.k == p.k;
                        // whether different packing matters is not said
                        if (z.packed != p.packed || keep_ports.count({o, pn}) != keep_ports.count({q, pn})) return;
                    }
                    // what the module uses within itself stays
                    for (auto const &u : uses) {
                        bool l = u[0] == std::to_string(o), r = u[2] == std::to_string(o);
                        if (!l && !r) continue;
                        if (u[4] == std::to_string(o)) continue;
                        if (u[4] != std::to_string(i)) return;
                        if ((l && r) || (l && u[2] == "-") || (l && m[o].v[u[1]].k != MV::In) || (r && m[o].v[u[3]].k != MV::Out)) return;
                    }
                }
                if (call("replace(" + mod(i) + ", " + kn + ", " + mod(q) + ")", legal, [&]() { g[i]->replace(kn, g[q]->shared_from_this()); })) {
                    int o = M.kids[kn];
                    M.kids[kn] = q, m[q].parent = i, m[q].inst = kn, m[o].parent = -1;
                    // the replacement is the last one
                    M.order.erase(std::find(M.order.begin(), M.order.end(), o)), M.order.push_back(q);
                    for (auto &u : uses)
                        for (int z : {0, 2})
                            if (u[z] == std::to_string(o) && u[4] == std::to_string(i)) u[z] = std::to_string(q);
                }
            }
        }
    }
    // whether r can be assigned to l
    bool assignable(const Ref &l, const Ref &r) {
        if (l.cst || l.ex) return false;
        if (l.t.sgn != r.t.sgn || l.t.width() != r.t.width()) return false;
        if ((l.t.arr() || r.t.arr()) && l.t.packed != r.t.packed) return false;
        if (!l.part && l.t.port() && l.t.type != k::PortType::Data) {
            bool plain = !r.part && !r.ex && !r.cast && r.t.port();
            if (!plain && !r.cst && !(r.cast && r.t.type == l.t.type)) return false;
        }
        return true;
    }
    void statement(int i) {
        Ref l, r;
        auto &M = m[i];
        // wiring, mostly of ports of instances
        std::vector<int> near{i};
        for (auto const &[n, q] : M.kids) near.push_back(q);
        if (s.chance(1, 12)) near.push_back(s.draw(g.size()));
        int a = s.pick(near), b = s.pick(near);
        if (s.chance(1, 2)) {
            auto port = [&](int q, std::string &n) {
                std::vector<std::string> ps;
                for (auto const &[pn, p] : m[q].v)
                    if (p.port() && !keep_ports.count({q, pn})) ps.push_back(pn);
                if (ps.empty()) return false;
                n = s.pick(ps);
                return true;
            };
            std::string pa, pb;
            if (!port(a, pa) || !port(b, pb) || (a == b && pa == pb)) return;
            auto const &A = m[a].v[pa], &B = m[b].v[pb];
            bool legal = true, a_left = false;
            bool ka = m[a].parent == i, kb = m[b].parent == i;
            if (a == i && b == i) legal = A.k != B.k, a_left = A.k == MV::Out;
            else if (a == i && kb) legal = A.k == B.k, a_left = A.k == MV::Out;
            else if (b == i && ka) legal = A.k == B.k, a_left = A.k == MV::In;
            else if (ka && kb) legal = A.k != B.k, a_left = A.k == MV::In;
            else legal = false;
            if (legal) {
                Ref x, y;
                x.g = a, x.t = A, y.g = b, y.t = B;
                legal = a_left ? assignable(x, y) : assignable(y, x);
            }
            auto p = g[a]->get_port(pa), q = g[b]->get_port(pb);
            if (call("wire_ports(" + mod(i) + ", " + mod(a) + "." + pa + ", " + mod(b) + "." + pb + ")", legal, [&]() { g[i]->wire_ports(p, q); })) {
                auto la = std::array<std::string, 5>{std::to_string(a_left ? a : b), a_left ? pa : pb, std::to_string(a_left ? b : a), a_left ? pb : pa, std::to_string(i)};
                uses.push_back(la);
                auto const &st = g[i]->get_all_stmts();
                auto last = std::static_pointer_cast<k::AssignStmt>(st.back());
                c.check(last->left() == (a_left ? p.get() : q.get()) && last->right() == (a_left ? q.get() : p.get()), "wired", "in the wrong direction\n" + log);
            }
            return;
        }
        if (!pick(l, a) || !pick(r, b)) return;
        if (keep_ports.count({l.g, l.v}) || keep_ports.count({r.g, r.v})) return;
        if (l.p == r.p) return;
        if (s.chance(1, 8)) {
            // a constant takes the width when it fits
            auto v = (int64_t)s.draw(16) - 4;
            uint32_t w = 5;
            r = Ref();
            r.cst = true, r.g = -1;
            r.t.sgn = s.flip();
            if (!r.t.sgn && v < 0) v = -v;
            r.p = &k::constant(v, w, r.t.sgn);
            r.t.w = fits(v, l.t.width(), l.t.sgn) && l.t.sgn == r.t.sgn ? l.t.width() : w;
            r.t.packed = true;
        } else if (s.chance(1, 8) && r.t.width() == 1) {
            bool clk = s.flip();
            r.p = r.p->cast(clk ? k::VarCastType::Clock : k::VarCastType::AsyncReset).get();
            r.cast = true, r.t.type = clk ? k::PortType::Clock : k::PortType::AsyncReset, r.t.sgn = false, r.t.k = MV::Var;
        } else if (s.chance(1, 10)) {
            r.p = &~*r.p;
            r.ex = true, r.t.type = k::PortType::Data, r.t.k = MV::Var;
            r.t.packed = r.p->is_packed();
        }
        if (s.chance(1, 12) && !r.cst && !r.cast) std::swap(l, r);
        bool add = s.flip();
        auto *G = g[i];
        if (call(std::string(add ? "add " : "") + "assign(" + (l.cst ? "constant" : show(l)) + " <- " + (r.cst ? r.p->to_string() : show(r)) + ")", assignable(l, r), [&]() {
                auto q = l.p->assign(r.p->shared_from_this());
                if (add) G->add_stmt(q);
                else keep.push_back(q);
            }))
            if (add) uses.push_back({std::to_string(l.g), l.v, r.cst ? "-" : std::to_string(r.g), r.v, std::to_string(i)});
    }
    void expression(int i) {
        Ref l, r, x;
        if (!pick(l, i) || !pick(r, i)) return;
        auto in = [&](const Ref &q) { return mod(q.g) + "." + q.p->to_string(); };
        switch (s.draw(8)) {
            case 0: {  // parts
                uint32_t bound = l.t.arr() ? l.t.n[0] : l.t.w;
                uint32_t hi = s.draw(bound + 3), lo = s.draw(bound + 1);
                k::Var *v = nullptr;
                if (call("slice(" + in(l) + ", " + std::to_string(hi) + ", " + std::to_string(lo) + ")", lo <= hi && hi < bound, [&]() { v = &(*l.p)[std::make_pair(hi, lo)]; })) {
                    auto want = l.t.arr() ? l.t.width() / l.t.n[0] * (hi - lo + 1) : hi - lo + 1;
                    c.check(v->width() == want, "slice", "width " + std::to_string(v->width()) + "\n" + log);
                }
                break;
            }
            case 1: {  // an element or a bit, by a variable
                uint32_t bound = l.t.arr() ? l.t.n[0] : l.t.w;
                if (r.t.arr()) break;
                k::Var *v = nullptr;
                if (call("slice(" + in(l) + ", " + in(r) + ")", r.t.width() <= clog(bound), [&]() { v = &(*l.p)[r.p->shared_from_this()]; })) {
                    auto want = l.t.arr() ? l.t.width() / l.t.n[0] : 1;
                    c.check(v->width() == want, "slice", "width " + std::to_string(v->width()) + "\n" + log);
                }
                break;
            }
            case 2: {
                static const char *on[] = {"+", "&", "==", "<", "-", "^"};
                int op = s.draw(6);
                for (auto q : {&l, &r})
                    if (s.chance(1, 5)) q->p = s.flip() ? &~*q->p : &(*q->p + *q->p), q->ex = true;
                // the narrower one is made wider
                auto w = std::max(l.t.width(), r.t.width());
                if (l.t.width() != r.t.width() && (l.t.arr() || r.t.arr() || !l.t.packed || !r.t.packed)) break;
                bool legal = !(l.t.arr() && l.t.packed != r.t.packed);
                k::Var *v = nullptr;
                if (call(std::string("expr(") + in(l) + " " + on[op] + " " + in(r) + ")", legal, [&]() {
                        auto &a = *l.p, &b = *r.p;
                        v = op == 0 ? &(a + b) : op == 1 ? &(a & b) : op == 2 ? (k::Var *)&a.eq(b) : op == 3 ? &(a < b) : op == 4 ? &(a - b) : &(a ^ b);
                    })) {
                    bool rel = op == 2 || op == 3;
                    c.check(v->width() == (rel ? 1 : w) && (l.t.width() != r.t.width() || v->is_signed() == (!rel && l.t.sgn && r.t.sgn)), "expression", "shape\n" + log);
                }
                break;
            }
            case 3: {
                k::Var *v = nullptr;
                if (l.t.arr() || r.t.arr()) break;
                if (call("concat(" + in(l) + ", " + in(r) + ")", l.t.sgn == r.t.sgn, [&]() { v = &l.p->concat(*r.p); })) c.check(v->width() == l.t.width() + r.t.width(), "concat", "width\n" + log);
                break;
            }
            case 4: {
                uint32_t w = l.t.width() + s.draw(6);
                w = w > 2 ? w - s.draw(3) : w;
                k::Var *v = nullptr;
                if (call("extend(" + in(l) + ", " + std::to_string(w) + ")", w >= l.t.width() && !l.t.arr(), [&]() { v = &l.p->extend(w); })) c.check(v->width() == w && v->is_signed() == l.t.sgn, "extend", "shape\n" + log);
                break;
            }
            case 5: {
                if (!pick(x, i)) break;
                if (l.t.width() != r.t.width() && (l.t.arr() || r.t.arr() || !l.t.packed || !r.t.packed)) break;
                bool legal = x.t.width() == 1 && !(l.t.arr() && l.t.packed != r.t.packed);
                call("conditional(" + in(x) + ", " + in(l) + ", " + in(r) + ")", legal, [&]() { keep.push_back(std::make_shared<k::ConditionalExpr>(x.p->shared_from_this(), l.p->shared_from_this(), r.p->shared_from_this())); });
                break;
            }
            case 6: {
                bool clk = s.flip();
                call(std::string("cast(") + in(l) + (clk ? ", clock)" : ", reset)"), l.t.width() == 1 && !l.t.arr(), [&]() { l.p->cast(clk ? k::VarCastType::Clock : k::VarCastType::AsyncReset); });
                break;
            }
            default: {
                // ports only
                auto p = l.part || keep_ports.count({l.g, l.v}) ? nullptr : g[i]->get_port(l.v);
                if (!p) break;
                if (s.flip()) {
                    call("set_active_high(" + in(l) + ")", l.t.width() == 1, [&]() { p->set_active_high(s.flip()); });
                } else {
                    static const k::PortType types[] = {k::PortType::Clock, k::PortType::AsyncReset, k::PortType::Reset, k::PortType::ClockEnable, k::PortType::Data};
                    auto t = types[s.draw(5)];
                    if (used(i, l.v)) break;
                    if (call("set_port_type(" + in(l) + ", " + std::to_string((int)t) + ")", t == k::PortType::Data || l.t.width() == 1, [&]() { p->set_port_type(t); })) m[i].v[l.v].type = t;
                }
            }
        }
    }
    void constants(int i) {
        static const std::vector<uint32_t> ws = {1, 2, 7, 8, 31, 32, 33, 63, 64, 65, 80, 128};
        uint32_t w = s.chance(1, 40) ? 0 : s.pick(ws);
        bool sg = s.flip();
        int64_t v = 0;
        auto value = [&](uint32_t w) -> int64_t {
            uint32_t b = w && w <= 64 ? w : 64;
            uint64_t top = b == 64 ? ~0ull : (1ull << b) - 1, half = top / 2 + 1;
            switch (s.draw(6)) {
                case 0: return (int64_t)(top + s.draw(3) - 1);
                case 1: return (int64_t)(half + s.draw(3) - 1);
                case 2: return -(int64_t)(half + s.draw(3) - 1);
                case 3: return -(int64_t)s.draw(5);
                case 4: return (int64_t)s.draw(9);
                default: return (int64_t)s.bits(64);
            }
        };
        v = value(w);
        k::Const *p = nullptr;
        auto what = std::to_string(v) + ", " + std::to_string(w) + (sg ? " signed" : "");
        if (s.chance(1, 3) && !m[i].param.empty()) {
            auto it = m[i].param.begin();
            std::advance(it, s.draw(m[i].param.size()));
            auto [pw, ps] = it->second;
            v = value(pw);
            auto q = g[i]->get_params().at(it->first);
            if (call("set_value(" + mod(i) + "." + it->first + ", " + std::to_string(v) + ")", fits(v, pw, ps), [&]() { q->set_value(v); })) c.check(q->value() == v, "parameter", "value\n" + log);
            return;
        }
        if (!call("constant(" + what + ")", w && fits(v, w, sg), [&]() { p = &k::constant(v, w, sg); })) return;
        c.check(p->value() == v && p->width() == w && p->is_signed() == sg, "constant", "shape\n" + log);
        if (s.flip()) {
            auto z = value(w);
            bool was = call("set_value(" + what + " to " + std::to_string(z) + ")", fits(z, w, sg), [&]() { p->set_value(z); });
            if (was) v = z;
            c.check(p->value() == v, "constant", "value\n" + log);
        } else {
            auto z = s.pick(ws);
            bool was = call("set_width(" + what + " to " + std::to_string(z) + ")", fits(v, z, sg), [&]() { p->set_width(z); });
            c.check(p->width() == (was ? z : w), "constant", "width\n" + log);
        }
    }
    void run() {
        st = std::make_shared<k::PackedStruct>("pair", std::vector<std::tuple<std::string, uint32_t, bool>>{{"lo", 2, false}, {"hi", 4, false}});
        int n = 2 + s.draw(3);
        // names that are those of instances as well
        for (int i = 0; i < n; i++) g.push_back(&ctx.generator(s.chance(1, 3) && i ? "x" : "g" + std::to_string(i))), m.emplace_back();
        int steps = 5 + s.draw(30);
        for (int q = 0; q < steps; q++) {
            int i = s.draw(n);
            switch (s.draw(12)) {
                case 0:
                case 1:
                case 2:
                case 3: declare(i); break;
                case 4: remove(i); break;
                case 5: functions(i); break;
                case 6: enums(i); break;
                case 7:
                case 8: children(i); break;
                case 9: statement(i); break;
                case 10: expression(i); break;
                default: s.chance(1, 3) ? constants(i) : statement(i);
            }
            compare();
        }
        // names that are made are not in use
        for (int i = 0; i < n; i++) {
            auto pre = s.flip() ? std::string() : name();
            auto nm = g[i]->get_unique_variable_name(pre, name());
            c.check(!m[i].v.count(nm), "unique", nm + " is in use\n" + log);
        }
    }
};
void p23(pbt::Case &c) {
    T t(c);
    t.run();
    c.sample = t.log;
    c.nontrivial = t.ok >= 4 && t.refused >= 2;
}
pbt::Reg r23({"P23", "at least four calls are legal and two are not", p23, 500000, 8000000, {}, {}});
}  // namespace
