// P13 state machines: the emitted text against a reference interpreter of the description
#include <functional>

#include "expr.hh"
#include "fsm.hh"
#include "generator.hh"
#include "pass.hh"
#include "rdl.hh"
#include "stmt.hh"
#include "sv.hh"
using namespace rdl;
namespace k = kratos;

namespace {
// a value: a constant, a variable, or something small made of variables
struct X {
    enum K { Const, Var, EqC, LtC, Bit, And, Or, Not, Add } k = Const;
    uint64_t c = 0;
    uint32_t w = 1;
    int v = 0;
    std::shared_ptr<X> a, b;
};
using XP = std::shared_ptr<X>;
struct V {
    std::string name;
    uint32_t w;
    enum K { In, Reg, Out } k;
};
struct St {
    std::string name;
    std::vector<std::pair<int, std::pair<int, int>>> next;  // condition (-1: none), machine and state
    // per output of the machine: 0 given, 1 unchanged (null), 2 unchanged (itself), 3 left to the default
    std::vector<std::pair<int, XP>> out;
};
struct Mach {
    std::string name;
    int parent = -1, root = 0;
    std::vector<St> st;
    std::vector<XP> dflt;  // null: none
    // roots only
    bool moore = true, inner_rst = false, explicit_clk = false, early = false, low = false;
    int start_m = 0, start_s = 0;
    int clk = 0;  // which clock and reset
    std::vector<int> outs;
};
struct D {
    std::vector<V> v;
    std::vector<XP> conds;
    std::vector<Mach> m;
    bool two_clocks = false, wrap = false, low[2] = {false, false}, decl[2] = {false, false}, reg = false, table = false, dbg = false, flow = true;
    int regvar = -1, regin = -1;
};
uint64_t mask(uint32_t w) { return (1ull << w) - 1; }
uint64_t ev(const X &x, const std::vector<uint64_t> &v) {
    switch (x.k) {
        case X::Const: return x.c;
        case X::Var: return v[x.v];
        case X::EqC: return v[x.v] == x.c;
        case X::LtC: return v[x.v] < x.c;
        case X::Bit: return v[x.v] >> x.c & 1;
        case X::And: return ev(*x.a, v) & ev(*x.b, v);
        case X::Or: return ev(*x.a, v) | ev(*x.b, v);
        case X::Not: return ~ev(*x.a, v) & mask(x.w);
        case X::Add: return (ev(*x.a, v) + ev(*x.b, v)) & mask(x.w);
    }
    return 0;
}
std::string show(const X &x, const D &d) {
    switch (x.k) {
        case X::Const: return std::to_string(x.w) + "'d" + std::to_string(x.c);
        case X::Var: return d.v[x.v].name;
        case X::EqC: return d.v[x.v].name + "==" + std::to_string(x.c);
        case X::LtC: return d.v[x.v].name + "<" + std::to_string(x.c);
        case X::Bit: return d.v[x.v].name + "[" + std::to_string(x.c) + "]";
        case X::And: return "(" + show(*x.a, d) + "&" + show(*x.b, d) + ")";
        case X::Or: return "(" + show(*x.a, d) + "|" + show(*x.b, d) + ")";
        case X::Not: return "~" + show(*x.a, d);
        case X::Add: return "(" + show(*x.a, d) + "+" + show(*x.b, d) + ")";
    }
    return "";
}
std::string show(const D &d) {
    std::string r;
    for (auto const &v : d.v) r += (v.k == V::In ? "input " : v.k == V::Reg ? "reg " : "output ") + v.name + " " + std::to_string(v.w) + "\n";
    if (d.wrap) r += "inside another module\n";
    if (d.low[0]) r += std::string("rst is active low") + (d.decl[0] ? ", declared" : "") + "\n";
    if (d.low[1]) r += std::string("rst2 is active low") + (d.decl[1] ? ", declared" : "") + "\n";
    for (size_t i = 0; i < d.m.size(); i++) {
        auto const &m = d.m[i];
        auto const &rt = d.m[m.root];
        r += "fsm " + m.name;
        if (m.parent >= 0)
            r += " inside " + d.m[m.parent].name;
        else
            r += std::string(m.moore ? " moore" : " mealy") + (m.explicit_clk ? m.clk ? " clk2 rst2" : " clk rst" : "") + (m.inner_rst ? " through a variable" : "") + (m.low ? " reset low" : "") + (m.early ? " realized early" : "") + " start " + d.m[m.start_m].st[m.start_s].name;
        r += "\n";
        for (size_t o = 0; o < rt.outs.size(); o++) r += "  output " + d.v[rt.outs[o]].name + (m.dflt[o] ? " default " + show(*m.dflt[o], d) : "") + "\n";
        for (auto const &s : m.st) {
            r += "  state " + s.name + ":";
            for (auto const &[c, n] : s.next) r += " " + (c < 0 ? std::string("otherwise") : "if " + show(*d.conds[c], d)) + " -> " + d.m[n.first].name + "." + d.m[n.first].st[n.second].name + ";";
            for (size_t o = 0; o < rt.outs.size(); o++) r += " " + d.v[rt.outs[o]].name + "=" + (s.out[o].first == 0 ? show(*s.out[o].second, d) : s.out[o].first == 3 ? "default" : "unchanged");
            r += "\n";
        }
    }
    return r;
}

struct G {
    pbt::Case &c;
    D d;
    std::vector<int> readable;
    XP cst(uint32_t w) {
        auto x = std::make_shared<X>();
        x->w = w, x->c = c.src.draw(1ull << w);
        return x;
    }
    XP bit(int depth) {
        auto x = std::make_shared<X>();
        x->v = c.src.pick(readable);
        auto w = d.v[x->v].w;
        switch (c.src.draw(depth ? 7 : 4)) {
            case 0:
                x->k = X::EqC, x->c = c.src.draw(1ull << w);
                break;
            case 1:
                x->k = X::LtC, x->c = c.src.draw(1ull << w);
                break;
            case 2:
                if (w > 1)
                    x->k = X::Bit, x->c = c.src.draw(w);
                else
                    x->k = X::EqC, x->c = 1;
                break;
            case 3:
                if (w > 1)
                    x->k = X::EqC, x->c = c.src.draw(1ull << w);
                else
                    x->k = X::Var;
                break;
            case 4:
                x->k = X::And, x->a = bit(depth - 1), x->b = bit(depth - 1);
                break;
            case 5:
                x->k = X::Or, x->a = bit(depth - 1), x->b = bit(depth - 1);
                break;
            default:
                x->k = X::Not, x->a = bit(depth - 1);
        }
        return x;
    }
    XP value(uint32_t w) {
        std::vector<int> same;
        for (int v : readable)
            if (d.v[v].w == w) same.push_back(v);
        auto x = std::make_shared<X>();
        x->w = w;
        switch (c.src.draw(6)) {
            case 4:
                if (same.empty()) break;
                x->k = X::Var, x->v = c.src.pick(same);
                return x;
            case 5:
                if (same.empty()) break;
                x->k = X::Add, x->b = cst(w);
                x->a = std::make_shared<X>();
                x->a->k = X::Var, x->a->w = w, x->a->v = c.src.pick(same);
                return x;
            default:
                break;
        }
        return cst(w);
    }
    void make() {
        auto &s = c.src;
        static const std::vector<std::string> ins = {"in", "go", "mode"};
        int ni = 1 + s.draw(3);
        for (int i = 0; i < ni; i++) readable.push_back(d.v.size()), d.v.push_back({ins[i], (uint32_t)(1 + s.draw(3)), V::In});
        if (s.chance(1, 2)) {
            d.reg = true;
            d.regvar = d.v.size();
            d.regin = s.pick(readable);
            readable.push_back(d.regvar);
            d.v.push_back({"cnt", d.v[d.regin].w, V::Reg});
        }
        int nc = 2 + s.draw(5);
        std::set<std::string> seen;
        for (int i = 0; i < nc; i++) {
            auto x = bit(2);
            if (seen.insert(show(*x, d)).second) d.conds.push_back(x);
        }
        d.two_clocks = s.chance(1, 4);
        d.low[0] = s.chance(1, 4);
        d.low[1] = s.chance(1, 2);
        for (auto &x : d.decl) x = s.chance(1, 2);
        d.wrap = s.chance(1, 3);
        d.table = s.chance(1, 2);
        d.dbg = s.chance(1, 4);
        d.flow = s.chance(3, 4);
        int roots = 1 + s.chance(1, 4);
        int uniq = 0;
        bool awkward = s.chance(1, 8);
        for (int r = 0; r < roots; r++) {
            int root = d.m.size();
            int n = 1 + (s.chance(1, 3) ? s.draw(3) : 0);
            for (int i = 0; i < n; i++) {
                Mach m;
                m.root = root;
                m.name = awkward && i ? d.m[root].name + "_x" : (r ? "N" : "M") + std::to_string(i);
                if (awkward && i > 1) m.name += std::to_string(i);
                if (i) m.parent = s.chance(1, 2) ? root : root + (int)s.draw(i);
                int ns = 1 + s.draw(i ? 3 : 5);
                for (int j = 0; j < ns; j++) {
                    St st;
                    int u = uniq++;
                    // names of one machine need not be in the order of their declaration
                    st.name = std::string(1, "SQAZ"[s.draw(4)]) + std::to_string(u);
                    if (awkward) st.name = std::string(i == 0 && s.flip() ? "x_" : "") + "S" + std::to_string(r) + std::to_string(j);
                    m.st.push_back(st);
                }
                d.m.push_back(m);
            }
            auto &rm = d.m[root];
            int no = 1 + s.draw(3);
            for (int i = 0; i < no; i++) rm.outs.push_back(d.v.size()), d.v.push_back({(r ? "p" : "o") + std::to_string(i), (uint32_t)(1 + s.draw(3)), V::Out});
            rm.moore = !s.chance(1, 3);
            rm.explicit_clk = d.two_clocks || s.chance(1, 4);
            rm.inner_rst = rm.explicit_clk && s.chance(1, 3);
            rm.clk = d.two_clocks && s.flip();
            rm.low = d.low[rm.clk] && (!d.decl[rm.clk] || rm.inner_rst || s.flip());
            rm.early = s.chance(1, 4);
            rm.start_m = root + (s.chance(1, 4) ? s.draw(n) : 0);
            rm.start_s = s.draw(d.m[rm.start_m].st.size());
            if (d.m[rm.start_m].parent >= 0) rm.start_m = root, rm.start_s = 0;
            for (int i = root; i < root + n; i++) {
                auto &m = d.m[i];
                for (int o : rm.outs) m.dflt.push_back(s.chance(1, 4) ? value(d.v[o].w) : nullptr);
                for (auto &st : m.st) {
                    int nt = 1 + s.draw(3);
                    std::vector<int> left(d.conds.size());
                    for (size_t q = 0; q < left.size(); q++) left[q] = q;
                    bool otherwise = s.chance(1, 3);
                    for (int t = 0; t < nt && !left.empty(); t++) {
                        int q = s.draw(left.size());
                        int to = root + s.draw(n);
                        st.next.push_back({left[q], {to, (int)s.draw(d.m[to].st.size())}});
                        left.erase(left.begin() + q);
                    }
                    if (otherwise) {
                        if (s.chance(1, 3)) st.next.clear();
                        int to = root + s.draw(n);
                        st.next.push_back({-1, {to, (int)s.draw(d.m[to].st.size())}});
                    }
                    for (size_t o = 0; o < rm.outs.size(); o++) {
                        int k = 0;
                        if (m.dflt[o] && s.chance(1, 2))
                            k = 3;
                        else if (s.chance(1, 8) && (i != rm.start_m || &st != &m.st[rm.start_s]))  // the start state gives every output
                            k = 1 + s.draw(2);
                        st.out.push_back({k, k ? nullptr : value(d.v[rm.outs[o]].w)});
                    }
                }
            }
        }
    }
};

struct Ref {
    const D &d;
    std::vector<uint64_t> v;
    std::vector<char> known;
    std::vector<std::pair<int, int>> cur;  // per machine (roots used)
    bool clk[2] = {false, false}, rst[2] = {false, false};
    std::vector<char> live;  // has been reset
    std::vector<bool> lows;  // of a root: the reset is active low
    uint64_t steps = 0, taken = 0;
    explicit Ref(const D &d) : d(d), v(d.v.size()), known(d.v.size()), cur(d.m.size()), live(d.m.size()) {
        for (auto const &m : d.m) lows.push_back(d.low[m.clk]);
    }
    std::pair<int, int> nxt(int root, bool &fired) {
        auto const &s = d.m[cur[root].first].st[cur[root].second];
        std::pair<int, int> n = cur[root];
        const std::pair<int, std::pair<int, int>> *other = nullptr;
        for (auto const &t : s.next) {
            if (t.first < 0)
                other = &t;
            else if (ev(*d.conds[t.first], v) && !fired)
                fired = true, n = t.second;
        }
        if (!fired && other) fired = true, n = other->second;
        return n;
    }
    void outs(int root, std::pair<int, int> s) {
        auto const &m = d.m[s.first];
        auto const &st = m.st[s.second];
        for (size_t o = 0; o < st.out.size(); o++) {
            int t = d.m[root].outs[o];
            if (st.out[o].first == 0)
                v[t] = ev(*st.out[o].second, v), known[t] = true;
            else if (st.out[o].first == 3)
                v[t] = ev(*m.dflt[o], v), known[t] = true;
        }
    }
    void settle() {
        for (size_t i = 0; i < d.m.size(); i++)
            if (d.m[i].parent < 0 && live[i]) {
                if (d.m[i].moore)
                    outs(i, cur[i]);
                else {
                    bool fired = false;
                    auto n = nxt(i, fired);
                    if (fired) outs(i, n);
                }
            }
    }
    // a signal changes
    void poke(int kind, int which, uint64_t x) {
        if (kind == 0) {
            v[which] = x;
        } else {
            bool &s = kind == 1 ? clk[which] : rst[which];
            bool rise = !s && x, fall = s && !x;
            s = x;
            auto cur2 = cur;
            auto v2 = v;
            for (size_t i = 0; i < d.m.size(); i++) {
                if (d.m[i].parent >= 0 || d.m[i].clk != which) continue;
                bool low = lows[i];
                bool trig = kind == 1 ? rise : low ? fall : rise;
                if (!trig) continue;
                if (rst[which] != low)
                    cur2[i] = {d.m[i].start_m, d.m[i].start_s}, live[i] = 1;
                else if (live[i]) {
                    bool fired = false;
                    cur2[i] = nxt(i, fired);
                    steps++;
                    if (cur2[i] != cur[i]) taken++;
                }
            }
            if (d.reg && which == 0) {
                bool low = d.low[0];
                bool trig = kind == 1 ? rise : low ? fall : rise;
                if (trig) v2[d.regvar] = rst[0] != low ? 0 : (v[d.regvar] + v[d.regin] + 1) & mask(d.v[d.regvar].w);
            }
            cur = cur2;
            v = v2;
        }
        settle();
    }
};

std::string make_text(pbt::Case &c, const D &d, bool null_out, std::string &topname) {
    // build
    auto ctx = std::make_shared<k::Context>();
    auto &mod = ctx->generator("mod");
    mod.debug = d.dbg;
    std::vector<k::Var *> v;
    for (auto const &x : d.v)
        v.push_back(x.k == V::Reg ? &mod.var(x.name, x.w) : &(k::Var &)mod.port(x.k == V::In ? k::PortDirection::In : k::PortDirection::Out, x.name, x.w));
    k::Port *clk[2], *rst[2];
    k::Var *inner[2] = {nullptr, nullptr};
    for (int i = 0; i < (d.two_clocks ? 2 : 1); i++) {
        std::string n = i ? "2" : "";
        clk[i] = &mod.port(k::PortDirection::In, "clk" + n, 1, 1, k::PortType::Clock, false);
        rst[i] = &mod.port(k::PortDirection::In, "rst" + n, 1, 1, k::PortType::AsyncReset, false);
        if (d.low[i] && d.decl[i]) rst[i]->set_active_high(false);
    }
    std::map<const X *, k::Var *> memo;
    std::function<k::Var &(const X &)> bx = [&](const X &x) -> k::Var & {
        if (memo.count(&x)) return *memo[&x];
        k::Var *r = nullptr;
        switch (x.k) {
            case X::Const: r = &k::constant((int64_t)x.c, x.w); break;
            case X::Var: r = v[x.v]; break;
            case X::EqC: r = &v[x.v]->eq(k::constant((int64_t)x.c, d.v[x.v].w)); break;
            case X::LtC: r = &(*v[x.v] < k::constant((int64_t)x.c, d.v[x.v].w)); break;
            case X::Bit: r = &(*v[x.v])[(uint32_t)x.c]; break;
            case X::And: r = &(bx(*x.a) & bx(*x.b)); break;
            case X::Or: r = &(bx(*x.a) | bx(*x.b)); break;
            case X::Not: r = &~bx(*x.a); break;
            case X::Add: r = &(bx(*x.a) + bx(*x.b)); break;
        }
        memo[&x] = r;
        return *r;
    };
    auto sp = [](k::Var &x) { return x.shared_from_this(); };
    std::string text;
    std::vector<k::FSM *> fs;
    std::vector<std::vector<std::shared_ptr<k::FSMState>>> st;
    try {
        if (d.reg) {
            auto seq = mod.sequential();
            seq->add_condition({k::EventEdgeType::Posedge, sp(*clk[0])});
            seq->add_condition({d.low[0] ? k::EventEdgeType::Negedge : k::EventEdgeType::Posedge, sp(*rst[0])});
            auto i = std::make_shared<k::IfStmt>(d.low[0] ? sp(~*rst[0]) : sp(*rst[0]));
            i->add_then_stmt(v[d.regvar]->assign(k::constant(0, d.v[d.regvar].w), k::AssignmentType::NonBlocking));
            i->add_else_stmt(v[d.regvar]->assign(*v[d.regvar] + *v[d.regin] + k::constant(1, d.v[d.regvar].w), k::AssignmentType::NonBlocking));
            seq->add_stmt(i);
        }
        for (auto const &m : d.m) {
            if (m.inner_rst && !inner[m.clk]) {
                inner[m.clk] = &mod.var("inner_rst" + std::to_string(m.clk), 1);
                mod.add_stmt(inner[m.clk]->assign(*rst[m.clk], k::AssignmentType::Blocking));
            }
            auto &f = m.inner_rst ? mod.fsm(m.name, sp(*clk[m.clk]), inner[m.clk]->cast(k::VarCastType::AsyncReset)) : m.explicit_clk ? mod.fsm(m.name, sp(*clk[m.clk]), sp(*rst[m.clk])) : mod.fsm(m.name);
            fs.push_back(&f);
            st.emplace_back();
            for (auto const &s : m.st) st.back().push_back(d.dbg ? f.add_state(s.name, {"f.py", (uint32_t)(100 * fs.size() + st.back().size())}) : f.add_state(s.name));
            auto const &outs = d.m[m.root].outs;
            for (size_t o = 0; o < outs.size(); o++)
                if (m.dflt[o])
                    f.output(sp(*v[outs[o]]), sp(bx(*m.dflt[o])));
                else
                    f.output(sp(*v[outs[o]]));
            if (m.parent >= 0) fs[m.parent]->add_child_fsm(&f);
        }
        for (size_t i = 0; i < d.m.size(); i++) {
            auto const &m = d.m[i];
            auto const &outs = d.m[m.root].outs;
            for (size_t j = 0; j < m.st.size(); j++) {
                auto const &s = m.st[j];
                for (auto const &[q, n] : s.next) st[i][j]->next(st[n.first][n.second], q < 0 ? nullptr : sp(bx(*d.conds[q])));
                for (size_t o = 0; o < outs.size(); o++) {
                    auto [kd, x] = s.out[o];
                    if (kd == 0) {
                        if (x->k == X::Const && x->c % 2)
                            st[i][j]->output(sp(*v[outs[o]]), (int64_t)x->c);
                        else
                            st[i][j]->output(sp(*v[outs[o]]), sp(bx(*x)));
                    } else if (kd == 1)
                        st[i][j]->output(sp(*v[outs[o]]), nullptr);
                    else if (kd == 2)
                        st[i][j]->output(sp(*v[outs[o]]), sp(*v[outs[o]]));
                }
            }
            if (m.parent < 0) {
                fs[i]->set_moore(m.moore);
                if (m.low) fs[i]->set_reset_high(false);
                fs[i]->set_start_state(st[m.start_m][m.start_s]);
            }
        }
        for (size_t i = 0; i < d.m.size(); i++)
            if (d.m[i].parent < 0 && d.m[i].early) fs[i]->realize();
        if (d.table) {
            // the diagram has exactly the transitions, the table exactly the outputs
            for (size_t i = 0; i < d.m.size(); i++) {
                auto const &m = d.m[i];
                if (m.parent < 0) {
                    std::multiset<std::string> want, got;
                    auto hn = [&](int a, int b) {
                        std::string n = d.m[a].st[b].name;
                        for (int q = a; d.m[q].parent >= 0; q = d.m[q].parent) n = d.m[q].name + "_" + n;
                        return n;
                    };
                    std::set<std::pair<int, int>> seen;
                    std::vector<std::pair<int, int>> todo;
                    for (size_t j = 0; j < m.st.size(); j++) todo.push_back({(int)i, (int)j});
                    while (!todo.empty()) {
                        auto x = todo.back();
                        todo.pop_back();
                        if (!seen.insert(x).second) continue;
                        for (auto const &[q, n] : d.m[x.first].st[x.second].next) {
                            want.insert(hn(x.first, x.second) + " -> " + hn(n.first, n.second) + (q < 0 ? "" : " if " + bx(*d.conds[q]).to_string()));
                            todo.push_back(n);
                        }
                    }
                    std::istringstream is(fs[i]->dot_graph());
                    std::string line;
                    while (std::getline(is, line)) {
                        auto a = line.find("    ->  ");
                        if (a == std::string::npos) continue;
                        auto from = line.substr(4, a - 4), rest = line.substr(a + 8);
                        auto l = rest.find(" [ label = \"");
                        if (l != std::string::npos)
                            got.insert(from + " -> " + rest.substr(0, l) + " if " + rest.substr(l + 12, rest.size() - l - 12 - 4));
                        else
                            got.insert(from + " -> " + rest.substr(0, rest.size() - 1));
                    }
                    if (want != got) c.fail("diagram", fs[i]->dot_graph() + c.sample);
                }
                std::istringstream is(fs[i]->output_table());
                std::string line;
                auto split = [](const std::string &s) {
                    std::vector<std::string> r(1);
                    int depth = 0;
                    for (char ch : s) {
                        if (ch == '(' || ch == '{') depth++;
                        if (ch == ')' || ch == '}') depth--;
                        if (ch == ',' && !depth)
                            r.emplace_back();
                        else
                            r.back() += ch;
                    }
                    return r;
                };
                std::getline(is, line);
                auto head = split(line);
                size_t rows = 0;
                while (std::getline(is, line)) {
                    auto cells = split(line);
                    rows++;
                    if (cells.size() != head.size()) c.fail("table", fs[i]->output_table() + c.sample);
                    const St *s = nullptr;
                    for (auto const &y : m.st)
                        if (y.name == cells[0]) s = &y;
                    if (!s) c.fail("table", fs[i]->output_table() + c.sample);
                    auto const &outs = d.m[m.root].outs;
                    for (size_t q = 1; q < head.size(); q++) {
                        for (size_t o = 0; o < outs.size(); o++)
                            if (d.v[outs[o]].name == head[q] && (s->out[o].first == 0 || s->out[o].first == 3)) {
                                auto x = s->out[o].first == 0 ? s->out[o].second : m.dflt[o];
                                if (bx(*x).to_string() != cells[q]) c.fail("table", fs[i]->output_table() + c.sample);
                            }
                    }
                }
                if (rows != m.st.size() || head.size() != d.m[m.root].outs.size() + 1) c.fail("table", fs[i]->output_table() + c.sample);
            }
        }
        k::Generator *top = &mod;
        if (d.wrap) {
            auto &t = ctx->generator("top");
            t.add_child_generator("inner", mod.shared_from_this());
            for (auto const &n : mod.get_port_names()) {
                auto p = mod.get_port(n);
                auto &q = t.port(p->port_direction(), n, p->width(), 1, p->port_type(), false);
                if (p->port_type() == k::PortType::AsyncReset && p->active_high()) q.set_active_high(*p->active_high());
                t.add_stmt(p->port_direction() == k::PortDirection::In ? p->assign(q, k::AssignmentType::Blocking) : q.assign(*p, k::AssignmentType::Blocking));
            }
            top = &t;
        }
        // where a state comes from is the debug information of its value
        auto places = [&]() {
            for (size_t i = 0; i < d.m.size(); i++)
                if (d.m[i].parent < 0 && d.dbg && fs[i]->current_state_var())
                    for (auto const &[n, e] : fs[i]->current_state_var()->enum_type()->values) {
                        bool ok = e->fn_name_ln.size() == 1;
                        if (ok) {
                            uint32_t l = e->fn_name_ln[0].second, a = l / 100 - 1, b = l % 100;
                            ok = a < d.m.size() && b < d.m[a].st.size() && n.find(d.m[a].st[b].name) != std::string::npos && n.find(d.m[a].st[b].name) + d.m[a].st[b].name.size() <= n.size();
                            // names may be made unique by a suffix
                            auto full = d.m[a].name + "_" + d.m[a].st[b].name;
                            ok = ok && (n == d.m[a].st[b].name || n.substr(0, full.size()) == full);
                        }
                        if (!ok) c.fail("place of a state", n + " of " + fs[i]->fsm_name() + "\n" + c.sample);
                    }
        };
        if (d.flow) {
            Flow f;
            f.after = [&](const std::string &n, k::Generator *) {
                if (n == "realize_fsm") places();
            };
            f.check_latch = !null_out;
            text = join(default_flow(top, f));
        } else {
            k::realize_fsm(top);
            places();
            text = join(plain_flow(top));
        }
        topname = top->name;
    } catch (const pbt::Failure &) {
        throw;
    } catch (const std::exception &e) {
        c.fail("exception", std::string(e.what()) + "\n" + c.sample);
    }
    return text;
}

void p13(pbt::Case &c) {
    G g{c};
    g.make();
    auto const &d = g.d;
    c.sample = show(d);
    bool null_out = false;
    for (auto const &m : d.m) {
        if (m.parent < 0) c.label(m.moore ? "moore" : "mealy");
        if (m.parent >= 0) c.label("nested");
        if (m.parent >= 0 && d.m[m.parent].parent >= 0) c.label("nested twice");
        for (auto const &s : m.st) {
            for (auto const &o : s.out)
                if (o.first == 1 || o.first == 2) null_out = true, c.label("unchanged output");
            for (auto const &n : s.next)
                if (n.first < 0) c.label(s.next.size() > 1 ? "otherwise" : "unconditional");
        }
        if (m.parent < 0 && d.low[m.clk]) c.label("reset low");
    }

    std::string topname, text = make_text(c, d, null_out, topname);
    if (c.src.chance(1, 8)) {
        std::vector<std::unique_ptr<char[]>> junk;
        for (int i = 0; i < 40; i++) junk.emplace_back(new char[16 + 37 * i % 400]);
        std::string t2 = make_text(c, d, null_out, topname);
        if (t2 != text) c.fail("different text", text + t2 + c.sample);
    }
    try {
        sv::Unit u;
        sv::parse(text, u);
        sv::Options so;
        so.init_seed = c.src.draw(1000);
        sv::Design sd(u, topname, so);
        if (!sd.lint().empty()) c.fail("text", sd.lint()[0] + "\n" + text + c.sample);
        Ref ref(d);
        std::string log;
        auto setb = [&](const std::string &n, uint32_t w, uint64_t x) {
            log += " " + n + "=" + std::to_string(x);
            sd.poke(n, BV(w, x));
        };
        // everything zero, resets inactive, then a reset
        for (size_t i = 0; i < d.v.size(); i++)
            if (d.v[i].k == V::In) sd.set(d.v[i].name, BV(d.v[i].w, 0));
        int ncl = d.two_clocks ? 2 : 1;
        for (int q = 0; q < ncl; q++) {
            std::string n = q ? "2" : "";
            sd.set("clk" + n, BV(1, 0));
            sd.set("rst" + n, BV(1, 0));
        }
        sd.settle();
        log += " start";
        // every polarity of every reset becomes active once
        for (int q = 0; q < ncl; q++) {
            std::string n = q ? "2" : "";
            for (int x : {1, 0, 1}) {
                setb("rst" + n, 1, x);
                ref.poke(2, q, x);
            }
            setb("rst" + n, 1, d.low[q]);
            ref.poke(2, q, d.low[q]);
        }
        auto compare = [&]() {
            for (size_t i = 0; i < d.v.size(); i++) {
                if (d.v[i].k != V::Out || !ref.known[i]) continue;
                auto got = sd.get(d.v[i].name).u64();
                if (got != ref.v[i]) c.fail("behaviour", d.v[i].name + " is " + std::to_string(got) + " instead of " + std::to_string(ref.v[i]) + " after" + log + "\n" + c.sample + text);
            }
        };
        compare();
        int n = 12 + c.src.draw(24);
        for (int t = 0; t < n; t++) {
            int q = c.src.draw(ncl);
            std::string nm = q ? "2" : "";
            switch (c.src.draw(10)) {
                case 0:
                case 1:
                case 2:
                case 3: {
                    std::vector<int> in;
                    for (size_t i = 0; i < d.v.size(); i++)
                        if (d.v[i].k == V::In) in.push_back(i);
                    int i = c.src.pick(in);
                    auto x = c.src.draw(1ull << d.v[i].w);
                    setb(d.v[i].name, d.v[i].w, x);
                    ref.poke(0, i, x);
                    break;
                }
                case 9:
                    setb("rst" + nm, 1, !ref.rst[q]);
                    ref.poke(2, q, !ref.rst[q]);
                    compare();
                    if (c.src.chance(3, 4)) {
                        setb("rst" + nm, 1, !ref.rst[q]);
                        ref.poke(2, q, !ref.rst[q]);
                    }
                    break;
                default:
                    setb("clk" + nm, 1, 1);
                    ref.poke(1, q, 1);
                    compare();
                    setb("clk" + nm, 1, 0);
                    ref.poke(1, q, 0);
            }
            compare();
        }
        if (sd.unique_violations()) c.label("unique case without a match");
        c.nontrivial = ref.taken >= 2;
    } catch (const sv::Error &e) {
        c.fail("text", std::string(e.what()) + "\n" + text + c.sample);
    }
}
pbt::Reg r13({"P13", "the reference changes its state at least twice after the reset", p13, 20000, 400000, {}, {}});
}  // namespace
