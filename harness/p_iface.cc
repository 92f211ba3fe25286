// P18 interfaces and modports
#include <algorithm>
#include <functional>

#include "expr.hh"
#include "generator.hh"
#include "interface.hh"
#include "pass.hh"
#include "port.hh"
#include "rdl.hh"
#include "stmt.hh"
#include "sv.hh"
using namespace rdl;
namespace k = kratos;

namespace {
struct Sig {
    std::string name;
    uint32_t w = 1, n = 1, m = 0;  // width, elements, elements in the last dimension (0: there is one dimension)
    enum K { Var, In, Out, Clk } k = Var;
    std::vector<uint32_t> dims() const { return m ? std::vector<uint32_t>{n / m, m} : std::vector<uint32_t>{n}; }
    static k::Var &elem(k::Var &v, const Sig &g, uint32_t i) { return g.m ? v[i / g.m][i % g.m] : v[i]; }
    int driver = -1;  // modport, -1: the module with the instance (inputs and the clock: its ports)
};
struct Mp {
    std::string name;
    std::vector<int> in, out;
};
// a value of one element: ((a op b) ^ c)
struct X {
    int a = 0, ai = 0, b = -1, bi = 0, op = 0;
    uint64_t c = 0;
};
struct St {
    int v = 0;
    std::vector<X> x;  // per element
    int how = 0;       // 0 continuous, 1 block, 2 clocked
};
// a module with one interface port: x (input), y (output), and logic. v < 0 in X is x, in St is y
struct Child {
    int mp = -1;  // -1: the interface as a whole
    std::string name, bus;
    std::vector<St> st;
    bool wrapped = false, outer_name = false;
};
struct Def {
    std::string name;
    std::vector<Sig> s;
    std::vector<Mp> m;
    std::vector<Child> c;
};
struct Inst {
    int def = 0;
    std::string name;
    std::vector<int> kids;  // index of child modules
    std::vector<int> inv;   // signals that are inverted where they enter or leave
};
struct D {
    std::vector<Def> def;
    std::vector<Inst> inst;
    uint32_t xw = 4;
    bool nested = false;  // the instances are in a module below the top
};
uint64_t mask(uint32_t w) { return (1ull << w) - 1; }

struct G {
    pbt::Src &s;
    D d;
    explicit G(pbt::Src &s) : s(s) {}
    // an element of a signal below `below`, of those that can be read
    X value(const Def &f, const std::vector<int> &rd, uint32_t w) {
        X x;
        auto one = [&](int &v, int &i) {
            // -1 - is the input of the module
            v = rd.empty() || s.chance(1, 5) ? -1 : s.pick(rd);
            i = v < 0 ? 0 : s.draw(f.s[v].n);
        };
        one(x.a, x.ai);
        x.op = s.draw(4);
        if (x.op) one(x.b, x.bi);
        x.c = s.bits(w) & mask(w);
        return x;
    }
    void make() {
        static const char *dn[] = {"Bus", "Config"}, *sn[] = {"a", "data", "valid", "b", "ready", "q", "r_en"}, *mn[] = {"Master", "Slave", "Monitor"};
        int nd = s.chance(1, 4) ? 2 : 1;
        for (int i = 0; i < nd; i++) {
            Def f;
            f.name = dn[i];
            Sig ck;
            ck.name = "clk", ck.k = Sig::Clk;
            f.s.push_back(ck);
            int nm = 1 + s.draw(3), ns = 1 + s.draw(6);
            // a module can use all of it, without modport
            bool whole = s.chance(1, 3);
            for (int q = 0; q < nm; q++) f.m.push_back({mn[q], {0}, {}});
            for (int q = 0; q < ns; q++) {
                Sig g;
                g.name = sn[q], g.w = s.chance(1, 4) ? 1 : 1 + s.draw(9);
                if (s.chance(1, 6)) g.n = 1 + s.draw(3);
                if (s.chance(1, 8)) g.m = 2 + s.draw(2), g.n = g.m * (1 + s.draw(3));
                g.k = s.chance(1, 5) ? (s.flip() ? Sig::In : Sig::Out) : Sig::Var;
                if (g.k != Sig::In && (g.k == Sig::Out || s.chance(4, 5))) g.driver = s.draw(nm + (whole ? 1 : 0));
                // what has the interface as a whole has to drive its outputs
                if (whole && g.k == Sig::Out) g.driver = nm;
                for (int z = 0; z < nm; z++) {
                    if (g.driver == z) f.m[z].out.push_back(q + 1);
                    else if (s.flip() && g.k != Sig::Out) f.m[z].in.push_back(q + 1);
                }
                f.s.push_back(g);
            }
            // the child that drives, for each modport; and some that only read
            for (int z = 0; z < nm + (whole ? 1 : 0); z++) {
                Child c;
                Mp m;
                if (z < nm) {
                    c.mp = z;
                    m = f.m[z];
                } else {
                    for (size_t q = 0; q < f.s.size(); q++) (f.s[q].driver == z ? m.out : m.in).push_back(q);
                }
                c.name = "Child" + std::to_string(i) + std::to_string(z), c.bus = s.flip() ? "bus" : "port" + std::to_string(z);
                c.wrapped = s.chance(1, 4), c.outer_name = s.flip();
                auto statement = [&](int v, const std::vector<int> &all) {
                    St st;
                    st.v = v, st.how = s.draw(3);
                    std::vector<int> rd;
                    for (int r : all)
                        if (f.s[r].k != Sig::Clk && (st.how == 2 || (v >= 0 && r < v) || v < 0)) rd.push_back(r);
                    uint32_t n = v < 0 ? 1 : f.s[v].n, w = v < 0 ? d.xw : f.s[v].w;
                    for (uint32_t e = 0; e < n; e++) st.x.push_back(value(f, rd, w));
                    c.st.push_back(st);
                };
                for (int v : m.out) statement(v, m.in);
                if (s.chance(2, 3)) statement(-1, m.in);
                f.c.push_back(c);
            }
            d.def.push_back(f);
        }
        d.nested = s.chance(1, 4);
        int ni = 1 + s.draw(3);
        for (int i = 0; i < ni; i++) {
            Inst n;
            n.def = s.draw(nd), n.name = (s.flip() ? "bus" : "if_") + std::to_string(i);
            auto const &f = d.def[n.def];
            for (auto const &g : f.s) n.inv.push_back(g.n == 1 && g.k != Sig::Clk && s.chance(1, 4));
            for (size_t z = 0; z < f.c.size(); z++) {
                n.kids.push_back(z);
                if (std::none_of(f.s.begin(), f.s.end(), [&](const Sig &g) { return g.driver == (int)z; }) && s.chance(1, 3)) n.kids.push_back(z);
            }
            s.shuffle(n.kids);
            d.inst.push_back(n);
        }
    }
};
std::string show(const D &d) {
    std::string o = d.nested ? "nested\n" : "";
    for (auto const &f : d.def) {
        o += "interface " + f.name + "\n";
        static const char *kn[] = {"var", "input", "output", "clock"};
        for (auto const &g : f.s) o += std::string("  ") + kn[g.k] + " " + g.name + " [" + std::to_string(g.w) + "] x " + std::to_string(g.n) + (g.m ? " by " + std::to_string(g.m) : "") + (g.driver >= 0 ? " by " + f.c[g.driver].name : "") + "\n";
        for (auto const &m : f.m) {
            o += "  modport " + m.name;
            for (int q : m.in) o += " in " + f.s[q].name;
            for (int q : m.out) o += " out " + f.s[q].name;
            o += "\n";
        }
        for (auto const &c : f.c) {
            o += "  module " + c.name + " " + c.bus + (c.mp < 0 ? " whole" : "") + (c.wrapped ? " wrapped" : "") + "\n";
            auto n = [&](int v, int i) { return v < 0 ? "x" : f.s[v].name + "[" + std::to_string(i) + "]"; };
            for (auto const &st : c.st) {
                static const char *hn[] = {"assign", "comb", "ff"};
                o += std::string("    ") + hn[st.how] + " " + (st.v < 0 ? "y" : f.s[st.v].name) + " =";
                for (auto const &x : st.x) {
                    static const char *on[] = {"", " + ", " & ", " ^ "};
                    o += " (" + n(x.a, x.ai) + on[x.op] + (x.op ? n(x.b, x.bi) : "") + ") ^ " + std::to_string(x.c);
                }
                o += "\n";
            }
        }
    }
    for (auto const &i : d.inst) {
        o += d.def[i.def].name + " " + i.name + ":";
        for (size_t q = 0; q < i.inv.size(); q++)
            if (i.inv[q]) o += " ~" + d.def[i.def].s[q].name;
        for (int z : i.kids) o += " " + d.def[i.def].c[z].name;
        o += "\n";
    }
    return o;
}

struct B {
    const D &d;
    pbt::Src &s;
    k::Context ctx;
    k::Generator *top, *outermost;
    std::vector<std::shared_ptr<k::InterfaceDefinition>> defs;
    std::vector<std::vector<std::shared_ptr<k::InterfaceModPortDefinition>>> mps;
    std::vector<std::shared_ptr<k::Var>> keep;
    B(const D &d, pbt::Src &s) : d(d), s(s) {}
    static k::Var &sig(k::InterfaceRef &r, const std::string &n) { return r.has_var(n) ? r.var(n) : r.port(n); }
    k::Var &resize(k::Var &v, uint32_t w) {
        if (v.width() == w) return v;
        if (v.width() > w) return v[std::make_pair(w - 1, 0u)];
        return v.extend(w);
    }
    void fill(const Def &f, const Child &c, k::Generator &g, k::InterfaceRef &ref) {
        auto &x = g.port(k::PortDirection::In, "x", d.xw);
        auto &y = g.port(k::PortDirection::Out, "y", d.xw);
        auto rd = [&](int v, int i, uint32_t w) -> k::Var & {
            if (v < 0) return resize(x, w);
            auto &z = sig(ref, f.s[v].name);
            return resize(f.s[v].n > 1 ? Sig::elem(z, f.s[v], i) : z, w);
        };
        bool has_y = false;
        for (auto const &st : c.st) {
            if (st.v < 0) has_y = true;
            k::Var &t = st.v < 0 ? static_cast<k::Var &>(y) : sig(ref, f.s[st.v].name);
            uint32_t w = st.v < 0 ? d.xw : f.s[st.v].w;
            std::shared_ptr<k::StmtBlock> b;
            if (st.how == 1) b = g.combinational();
            if (st.how == 2) {
                auto q = g.sequential();
                q->add_condition({k::EventEdgeType::Posedge, ref.port("clk").shared_from_this()});
                b = q;
            }
            for (size_t e = 0; e < st.x.size(); e++) {
                auto const &z = st.x[e];
                k::Var *v = &rd(z.a, z.ai, w);
                if (z.op) {
                    auto &o = rd(z.b, z.bi, w);
                    v = z.op == 1 ? &(*v + o) : z.op == 2 ? &(*v & o) : &(*v ^ o);
                }
                v = &(*v ^ k::constant(z.c, w));
                auto a = (st.x.size() > 1 ? Sig::elem(t, f.s[st.v], e) : t).assign(*v);
                if (b) b->add_stmt(a);
                else g.add_stmt(a);
            }
        }
        if (!has_y) g.add_stmt(y.assign(x));
    }
    std::shared_ptr<k::IDefinition> idef(int def, int mp) {
        if (mp < 0) return defs[def];
        return mps[def][mp];
    }
    void build() {
        for (auto const &f : d.def) {
            auto i = std::make_shared<k::InterfaceDefinition>(f.name);
            for (auto const &g : f.s) {
                if (g.k == Sig::Clk) i->clock(g.name);
                else if (g.k == Sig::Var) i->var(g.name, g.w, g.dims());
                else if (g.k == Sig::In) i->port(g.name, g.w, g.dims(), k::PortDirection::In);
                else i->port(g.name, g.w, g.dims(), k::PortDirection::Out);
            }
            mps.emplace_back();
            for (auto const &m : f.m) {
                auto p = i->create_modport_def(m.name);
                for (int q : m.in) p->set_input(f.s[q].name);
                for (int q : m.out) p->set_output(f.s[q].name);
                mps.back().push_back(p);
            }
            defs.push_back(i);
        }
        top = outermost = &ctx.generator("top");
        if (d.nested) top = &ctx.generator("mid");
        auto &clk = top->port(k::PortDirection::In, "clk", 1, 1, k::PortType::Clock, false);
        for (size_t n = 0; n < d.inst.size(); n++) {
            auto const &in = d.inst[n];
            auto const &f = d.def[in.def];
            auto ref = top->interface(defs[in.def], in.name, false);
            auto pre = "p" + std::to_string(n) + "_";
            for (size_t q = 0; q < f.s.size(); q++) {
                auto const &g = f.s[q];
                auto &v = sig(*ref, g.name);
                if (g.k == Sig::Clk) {
                    wire(v, clk);
                } else if (g.driver < 0) {
                    auto &p = top->port(k::PortDirection::In, pre + g.name, g.w, g.dims());
                    wire(v, in.inv[q] ? static_cast<k::Var &>(~p) : p);
                } else {
                    auto &p = top->port(k::PortDirection::Out, pre + g.name, g.w, g.dims());
                    wire(p, in.inv[q] ? static_cast<k::Var &>(~v) : v);
                    if (g.w > 1 && g.n == 1 && s.chance(1, 3)) wire(top->port(k::PortDirection::Out, pre + g.name + "_0", 1), v[0]);
                }
            }
            for (size_t z = 0; z < in.kids.size(); z++) {
                auto const &c = f.c[in.kids[z]];
                auto &g = ctx.generator(c.name);
                auto name = "u" + std::to_string(n) + "_" + std::to_string(z);
                auto cr = g.interface(idef(in.def, c.mp), c.bus, true);
                fill(f, c, g, *cr);
                k::Generator *outer = &g;
                auto oref = cr;
                if (c.wrapped) {
                    auto &w = ctx.generator(c.name + "_wrapper");
                    oref = w.interface(idef(in.def, c.mp), c.outer_name ? "bus" : c.bus, true);
                    auto &x = w.port(k::PortDirection::In, "x", d.xw);
                    auto &y = w.port(k::PortDirection::Out, "y", d.xw);
                    w.add_child_generator("inner", g);
                    w.add_stmt(g.get_port("x")->assign(x));
                    w.add_stmt(y.assign(*g.get_port("y")));
                    if (s.flip()) w.wire_interface(oref, cr);
                    else w.wire_interface(cr, oref);
                    outer = &w;
                }
                top->add_child_generator(name, *outer);
                auto from = ref;
                if (c.mp >= 0 && s.flip()) from = ref->get_modport_ref(f.m[c.mp].name);
                if (s.flip()) top->wire_interface(from, oref);
                else top->wire_interface(oref, from);
                auto &x = top->port(k::PortDirection::In, name + "_x", d.xw);
                auto &y = top->port(k::PortDirection::Out, name + "_y", d.xw);
                top->add_stmt(outer->get_port("x")->assign(x));
                top->add_stmt(y.assign(*outer->get_port("y")));
            }
        }
    }
    // all ports of the module below
    void lift() {
        if (!d.nested) return;
        outermost->add_child_generator("m", *top);
        for (auto const &n : top->get_port_names()) {
            auto p = top->get_port(n);
            auto &q = outermost->port(*p, false);
            if (p->port_direction() == k::PortDirection::In) outermost->add_stmt(p->assign(q));
            else outermost->add_stmt(q.assign(*p));
        }
    }
    void wire(k::Var &a, k::Var &b) { top->add_stmt(a.assign(b)); }
};

void p18(pbt::Case &c) {
    G gen(c.src);
    gen.make();
    auto &d = gen.d;
    // two interfaces of the same name have to be the same
    bool clash = false;
    std::set<int> both;
    for (auto const &i : d.inst) both.insert(i.def);
    if (both.size() > 1 && c.src.chance(1, 6)) {
        auto sigs = [&](const Def &f) {
            std::set<std::tuple<std::string, uint32_t, uint32_t, int>> r;
            for (auto const &g : f.s) r.insert({g.name, g.w, g.n, g.k});
            return r;
        };
        clash = sigs(d.def[0]) != sigs(d.def[1]);
        if (clash) d.def[1].name = d.def[0].name;
    }
    c.sample = show(d);
    std::string text;
    B b(d, c.src);
    if (clash) {
        try {
            b.build();
            b.lift();
            join(default_flow(b.outermost));
            k::extract_interface_info(b.outermost);
        } catch (const std::exception &) {
            c.label("refused");
            return;
        }
        c.fail("accepted", "two interfaces with one name\n" + c.sample);
    }
    try {
        b.build();
        b.lift();
        text = join(c.src.chance(3, 4) ? default_flow(b.outermost) : plain_flow(b.outermost));
    } catch (const std::exception &e) {
        c.fail("exception", std::string(e.what()) + "\n" + c.sample);
    }
    // declarations
    try {
        sv::Unit u;
        // definitions are not part of the modules
        std::string defs;
        std::map<std::string, std::string> info = k::extract_interface_info(b.outermost);
        std::set<std::string> used;
        for (auto const &i : d.inst) used.insert(d.def[i.def].name);
        for (auto const &[n, t] : info) {
            if (!used.count(n)) c.fail("definitions", n + " is not used\n" + c.sample + t);
            defs += t + "\n";
        }
        if (info.size() != used.size()) c.fail("definitions", "number of interfaces\n" + c.sample + defs);
        text = defs + text;
        sv::parse(text, u);
        for (auto const &f : d.def) {
            if (!used.count(f.name)) continue;
            auto it = u.modules.find(f.name);
            if (it == u.modules.end() || !it->second->is_iface) c.fail("definitions", "no " + f.name + "\n" + c.sample + text);
            auto const &m = *it->second;
            for (auto const &mp : f.m) {
                std::set<std::pair<std::string, std::string>> want, got;
                for (int q : mp.in) want.insert({"input", f.s[q].name});
                for (int q : mp.out) want.insert({"output", f.s[q].name});
                if (!m.modports.count(mp.name)) c.fail("definitions", "no modport " + mp.name + "\n" + c.sample + text);
                for (auto const &x : m.modports.at(mp.name)) got.insert(x);
                if (want != got || got.size() != m.modports.at(mp.name).size()) c.fail("definitions", "modport " + mp.name + "\n" + c.sample + text);
            }
            if (m.modports.size() != f.m.size()) c.fail("definitions", "modports of " + f.name + "\n" + c.sample + text);
        }
        sv::Design sd(u, "top");
        for (auto const &l : sd.lint()) c.fail("text", l + "\n" + c.sample + text);
        // reference: values per instance and signal; ff state is unknown until written
        struct I {
            std::vector<std::vector<uint64_t>> v;
            std::vector<std::vector<bool>> known;
            std::vector<uint64_t> x, y;
            std::vector<bool> yk;
        };
        std::vector<I> is;
        std::string log;
        for (auto const &n : d.inst) {
            I i;
            for (auto const &g : d.def[n.def].s) i.v.emplace_back(g.n, 0), i.known.emplace_back(g.n, g.driver < 0);
            i.x.resize(n.kids.size()), i.y.resize(n.kids.size()), i.yk.resize(n.kids.size());
            is.push_back(i);
        }
        auto pins = [&](bool some) {
            for (size_t n = 0; n < is.size(); n++) {
                auto const &f = d.def[d.inst[n].def];
                for (size_t q = 0; q < f.s.size(); q++) {
                    auto const &g = f.s[q];
                    if (g.driver >= 0 || g.k == Sig::Clk || (some && c.src.flip())) continue;
                    BV all(g.w * g.n, 0);
                    for (uint32_t e = 0; e < g.n; e++) is[n].v[q][e] = c.src.bits(g.w), all.insert(e * g.w, BV(g.w, d.inst[n].inv[q] ? ~is[n].v[q][e] & mask(g.w) : is[n].v[q][e]));
                    auto nm = "p" + std::to_string(n) + "_" + g.name;
                    sd.set(nm, all);
                    log += " " + nm + "=" + all.str();
                }
                for (size_t z = 0; z < is[n].x.size(); z++) {
                    is[n].x[z] = c.src.bits(d.xw);
                    auto nm = "u" + std::to_string(n) + "_" + std::to_string(z) + "_x";
                    sd.set(nm, BV(d.xw, is[n].x[z]));
                    log += " " + nm + "=" + std::to_string(is[n].x[z]);
                }
            }
            sd.settle();
        };
        // evaluates a statement of a child
        auto ev = [&](I &i, const Def &f, size_t z, const St &st, const std::function<void(size_t, uint64_t, bool)> &set) {
            uint32_t w = st.v < 0 ? d.xw : f.s[st.v].w;
            for (size_t e = 0; e < st.x.size(); e++) {
                auto const &x = st.x[e];
                auto get = [&](int v, int q) { return std::make_pair((v < 0 ? i.x[z] : i.v[v][q]) & mask(w), v < 0 || i.known[v][q]); };
                auto [r, kn] = get(x.a, x.ai);
                if (x.op) {
                    auto [o, ok] = get(x.b, x.bi);
                    kn = kn && ok;
                    r = x.op == 1 ? r + o : x.op == 2 ? r & o : r ^ o;
                }
                set(e, (r ^ x.c) & mask(w), kn);
            }
        };
        auto settle = [&]() {
            for (size_t n = 0; n < is.size(); n++) {
                auto const &f = d.def[d.inst[n].def];
                auto &i = is[n];
                for (int v = 0; v <= (int)f.s.size(); v++)
                    for (size_t z = 0; z < i.x.size(); z++)
                        for (auto const &st : f.c[d.inst[n].kids[z]].st) {
                            if (st.how == 2 || st.v != (v == (int)f.s.size() ? -1 : v)) continue;
                            ev(i, f, z, st, [&](size_t e, uint64_t r, bool kn) {
                                if (st.v < 0) i.y[z] = r, i.yk[z] = kn;
                                else i.v[st.v][e] = r, i.known[st.v][e] = kn;
                            });
                        }
                for (size_t z = 0; z < i.x.size(); z++) {
                    bool has = false;
                    for (auto const &st : f.c[d.inst[n].kids[z]].st) has |= st.v < 0;
                    if (!has) i.y[z] = i.x[z], i.yk[z] = true;
                }
            }
        };
        auto edge = [&]() {
            std::vector<std::function<void()>> next;
            for (size_t n = 0; n < is.size(); n++) {
                auto const &f = d.def[d.inst[n].def];
                auto &i = is[n];
                for (size_t z = 0; z < i.x.size(); z++)
                    for (auto const &st : f.c[d.inst[n].kids[z]].st)
                        if (st.how == 2)
                            ev(i, f, z, st, [&](size_t e, uint64_t r, bool kn) {
                                int v = st.v;
                                next.push_back([&i, v, z, e, r, kn]() {
                                    if (v < 0) i.y[z] = r, i.yk[z] = kn;
                                    else i.v[v][e] = r, i.known[v][e] = kn;
                                });
                            });
            }
            for (auto &q : next) q();
        };
        auto compare = [&]() {
            settle();
            for (size_t n = 0; n < is.size(); n++) {
                auto const &f = d.def[d.inst[n].def];
                for (size_t q = 0; q < f.s.size(); q++) {
                    auto const &g = f.s[q];
                    if (g.driver < 0) continue;
                    auto nm = "p" + std::to_string(n) + "_" + g.name;
                    auto got = sd.get(nm);
                    if (d.inst[n].inv[q]) got = ~got;
                    if (sd.has(nm + "_0") && sd.get(nm + "_0").u64() != (got.u64() & 1)) c.fail("behaviour", nm + "_0" + log + "\n" + c.sample + text);
                    for (uint32_t e = 0; e < g.n; e++)
                        if (is[n].known[q][e] && !(got.slice(e * g.w, g.w) == BV(g.w, is[n].v[q][e])))
                            c.fail("behaviour", nm + "[" + std::to_string(e) + "] is " + got.slice(e * g.w, g.w).str() + " instead of " + std::to_string(is[n].v[q][e]) + log + "\n" + c.sample + text);
                }
                for (size_t z = 0; z < is[n].x.size(); z++) {
                    auto nm = "u" + std::to_string(n) + "_" + std::to_string(z) + "_y";
                    auto got = sd.get(nm);
                    if (is[n].yk[z] && !(got == BV(d.xw, is[n].y[z]))) c.fail("behaviour", nm + " is " + got.str() + " instead of " + std::to_string(is[n].y[z]) + log + "\n" + c.sample + text);
                }
            }
        };
        sd.poke("clk", BV(1, 0));
        pins(false);
        compare();
        for (int r = 0; r < 4; r++) {
            if (c.src.flip()) pins(true);
            compare();
            log += " clock";
            edge();
            sd.poke("clk", BV(1, 1));
            compare();
            sd.poke("clk", BV(1, 0));
        }
    } catch (const sv::Error &e) {
        c.fail("text", std::string(e.what()) + "\n" + c.sample + text);
    }
    int kids = 0;
    for (auto const &i : d.inst) kids = std::max(kids, (int)i.kids.size());
    c.nontrivial = kids > 1;
    if (d.inst.size() > 1) c.label("several instances");
    for (auto const &f : d.def)
        for (auto const &q : f.c)
            if (q.wrapped) c.label("passed on");
}
pbt::Reg r18({"P18", "several modules share an interface", p18, 40000, 600000, {}, {}});
}  // namespace
