// P15 clones and stubs of a module have its interface
#include "bv.hh"
#include "codegen.hh"
#include "context.hh"
#include "expr.hh"
#include "generator.hh"
#include "pass.hh"
#include "port.hh"
#include "rdl.hh"
#include "stmt.hh"
#include "sv.hh"
namespace k = kratos;

namespace {
struct P {
    uint32_t w = 1;
    std::vector<uint32_t> n{1};
    bool sgn = false, packed = true, expl = false, st = false;
    int wp = -1, np = -1;  // parameters of the width and the first dimension
    int wm = 1, wa = 0;    // width is wm * parameter + wa
    k::PortType type = k::PortType::Data;
    bool lone = false;  // an input that is not used
};
std::string shape(const k::Var &v, const k::Generator *g) {
    std::string r = std::to_string((int)v.type()) + " width " + std::to_string(v.var_width()) + (v.is_signed() ? " signed" : "") + (v.is_packed() ? " packed" : "") + (v.explicit_array() ? " explicit" : "");
    for (auto n : v.size()) r += " x" + std::to_string(n);
    if (v.width_param()) r += " param " + v.width_param()->to_string();
    for (uint32_t i = 0; i < v.size().size(); i++)
        if (v.get_size_param(i)) r += " size param " + v.get_size_param(i)->to_string();
    if (v.is_struct()) r += " struct";
    if (v.generator() != g) r += " elsewhere";
    if (v.type() == k::VarType::PortIO) {
        auto const &p = static_cast<const k::Port &>(v);
        r += " port " + std::to_string((int)p.port_direction()) + " " + std::to_string((int)p.port_type());
        if (p.active_high()) r += *p.active_high() ? " high" : " low";
    }
    return r;
}
std::string shapes(k::Generator &g) {
    std::string r;
    for (auto const &n : g.get_port_names()) r += n + ": " + shape(*g.get_port(n), &g) + "\n";
    for (auto const &[n, p] : g.get_params()) {
        r += n + " = " + std::to_string(p->value()) + " width " + std::to_string(p->width()) + (p->is_signed() ? " signed" : "");
        if (p->get_initial_value()) r += " at first " + std::to_string(*p->get_initial_value());
        r += "\n";
    }
    return r;
}
void p15(pbt::Case &c) {
    auto &s = c.src;
    std::vector<P> ps(1 + s.draw(4));
    int np = s.draw(3);
    std::vector<int64_t> val, initial;
    std::vector<bool> set;
    for (int i = 0; i < np; i++) {
        set.push_back(!s.chance(1, 5));
        val.push_back(set[i] ? 1 + s.draw(6) : 1);
        initial.push_back(s.chance(1, 2) ? s.flip() ? val[i] : 1 + s.draw(6) : 0);
    }
    bool stp = false;
    for (auto &p : ps) {
        static const std::vector<uint32_t> ws = {1, 2, 4, 8, 5};
        p.w = s.pick(ws);
        p.sgn = s.chance(1, 4);
        if (s.chance(1, 3)) {
            p.n[0] = 1 + s.draw(4);
            if (s.chance(1, 3)) p.n.push_back(1 + s.draw(3));
            p.expl = p.n.size() == 1 && p.n[0] == 1;
            p.packed = s.flip();
        }
        if (s.chance(1, 8)) p.st = true, p.w = 6, p.sgn = false, p.packed = true, p.expl = p.n.size() == 1 && p.n[0] == 1 && p.expl, stp = true;
        if (p.st) p.n = {s.chance(1, 3) ? 1 + (uint32_t)s.draw(3) : 1}, p.expl = false;
        if (np && !p.st && s.chance(1, 2)) {
            p.wp = s.draw(np);
            if (s.chance(1, 3)) p.wm = 2;
            if (s.chance(1, 3)) p.wa = 1 + s.draw(2);
            p.w = p.wm * val[p.wp] + p.wa;
        }
        if (np && !p.st && s.chance(1, 4)) {
            p.np = s.draw(np);
            p.n[0] = val[p.np], p.expl = p.expl || (p.n.size() == 1 && p.n[0] == 1);
        }
        if (s.chance(1, 8)) {
            static const k::PortType types[] = {k::PortType::Clock, k::PortType::AsyncReset, k::PortType::ClockEnable};
            p = P();
            p.lone = true, p.type = types[s.draw(3)];
        }
    }
    int copies = 1 + s.draw(3);
    std::string text, stub, own;
    std::vector<std::vector<int64_t>> vals;
    bool params_set = false;
    std::ostringstream o;
    for (size_t i = 0; i < ps.size(); i++) {
        auto const &p = ps[i];
        o << "port " << i << ": width " << p.w;
        if (p.wp >= 0) o << " = " << p.wm << " * P" << p.wp << " + " << p.wa;
        for (auto n : p.n) o << " x" << n;
        if (p.np >= 0) o << " first is P" << p.np;
        o << (p.sgn ? " signed" : "") << (p.packed ? "" : " unpacked") << (p.expl ? " explicit" : "") << (p.st ? " struct" : "") << (p.lone ? " lone" : "") << " type " << (int)p.type << "\n";
    }
    for (int i = 0; i < np; i++) o << "P" << i << " is " << val[i] << (set[i] ? "" : " (not set)") << (initial[i] ? " at first " + std::to_string(initial[i]) : std::string()) << "\n";
    c.sample = o.str();
    auto top_n = [&](int inst, int i, bool in) { return std::string(in ? "a" : "o") + std::to_string(i) + "_" + std::to_string(inst); };
    auto st = std::make_shared<k::PackedStruct>("pair", std::vector<std::tuple<std::string, uint32_t, bool>>{{"lo", 2, false}, {"hi", 4, false}});
    try {
        k::Context ctx;
        auto &m = ctx.generator("child");
        std::vector<k::Param *> par;
        for (int i = 0; i < np; i++) {
            auto &p = m.parameter("P" + std::to_string(i), 8);
            if (initial[i]) p.set_initial_value(initial[i]);
            par.push_back(&p);
        }
        auto make = [&](k::PortDirection dir, const std::string &n, const P &p) -> k::Port & {
            if (p.st) return m.port_packed(dir, n, st, p.n);
            auto &q = m.port(dir, n, p.w, p.n, p.type, p.sgn);
            if (p.expl) q.set_explicit_array(true);
            if (!p.packed) q.set_is_packed(false);
            if (p.wp >= 0) {
                k::Var *e = par[p.wp];
                if (p.wm > 1) e = &(*e * k::constant(p.wm, 8));
                if (p.wa) e = &(*e + k::constant(p.wa, 8));
                q.set_width_param(e);
            }
            if (p.np >= 0) q.set_size_param(0, par[p.np]);
            if (p.lone && s.flip()) q.set_active_high(s.flip());
            return q;
        };
        for (int i = 0; i < np; i++)
            if (set[i]) par[i]->set_value(val[i]);
        for (size_t i = 0; i < ps.size(); i++) {
            auto &a = make(k::PortDirection::In, "a" + std::to_string(i), ps[i]);
            if (ps[i].lone) continue;
            auto &b = make(k::PortDirection::Out, "o" + std::to_string(i), ps[i]);
            m.add_stmt(b.assign(a));
        }
        auto before = shapes(m);
        auto &top = ctx.generator("top");
        std::vector<std::shared_ptr<k::Generator>> inst{m.shared_from_this()};
        for (int i = 1; i <= copies; i++) {
            auto const &from = s.chance(1, 4) ? s.pick(inst) : inst[0];
            auto was = shapes(*from);
            auto x = from->clone();
            c.check(x.get() != from.get(), "clone", "is the same");
            if (shapes(*x) != was) c.fail("shape", "the clone has\n" + shapes(*x) + "instead of\n" + was + c.sample);
            inst.push_back(x);
        }
        vals.assign(inst.size(), {});
        for (size_t i = 0; i < inst.size(); i++) {
            for (int q = 0; q < np; q++) vals[i].push_back(inst[i]->get_param("P" + std::to_string(q))->value());
            if (!i) continue;
            for (int q = 0; q < np; q++) {
                if (!s.flip()) continue;
                vals[i][q] = 1 + s.draw(6);
                inst[i]->get_param("P" + std::to_string(q))->set_value(vals[i][q]);
                params_set = true;
            }
            if (shapes(m) != before) c.fail("original", "has\n" + shapes(m) + "instead of\n" + before + c.sample);
        }
        for (size_t i = 0; i < inst.size(); i++) {
            top.add_child_generator("inst" + std::to_string(i), inst[i]);
            for (size_t q = 0; q < ps.size(); q++) {
                for (bool in : {true, false}) {
                    if (ps[q].lone && !in) continue;
                    auto x = inst[i]->get_port((in ? "a" : "o") + std::to_string(q));
                    auto w = ps[q].wp >= 0 ? ps[q].wm * vals[i][ps[q].wp] + ps[q].wa : ps[q].w;
                    auto n = ps[q].n;
                    if (ps[q].np >= 0) n[0] = vals[i][ps[q].np];
                    if (x->var_width() != w || x->size() != n) c.fail("follow", "port " + std::to_string(q) + " of clone " + std::to_string(i) + ": " + shape(*x, inst[i].get()) + "\n" + c.sample);
                    k::Port *t;
                    if (ps[q].st) {
                        // also like the port
                        if (s.flip()) t = &top.port_packed(x->port_direction(), top_n(i, q, in), st, n);
                        else t = &top.port(dynamic_cast<const k::PortPackedStruct &>(*x), top_n(i, q, in));
                    } else {
                        t = &top.port(x->port_direction(), top_n(i, q, in), w, n, x->port_type(), x->is_signed());
                        t->set_is_packed(x->is_packed());
                        t->set_explicit_array(x->explicit_array());
                    }
                    if (in) top.add_stmt(x->assign(t->shared_from_this()));
                    else top.add_stmt(t->assign(x));
                }
            }
        }
        stub = k::create_stub(&m);
        if (shapes(m) != before) c.fail("original", "after the stub\n" + shapes(m) + "instead of\n" + before + c.sample);
        k::fix_assignment_type(&top);
        if (s.flip()) k::verify_generator_connectivity(&top);
        if (s.flip()) k::decouple_generator_ports(&top);
        k::create_module_instantiation(&top);
        if (s.flip()) {
            k::hash_generators_sequential(&top);
            k::uniquify_generators(&top);
        }
        auto all = k::generate_verilog(&top, {});
        if (all.size() != 2) c.fail("modules", std::to_string(all.size()) + " modules\n" + c.sample);
        for (auto const &[n, x] : all) text += x;
        own = all.at("child");
        if (stp) {
            std::string def = "typedef struct packed {\n  logic [3:0] hi;\n  logic [1:0] lo;\n} pair;\n";
            text = def + text, own = def + own;
        }
    } catch (const pbt::Failure &) {
        throw;
    } catch (const std::exception &e) {
        c.fail("exception", std::string(e.what()) + "\n" + c.sample);
    }
    try {
        sv::Unit u, us;
        sv::parse(text, u);
        sv::Options so;
        so.init_seed = 1 + s.draw(100);
        sv::Design d(u, "top", so);
        if (!d.lint().empty()) c.fail("text", d.lint()[0] + "\n" + text + c.sample);
        for (size_t i = 0; i < vals.size(); i++)
            for (size_t q = 0; q < ps.size(); q++) {
                if (ps[q].lone) continue;
                auto in = top_n(i, q, true), out = top_n(i, q, false);
                BV v(d.width(in), s.bits(d.width(in)));
                d.poke(in, v);
                if (d.get(out).str() != v.str()) c.fail("behaviour", out + " is " + d.get(out).str() + " instead of " + v.str() + "\n" + text + c.sample);
            }
        // the stub, with the same values
        sv::parse(stub, us);
        sv::Options oo, os;
        for (int i = 0; i < np; i++) oo.params["P" + std::to_string(i)] = BV(8, val[i]);
        sv::Design a(u, "child", oo), b(us, "child", os);
        auto pa = a.ports(), pb = b.ports();
        if (pa != pb) c.fail("stub", "other ports\n" + stub + own + c.sample);
        for (auto const &[dir, n] : pa) {
            auto x = a.type_of(n), y = b.type_of(n);
            auto flat = [](const sv::Type &t) {
                std::string r = std::to_string(t.width()) + (t.sgn ? " signed" : "") + " packed";
                if (!t.st)
                    for (auto const &[h, l] : t.packed) r += " " + std::to_string(h) + ":" + std::to_string(l);
                r += " unpacked";
                for (auto const &[h, l] : t.unpacked) r += " " + std::to_string(h) + ":" + std::to_string(l);
                return r;
            };
            auto fx = flat(x), fy = flat(y);
            if (x.st ? x.width() != y.width() || x.unpacked != y.unpacked : fx != fy) {
                // a width of one bit may or may not be written
                if (x.st || x.width() != y.width() || x.unpacked.size() != y.unpacked.size() || x.sgn != y.sgn || np == 0) c.fail("stub", n + " is " + fy + " instead of " + fx + "\n" + stub + own + c.sample);
            }
        }
        std::string body = stub.substr(stub.find(");") + 2);
        if (body.find("assign") != std::string::npos || body.find("always") != std::string::npos) c.fail("stub", "has a body\n" + stub);
    } catch (const sv::Error &e) {
        c.fail("text", std::string(e.what()) + "\n" + text + stub + c.sample);
    }
    if (params_set) c.label("other values");
    if (stp) c.label("struct");
    c.nontrivial = params_set || ps.size() > 1;
}
pbt::Reg r15({"P15", "there is more than one pair of ports, or a parameter of a clone has another value", p15, 100000, 3000000, {}, {}});
}  // namespace
