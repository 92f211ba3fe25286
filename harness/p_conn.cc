// P12 connectivity: floating ports are reported, zero_inputs and stubs are driven with zeros
#include "codegen.hh"
#include "except.hh"
#include "context.hh"
#include "rdl.hh"
#include "stmt.hh"
#include "transform.hh"
using namespace kratos;

namespace {
struct P {
    std::string name;
    uint32_t w;
    std::vector<uint32_t> dims;  // {1}: no array
    bool sgn, packed, expl;
    uint32_t count() const {
        uint32_t n = 1;
        for (auto d : dims) n *= d;
        return n;
    }
    uint32_t width() const { return w * count(); }
    bool array() const { return count() > 1 || expl; }
};
enum MK { Leaf, Host, Stub, Ext };
struct M {
    std::string name;
    MK k = Leaf;
    bool zero = false;  // attribute
    std::vector<P> ports;
    std::vector<int> kids;
    std::vector<std::vector<BV>> mask;     // per child and port: bits of the child's input that are driven
    std::vector<BV> out_mask;              // per port: bits of the output that are driven
    Generator *g = nullptr;
    std::vector<Var *> in, out;
};
struct World {
    pbt::Case &c;
    pbt::Src &s;
    Context ctx;
    std::vector<M> mods;
    std::ostringstream log;
    bool procedural = false, dyn = false;
    explicit World(pbt::Case &c_) : c(c_), s(c_.src) {}

    P port(int i) {
        P p;
        p.name = "p" + std::to_string(i);
        p.w = 1 + (uint32_t)s.draw(9);
        p.dims = {1};
        if (s.flip()) p.dims = {2 + (uint32_t)s.draw(3)};
        if (s.chance(1, 5)) p.dims = {2 + (uint32_t)s.draw(2), 2 + (uint32_t)s.draw(2)};
        p.sgn = s.chance(1, 4);
        p.packed = s.flip() || p.dims[0] == 1;
        p.expl = false;
        return p;
    }
    int module(int level) {
        int id = (int)mods.size();
        mods.emplace_back();
        M m;
        m.name = "m" + std::to_string(id);
        m.k = level == 0 ? Host : (MK)s.draw(4);
        if (level >= 2 && m.k == Host) m.k = Leaf;
        if (level == 0) m.name = "top";
        m.zero = m.k == Host && s.chance(2, 3);
        if (m.k == Host) {
            int n = 1 + (int)s.draw(2);
            for (int i = 0; i < n; i++) m.kids.push_back(module(level + 1));
            int j = 0;
            for (int k : m.kids)
                for (auto p : mods[k].ports) {
                    p.name = "p" + std::to_string(j++);
                    m.ports.push_back(p);
                }
        } else {
            int n = 1 + (int)s.draw(3);
            for (int i = 0; i < n; i++) m.ports.push_back(port(i));
        }
        mods[id] = m;
        return id;
    }
    void make(M &m) {
        m.g = &ctx.generator(m.name);
        for (auto const &p : m.ports) {
            for (int o = 0; o < 2; o++) {
                auto &v = m.g->port(o ? PortDirection::Out : PortDirection::In, (o ? "o_" : "i_") + p.name, p.w, p.dims, PortType::Data, p.sgn);
                v.set_is_packed(p.packed);
                (o ? m.out : m.in).push_back(&v);
            }
        }
        if (m.zero) {
            auto a = std::make_shared<Attribute>();
            a->type_str = "zero_inputs";
            m.g->add_attribute(a);
        }
        if (m.k == Stub) m.g->set_is_stub(true);
        if (m.k == Ext) m.g->set_external(true);
    }
    // drives bits of l with the same bits of r
    void go(Generator *g, Var &l, Var &r, const P &p, size_t dim, uint32_t off, BV &mask, int density) {
        auto mark = [&](uint32_t lo, uint32_t n) {
            for (uint32_t i = 0; i < n; i++) mask.setbit(off + lo + i, true);
            log << "    " << l.handle_name() << "<" << lo + n - 1 << ":" << lo << ">\n";
        };
        auto add = [&](const std::shared_ptr<AssignStmt> &a) {
            if (procedural)
                g->combinational()->add_stmt(a);
            else
                g->add_stmt(a);
        };
        uint32_t inner = p.w;
        for (size_t i = dim + 1; i < p.dims.size(); i++) inner *= p.dims[i];
        bool scalar = dim == p.dims.size() || (p.dims.size() == 1 && p.dims[0] == 1);
        uint32_t whole = scalar ? p.w : inner * p.dims[dim];
        if (density == 0 || s.chance((uint64_t)density, 6)) {
            add(l.assign(r.shared_from_this(), AssignmentType::Blocking));
            mark(0, whole);
            return;
        }
        if (scalar) {
            uint32_t lo = 0;
            while (lo < p.w) {
                uint32_t n = 1 + (uint32_t)s.draw(p.w - lo);
                if (n == p.w) n = p.w > 1 ? p.w - 1 : 0;
                if (!n) break;
                if (s.draw(6) < (uint64_t)density + 2) {
                    add(l[std::make_pair(lo + n - 1, lo)].assign(r[std::make_pair(lo + n - 1, lo)].shared_from_this(), AssignmentType::Blocking));
                    mark(lo, n);
                }
                lo += n;
            }
            return;
        }
        uint32_t e = 0;
        while (e < p.dims[dim]) {
            uint32_t n = 1;
            if (s.chance(1, 3)) n = 1 + (uint32_t)s.draw(p.dims[dim] - e);
            if (n > 1 && n < p.dims[dim]) {
                if (s.flip()) {
                    add(l[std::make_pair(e + n - 1, e)].assign(r[std::make_pair(e + n - 1, e)].shared_from_this(), AssignmentType::Blocking));
                    mark(e * inner, n * inner);
                }
            } else {
                n = 1;
                if (s.draw(6) < (uint64_t)density + 2) go(g, l[e], r[e], p, dim + 1, off + e * inner, mask, density);
            }
            e += n;
        }
    }
    void wire(M &m) {
        Generator *g = m.g;
        m.out_mask.resize(m.ports.size());
        for (size_t i = 0; i < m.ports.size(); i++) m.out_mask[i] = BV(m.ports[i].width(), 0);
        int od = s.chance(1, 4) ? 4 : 0;  // mostly all outputs are driven
        if (m.k == Leaf) {
            for (size_t i = 0; i < m.ports.size(); i++) {
                procedural = s.chance(1, 4);
                go(g, *m.out[i], *m.in[i], m.ports[i], 0, 0, m.out_mask[i], od);
            }
            procedural = false;
            // an input only used as an index on the left is not driven by that
            for (size_t i = 0; i < m.ports.size(); i++) {
                auto const &p = m.ports[i];
                if (p.array() || p.w > 3 || !s.chance(1, 3)) continue;
                auto &a = g->var("arr" + std::to_string(i), 1, 1u << p.w);
                g->combinational()->add_stmt(a[m.in[i]->shared_from_this()].assign(constant(1, 1), AssignmentType::Blocking));
                log << "    arr" << i << "[" << m.in[i]->handle_name() << "] = 1\n";
            }
            // all elements are possibly driven through a variable index
            for (size_t i = 0; i < m.ports.size(); i++) {
                auto const &p = m.ports[i];
                if (p.dims.size() != 1 || p.dims[0] < 2 || m.out_mask[i].any() || !s.flip()) continue;
                auto &ix = g->var("ix" + std::to_string(i), p.dims[0] > 2 ? 2 : 1);
                auto &l = (*m.out[i])[ix.shared_from_this()];
                auto &r = (*m.in[i])[0];
                bool bit = p.w > 1 && s.flip();
                auto &lt = bit ? l[0] : l;
                g->combinational()->add_stmt(lt.assign((bit ? r[0] : r).shared_from_this(), AssignmentType::Blocking));
                for (uint32_t b = 0; b < p.width(); b++) m.out_mask[i].setbit(b, true);
                dyn = true;
                log << "    " << m.out[i]->handle_name() << "[ix]\n";
            }
        }
        if (m.k != Host) return;
        int dens = 1 + (int)s.draw(5);
        size_t j = 0;
        for (size_t q = 0; q < m.kids.size(); q++) {
            M &ch = mods[m.kids[q]];
            g->add_child_generator("u" + std::to_string(q), ch.g->shared_from_this());
            m.mask.emplace_back();
            for (size_t i = 0; i < ch.ports.size(); i++, j++) {
                m.mask[q].push_back(BV(ch.ports[i].width(), 0));
                go(g, *ch.in[i], *m.in[j], ch.ports[i], 0, 0, m.mask[q][i], dens);
                go(g, *m.out[j], *ch.out[i], m.ports[j], 0, 0, m.out_mask[j], od);
            }
        }
    }
    // what arrives at the outputs of a module when its inputs are all ones
    std::vector<BV> through(const M &m) {
        std::vector<BV> r;
        for (size_t i = 0; i < m.ports.size(); i++) {
            BV x(m.ports[i].width(), 0);
            if (m.k == Leaf)
                for (uint32_t b = 0; b < x.w; b++) x.setbit(b, true);
            r.push_back(x);
        }
        if (m.k == Host) {
            size_t j = 0;
            for (size_t q = 0; q < m.kids.size(); q++) {
                auto t = through(mods[m.kids[q]]);
                for (size_t i = 0; i < t.size(); i++, j++)
                    for (uint32_t b = 0; b < t[i].w; b++) r[j].setbit(b, t[i].bit(b) && m.mask[q][i].bit(b));
            }
        }
        return r;
    }
    // handle[bit] of everything that floats
    std::set<std::string> floating(bool zeroed) {
        std::set<std::string> r;
        for (auto const &m : mods) {
            if (m.k == Leaf || m.k == Host)
                for (size_t i = 0; i < m.ports.size(); i++)
                    for (uint32_t b = 0; b < m.ports[i].width(); b++)
                        if (!m.out_mask[i].bit(b)) r.insert(m.out[i]->handle_name() + "[" + std::to_string(b) + "]");
            if (m.k == Host && !(zeroed && m.zero))
                for (size_t q = 0; q < m.kids.size(); q++) {
                    auto const &ch = mods[m.kids[q]];
                    if (ch.k == Stub || ch.k == Ext) continue;
                    for (size_t i = 0; i < ch.ports.size(); i++)
                        for (uint32_t b = 0; b < ch.ports[i].width(); b++)
                            if (!m.mask[q][i].bit(b)) r.insert(ch.in[i]->handle_name() + "[" + std::to_string(b) + "]");
                }
        }
        return r;
    }
    void verify(const std::set<std::string> &fl, const std::string &when) {
        std::string r;
        try {
            verify_generator_connectivity(mods[0].g);
        } catch (const StmtException &e) {
            r = e.what();
        } catch (const std::exception &e) {
            c.fail("failed", when + ": " + e.what() + "\n" + log.str());
        }
        if (fl.empty()) c.check(r.empty(), "alarm", when + " everything is driven, but: " + r + "\n" + log.str());
        if (fl.empty()) return;
        c.check(!r.empty(), "missed", when + " " + *fl.begin() + " floats and nothing is reported\n" + log.str());
        auto e = r.find(" is a floating net");
        c.check(e != std::string::npos && fl.count(r.substr(0, e)), "wrong-net", when + " it says: " + r + "; " + *fl.begin() + " floats\n" + log.str());
    }
};

void p12(pbt::Case &c) {
    World W(c);
    W.module(0);
    for (auto &m : W.mods) W.make(m);
    for (auto &m : W.mods) {
        W.log << "  " << m.name << " " << (m.k == Leaf ? "leaf" : m.k == Host ? "host" : m.k == Stub ? "stub" : "external") << (m.zero ? " zero_inputs" : "") << ":";
        for (auto &p : m.ports) {
            W.log << " " << p.name << (p.sgn ? " signed" : "") << (p.packed ? "" : " unpacked") << " " << p.w;
            for (auto d : p.dims) W.log << "[" << d << "]";
        }
        W.log << "\n";
    }
    for (auto &m : W.mods) W.wire(m);
    auto *top = W.mods[0].g;
    c.sample = W.log.str();
    auto f0 = W.floating(false), f1 = W.floating(true);
    c.nontrivial = !f0.empty();
    if (f0.empty()) c.label("nothing floats");
    if (f1.size() < f0.size()) c.label("zeroed");
    W.verify(f0, "before zeroing,");
    try {
        zero_generator_inputs(top);
        zero_out_stubs(top);
    } catch (const std::exception &e) {
        c.fail("zero", std::string(e.what()) + "\n" + W.log.str());
    }
    W.verify(f1, "after zeroing,");
    // behaviour
    bool ext = false;
    for (auto &m : W.mods) ext |= m.k == Ext;
    if (ext || W.dyn || !f1.empty()) return;
    c.label("simulated");
    VerilogModule vm(top);
    std::string text;
    try {
        for (const char *p : {"fix_assignment_type", "verify_assignments", "check_mixed_assignment", "check_multiple_driver", "verify_generator_connectivity", "decouple_generator_ports",
                              "create_module_instantiation"})
            vm.pass_manager().add_pass(p);
        vm.run_passes();
        text = rdl::join(vm.verilog_src({}));
    } catch (const std::exception &e) {
        c.fail("compile", std::string(e.what()) + "\n" + W.log.str());
    }
    sv::Unit u;
    try {
        sv::parse(text, u);
        sv::Design D(u, "top", sv::Options{7, false});
        bool stub = false;  // its inputs may float
        for (auto &m : W.mods) stub |= m.k == Stub;
        for (auto const &l : D.lint()) c.check(stub && l.rfind("undriven", 0) == 0, "lint", l + "\n" + text);
        auto th = W.through(W.mods[0]);
        auto const &m = W.mods[0];
        for (int k = 0; k < 3; k++) {
            std::vector<BV> x;
            for (size_t i = 0; i < m.ports.size(); i++) {
                BV v(m.ports[i].width(), 0);
                for (uint32_t b = 0; b < v.w; b++) v.setbit(b, k == 0 || (c.src.next64() & 1));
                x.push_back(v);
                D.set("i_" + m.ports[i].name, v);
            }
            D.settle();
            for (size_t i = 0; i < m.ports.size(); i++) {
                BV want(x[i].w, 0);
                for (uint32_t b = 0; b < want.w; b++) want.setbit(b, x[i].bit(b) && th[i].bit(b));
                auto got = D.get("o_" + m.ports[i].name);
                c.check(got == want, "value", "o_" + m.ports[i].name + " is " + got.str() + " and not " + want.str() + " for " + x[i].str() + "\n" + W.log.str() + text);
            }
        }
    } catch (const sv::Error &e) {
        c.fail("text:" + std::string(e.kind), std::string(e.what()) + "\n" + text);
    }
}
pbt::Reg r12({"P12", "some bit of a port floats", p12, 150000, 3000000, {}, {}});
}  // namespace
