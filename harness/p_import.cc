// P16 importing Verilog modules
#include <fstream>
#include <functional>

#include "expr.hh"
#include "generator.hh"
#include "pass.hh"
#include "port.hh"
#include "rdl.hh"
#include "stmt.hh"
#include "sv.hh"
using namespace rdl;
namespace k = kratos;

namespace {
struct P {
    std::string name;
    int dir;  // 0 input, 1 output, 2 inout
    uint32_t w = 1, low = 0;
    bool sgn = false;
    int type = -1;  // index of what is set
    size_t use = 0;  // other inputs
    int op = 0;
};
struct Mod {
    std::string name;
    std::vector<P> p;
};
const char *dirs[] = {"input", "output", "inout"};

struct W {
    pbt::Case &c;
    pbt::Src &s;
    std::string o;
    explicit W(pbt::Case &c) : c(c), s(c.src) {}
    // what can be between two words
    std::string sp(bool must = true) {
        if (!s.chance(1, 4)) return must ? " " : "";
        static const char *k[] = {"\n", "  ", "\t", "\n\n    ", " /* input z */ ", " // output y, x;\n", "\n// endmodule\n", " /* module q (input a); */ ", " /* ) ; */", " // it's [ (\n"};
        return k[s.draw(10)];
    }
    std::string range(const P &p) {
        if (p.w == 1 && !p.low && s.chance(3, 4)) return "";
        auto r = "[" + sp(false) + std::to_string(p.low + p.w - 1) + sp(false) + ":" + sp(false) + std::to_string(p.low) + sp(false) + "]";
        return r;
    }
    // direction, type and range
    std::string head(const P &p, const std::string &range) {
        std::string r = dirs[p.dir];
        static const char *in[] = {"", "", "wire", "logic"}, *out[] = {"", "reg", "wire", "logic"};
        auto t = p.dir == 2 ? std::string(s.flip() ? "wire" : "") : std::string(p.dir ? out[s.draw(4)] : in[s.draw(4)]);
        if (!t.empty()) r += sp() + t;
        if (p.sgn) r += sp() + "signed";
        else if (s.chance(1, 12)) r += sp() + "unsigned";
        if (!range.empty()) r += sp(false) + range;
        return r;
    }
    void module(const Mod &m) {
        bool ansi = s.flip();
        o += "module" + sp() + m.name;
        if (s.chance(1, 6)) o += sp(false) + "#(parameter W = (1 + 2), parameter input_w = 3)";
        o += sp(false) + "(";
        if (ansi) {
            for (size_t i = 0; i < m.p.size(); i++) {
                auto const &p = m.p[i];
                o += sp(false);
                if (s.chance(1, 12)) o += "(* keep = \"input q\" *)" + sp(false);
                // the direction and width can be those of the last one
                if (i && p.dir == m.p[i - 1].dir && p.w == m.p[i - 1].w && p.low == m.p[i - 1].low && p.sgn == m.p[i - 1].sgn && s.flip()) o += p.name;
                else o += head(p, range(p)) + sp() + p.name;
                if (i + 1 < m.p.size()) o += sp(false) + ",";
            }
            o += sp(false) + ");\n";
        } else {
            std::vector<size_t> order;
            for (size_t i = 0; i < m.p.size(); i++) {
                o += (i ? "," : "") + sp(false) + m.p[i].name;
                order.push_back(i);
            }
            o += sp(false) + ");\n";
            s.shuffle(order);
            for (size_t i = 0; i < order.size();) {
                auto const &p = m.p[order[i]];
                if (s.chance(1, 8)) o += "  parameter input_x = 4;\n";
                if (s.chance(1, 8)) o += "  wire [2:0] n" + std::to_string(i) + ";\n";
                o += head(p, range(p)) + sp() + p.name;
                for (i++; i < order.size(); i++) {
                    auto const &q = m.p[order[i]];
                    if (q.dir != p.dir || q.w != p.w || q.low != p.low || q.sgn != p.sgn || !s.flip()) break;
                    o += sp(false) + "," + sp(false) + q.name;
                }
                o += sp(false) + ";\n";
            }
        }
        // the body
        for (int n = s.draw(4); n > 0; n--) {
            static const char *k[] = {"// input comment;\n", "reg [7:0] output_value;\n", "function [3:0] f;\n  input [3:0] arg;\n  input b;\n  f = arg;\nendfunction\n",
                                      "task t;\n  output x;\n  x = 1;\nendtask\n", "always @(*) begin\n end\n", "initial $display(\"endmodule input u;\\\" module\");\n",
                                      "/* output [3:0] w; endmodule */\n", "sub u0 (.output_a(inner), .b(input_b));\n", "`define X input y\n"};
            o += k[s.draw(9)];
        }
        o += "endmodule" + std::string(s.flip() ? "\n" : " // " + m.name + "\n");
    }
};

void p16(pbt::Case &c) {
    auto &s = c.src;
    std::vector<Mod> ms;
    static const char *names[] = {"child", "child1", "ch", "child_", "_child", "module1", "input_mod", "achild", "Child"};
    static const char *pnames[] = {"a", "b", "in_a", "input_a", "output_", "logic1", "wire_x", "A", "_z", "x$1", "inputs", "signed_a", "p0", "p1", "data", "clk", "rst_n", "valid"};
    int nm = 1 + s.draw(3);
    std::vector<std::string> nn(names, names + 9);
    s.shuffle(nn);
    static const k::PortType types[] = {k::PortType::Clock, k::PortType::AsyncReset, k::PortType::Reset, k::PortType::ClockEnable, k::PortType::Data};
    for (int i = 0; i < nm; i++) {
        Mod m;
        m.name = nn[i];
        std::vector<std::string> pn(pnames, pnames + 18);
        s.shuffle(pn);
        int np = 1 + s.draw(7);
        for (int q = 0; q < np; q++) {
            P p;
            p.name = pn[q];
            p.dir = s.chance(1, 10) ? 2 : s.draw(2);
            if (q && s.chance(1, 2)) {
                auto const &z = m.p[q - 1];
                if (s.chance(2, 3)) p.dir = z.dir;
                p.w = z.w, p.low = z.low, p.sgn = z.sgn;
            } else {
                p.w = s.chance(1, 3) ? 1 : 1 + s.draw(s.chance(1, 8) ? 200 : 16);
                if (s.chance(1, 8)) p.low = s.draw(9);
                p.sgn = s.chance(1, 6);
            }
            if (p.w == 1 && p.dir == 0 && !p.sgn && s.chance(1, 4)) p.type = s.draw(5);
            m.p.push_back(p);
        }
        ms.push_back(m);
    }
    int at = s.draw(nm);
    W w(c);
    for (int i = 0; i < nm; i++) {
        if (s.chance(1, 4)) w.o += "// module " + ms[at].name + " (input a);\n";
        if (s.chance(1, 8)) w.o += "`timescale 1ns/1ps\n";
        w.module(ms[i]);
    }
    if (s.chance(1, 60)) w.o += "module big;\n" + std::string(200000, ' ') + "endmodule\n";
    auto &m = ms[at];
    c.sample = w.o.size() < 20000 ? w.o : w.o.substr(0, 3000);
    auto dir = pbt::scratch_dir();
    auto file = dir + "/import.sv", lib = dir + "/lib.sv";
    std::ofstream(file) << w.o;
    std::ofstream(lib) << "// nothing\n";
    std::map<std::string, k::PortType> pt;
    for (auto const &p : m.p)
        if (p.type >= 0) pt[p.name] = types[p.type];
    // what has to be refused
    {
        k::Context ctx;
        auto refused = [&](const char *what, const std::string &f, const std::string &n, const std::vector<std::string> &l, const std::map<std::string, k::PortType> &t) {
            try {
                k::Generator::from_verilog(&ctx, f, n, l, t);
            } catch (const std::exception &) {
                return;
            }
            c.fail("accepted", std::string(what) + "\n" + c.sample);
        };
        switch (s.draw(8)) {
            case 0: refused("no such module", file, "chil", {}, {}); break;
            case 1: refused("no such file", dir + "/none.sv", m.name, {}, {}); break;
            case 2: {
                std::vector<std::string> l;
                for (int n = s.draw(4); n > 0; n--) l.push_back(s.flip() ? lib : file);
                l.insert(l.begin() + s.draw(l.size() + 1), dir + "/none.sv");
                refused("no such library", file, m.name, l, {});
                break;
            }
            case 3: refused("no such port", file, m.name, {}, {{"zz", k::PortType::Clock}}); break;
            default: break;
        }
    }
    k::Context ctx;
    k::Generator *g = nullptr;
    try {
        g = &k::Generator::from_verilog(&ctx, file, m.name, s.flip() ? std::vector<std::string>{lib} : std::vector<std::string>{}, pt);
    } catch (const std::exception &e) {
        c.fail("import", std::string(e.what()) + "\n" + m.name + "\n" + c.sample);
    }
    std::set<std::string> want, got;
    for (auto const &p : m.p)
        want.insert(std::string(dirs[p.dir]) + " " + p.name + " " + std::to_string(p.w) + (p.sgn ? " signed" : "") + " type " + std::to_string((int)(p.type >= 0 ? types[p.type] : k::PortType::Data)));
    for (auto const &n : g->get_port_names()) {
        auto p = g->get_port(n);
        if (!p || p->name != n || p->generator() != g) c.fail("ports", "port " + n + "\n" + c.sample);
        got.insert(std::string(p->port_direction() == k::PortDirection::In ? "input" : p->port_direction() == k::PortDirection::Out ? "output" : "inout") + " " + n + " " + std::to_string(p->width()) + (p->is_signed() ? " signed" : "") + " type " + std::to_string((int)p->port_type()));
        if (p->size().size() != 1 || p->size()[0] != 1) c.fail("ports", "array " + n + "\n" + c.sample);
    }
    auto list = [](const std::set<std::string> &x) {
        std::string r;
        for (auto const &q : x) r += q + "\n";
        return r;
    };
    if (want != got) c.fail("ports", "imported\n" + list(got) + "instead of\n" + list(want) + "from " + m.name + "\n" + c.sample);
    if (!g->external()) c.fail("external", c.sample);
    c.nontrivial = m.p.size() > 1;
    for (auto const &p : m.p)
        if (p.dir == 2) return;
    c.label("used");
    // used in a design
    auto &top = ctx.generator("top");
    int copies = 1 + s.draw(2);
    std::vector<k::Generator *> inst{g};
    std::string ref = "module " + m.name + " (";
    std::vector<size_t> ins;
    for (size_t i = 0; i < m.p.size(); i++)
        if (m.p[i].dir == 0) ins.push_back(i);
    for (size_t i = 0; i < m.p.size(); i++) {
        auto &p = m.p[i];
        ref += std::string(i ? ", " : "") + dirs[p.dir] + " logic " + (p.sgn ? "signed " : "") + "[" + std::to_string(p.low + p.w - 1) + ":" + std::to_string(p.low) + "] " + p.name;
        if (p.dir == 1) p.use = ins.empty() ? 0 : s.pick(ins), p.op = s.draw(3);
    }
    ref += ");\n";
    for (auto const &p : m.p)
        if (p.dir == 1) ref += "assign " + p.name + " = " + (ins.empty() ? "1" : std::string(p.op == 1 ? "~" : "") + m.p[p.use].name + (p.op == 2 ? " + 1" : "")) + ";\n";
    ref += "endmodule\n";
    std::vector<std::pair<std::string, std::pair<int, size_t>>> outs, pins;
    std::string text;
    try {
        for (int q = 1; q < copies; q++) inst.push_back(&k::Generator::from_verilog(&ctx, file, m.name, {}, pt));
        for (int q = 0; q < copies; q++) {
            top.add_child_generator("u" + std::to_string(q), *inst[q]);
            for (size_t i = 0; i < m.p.size(); i++) {
                auto const &p = m.p[i];
                auto n = "x" + std::to_string(q) + "_" + std::to_string(i);
                auto port = inst[q]->get_port(p.name);
                auto &x = top.port(p.dir ? k::PortDirection::Out : k::PortDirection::In, n, p.w, 1, p.type >= 0 ? types[p.type] : k::PortType::Data, p.sgn);
                if (p.dir) top.add_stmt(x.assign(*port));
                else top.add_stmt(port->assign(x));
                (p.dir ? outs : pins).push_back({n, {q, i}});
            }
        }
        text = join(s.flip() ? default_flow(&top) : plain_flow(&top));
    } catch (const std::exception &e) {
        c.fail("use", std::string(e.what()) + "\n" + c.sample);
    }
    try {
        sv::Unit u;
        sv::parse(text, u);
        for (auto const &[n, md] : u.modules)
            if (n != "top") c.fail("text", "module " + n + " is written\n" + c.sample + text);
        if (!u.modules.count("top")) c.fail("text", "no top\n" + c.sample + text);
        sv::parse(ref, u);
        sv::Design d(u, "top");
        for (auto const &l : d.lint())
            if (l.find("portwidth") == 0 || l.find("unconnected") == 0 || l.find("noport") == 0) c.fail("text", l + "\n" + c.sample + text);
        for (int r = 0; r < 3; r++) {
            std::map<std::pair<int, size_t>, BV> v;
            for (auto const &[n, q] : pins) {
                BV b(m.p[q.second].w, 0);
                for (uint32_t i = 0; i < b.w; i += 16) b.insert(i, BV(std::min(16u, b.w - i), s.bits(16)));
                v[q] = b;
                d.set(n, b);
            }
            d.settle();
            for (auto const &[n, q] : outs) {
                auto const &p = m.p[q.second];
                BV e(p.w, 1);
                if (!ins.empty()) {
                    auto const &ip = m.p[p.use];
                    auto in = v.at({q.first, p.use});
                    uint32_t cw = std::max({ip.w, p.w, p.op == 2 ? 32u : 0u});
                    e = in.resize(cw, ip.sgn);
                    if (p.op == 1) e = ~e;
                    if (p.op == 2) e = BV::add(e, BV(cw, 1));
                    e = e.resize(p.w, false);
                }
                auto x = d.get(n);
                if (!(x == e)) c.fail("behaviour", n + " is " + x.str() + " instead of " + e.str() + "\n" + c.sample + text + ref);
            }
        }
    } catch (const sv::Error &e) {
        c.fail("text", std::string(e.what()) + "\n" + c.sample + text);
    }
}
pbt::Reg r16({"P16", "the module has several ports", p16, 20000, 400000, {}, {}});
}  // namespace
