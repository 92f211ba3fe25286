// P30 memories built of smaller ones are memories
#include "codegen.hh"
#include "context.hh"
#include "expr.hh"
#include "generator.hh"
#include "hash.hh"
#include "bv.hh"
#include "lib.hh"
#include "pass.hh"
#include "port.hh"
#include "rdl.hh"
#include "stmt.hh"
#include "sv.hh"
namespace k = kratos;

namespace {
void p30(pbt::Case &c) {
    auto &s = c.src;
    uint32_t aw = 1 + s.draw(3), dw = 1 + s.draw(s.chance(1, 4) ? 40 : 8);
    bool mask = s.flip();
    std::vector<uint32_t> banks;
    for (int q = s.chance(1, 6) ? 0 : s.chance(1, 5) ? 2 : 1; q > 0; q--) {
        static const std::vector<uint32_t> ns = {2, 4, 2, 3, 8, 5, 6};
        banks.push_back(s.pick(ns));
    }
    std::map<std::string, std::string> nm;
    for (auto n : {"CLK", "Q", "CEB", "WEB", "A", "D", "BWEB"}) nm[n] = s.chance(1, 4) ? "my_" + std::string(n) : n;
    bool inside = s.flip();
    c.sample = "address " + std::to_string(aw) + ", data " + std::to_string(dw) + (mask ? ", mask" : "") + ", banks";
    for (auto b : banks) c.sample += " " + std::to_string(b);
    for (auto const &[a, b] : nm)
        if (a != b) c.sample += ", " + a + " is " + b;
    c.sample += inside ? ", as an instance" : "";
    std::string text, top;
    uint32_t words = 1u << aw, full_aw = aw;
    try {
        k::Context ctx;
        auto mem = std::make_shared<k::asic::SinglePortSRAM>(&ctx, "sram", aw, dw, mask);
        auto names = [&](k::asic::SinglePortSRAM &m) {
            m.set_clock_name(nm["CLK"]);
            m.set_output_data_name(nm["Q"]);
            m.set_chip_enable_name(nm["CEB"]);
            m.set_write_enable_name(nm["WEB"]);
            m.set_addr_name(nm["A"]);
            m.set_input_data_name(nm["D"]);
            m.set_partial_write_mask_name(nm["BWEB"]);
        };
        names(*mem);
        std::vector<std::shared_ptr<k::asic::SinglePortSRAM>> all{mem};
        for (auto b : banks) {
            uint32_t cap = mem->capacity();
            if (cap > 1 && s.chance(1, 8)) {
                bool refused = false;
                try {
                    k::asic::SinglePortSRAM x(&ctx, "wrong", cap * b + 1 + s.draw(cap - 1), mem);
                } catch (const std::exception &) {
                    refused = true;
                }
                c.check(refused, "accepted", "a capacity which is no multiple\n" + c.sample);
            }
            // the number of words is that of the address bits
            words = (1u << full_aw) * b;
            while ((1u << full_aw) < words) full_aw++;
            mem = std::make_shared<k::asic::SinglePortSRAM>(&ctx, "memory" + std::to_string(all.size()), cap * b, mem);
            all.push_back(mem);
            if (b & (b - 1)) break;  // addresses that do not exist
        }
        c.check(mem->addr_width() == full_aw && mem->data_width() == dw, "shape", "address " + std::to_string(mem->addr_width()) + " data " + std::to_string(mem->data_width()) + "\n" + c.sample);
        k::Generator *t = mem.get();
        if (inside) {
            t = &ctx.generator("top");
            t->add_child_generator("inst", mem);
            for (auto const &n : mem->get_port_names()) {
                auto p = mem->get_port(n);
                auto &q = t->port(*p);
                if (p->port_direction() == k::PortDirection::In) t->add_stmt(p->assign(q.shared_from_this()));
                else t->add_stmt(q.assign(p));
            }
        }
        top = t->name;
        k::fix_assignment_type(t);
        k::verify_assignments(t);
        k::verify_generator_connectivity(t);
        if (s.flip()) k::decouple_generator_ports(t);
        k::create_module_instantiation(t);
        if (s.flip()) k::hash_generators_parallel(t);
        else k::hash_generators_sequential(t);
        k::uniquify_generators(t);
        for (auto const &[n, x] : k::generate_verilog(t, {})) text += x;
    } catch (const pbt::Failure &) {
        throw;
    } catch (const std::exception &e) {
        c.fail("exception", std::string(e.what()) + "\n" + c.sample);
    }
    try {
        sv::Unit u;
        sv::parse(text, u);
        sv::Options so;
        so.init_seed = s.draw(1000);
        sv::Design d(u, top, so);
        if (!d.lint().empty()) c.fail("text", d.lint()[0] + "\n" + text + c.sample);
        for (auto const &[a, b] : nm)
            if (a != "BWEB" || mask) c.check(d.has(b), "names", "no " + b + "\n" + text + c.sample);
        std::string log;
        std::vector<BV> v(words, BV(dw, 0)), known(words, BV(dw, 0));
        BV q(dw, 0), qk(dw, 0);
        d.set(nm["CLK"], BV(1, 0));
        d.set(nm["CEB"], BV(1, 1));
        d.set(nm["WEB"], BV(1, 1));
        d.settle();
        int reads = 0, n = 10 + s.draw(60);
        std::vector<uint32_t> recent;
        for (int i = 0; i < n; i++) {
            // mostly a few addresses
            uint32_t a = !recent.empty() && s.chance(2, 3) ? s.pick(recent) : s.draw(1u << full_aw);
            recent.push_back(a);
            bool ce = !s.chance(1, 6), we = s.flip();
            BV x(dw, s.bits(dw)), m(dw, mask && s.chance(2, 3) ? s.bits(dw) : 0);
            log += "\n" + std::string(ce ? we ? "write" : "read" : "nothing") + " at " + std::to_string(a) + " data " + x.str() + (mask ? " mask " + m.str() : "");
            d.set(nm["A"], BV(full_aw, a));
            d.set(nm["D"], x);
            d.set(nm["CEB"], BV(1, !ce));
            d.set(nm["WEB"], BV(1, !we));
            if (mask) d.set(nm["BWEB"], m);
            d.settle();
            auto same = [&](const char *when) {
                auto got = d.get(nm["Q"]);
                for (uint32_t b = 0; b < dw; b++)
                    if (qk.bit(b) && got.bit(b) != q.bit(b)) c.fail("behaviour", "Q is " + got.str() + " instead of " + q.str() + " " + when + log + "\n" + text + c.sample);
            };
            same("before the edge");
            d.poke(nm["CLK"], BV(1, 1));
            if (ce && we) {
                qk = BV(dw, 0);
                if (a < words)
                    for (uint32_t b = 0; b < dw; b++)
                        if (!m.bit(b)) v[a].setbit(b, x.bit(b)), known[a].setbit(b, true);
            } else if (ce) {
                q = a < words ? v[a] : BV(dw, 0), qk = a < words ? known[a] : BV(dw, 0);
                for (uint32_t b = 0; b < dw; b++)
                    if (qk.bit(b)) {
                        reads++;
                        break;
                    }
            }
            same("after the edge");
            d.poke(nm["CLK"], BV(1, 0));
            same("after the other edge");
        }
        c.nontrivial = reads >= 2;
    } catch (const sv::Error &e) {
        c.fail("text", std::string(e.what()) + "\n" + text + c.sample);
    }
}
pbt::Reg r30({"P30", "at least two reads give back what was written before", p30, 60000, 2000000, {}, {}});
}  // namespace
