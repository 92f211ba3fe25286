// P05 structural passes, P06 procedural passes
#include "except.hh"
#include "rdl.hh"
using namespace rdl;

static std::string head(const std::string &t, size_t n = 900) { return t.size() > n ? t.substr(0, n) + "..." : t; }
static void run_seq(pbt::Case &c, kratos::Generator *top, const std::vector<std::string> &seq) {
    kratos::VerilogModule vm(top);
    for (auto const &p : seq) vm.pass_manager().add_pass(p);
    vm.run_passes();
}
static std::string names(const std::vector<std::string> &v) {
    std::string r;
    for (auto &x : v) r += (r.empty() ? "" : ", ") + x;
    return r;
}
static std::vector<std::string> draw_passes(pbt::Case &c, const std::vector<std::string> &all, int most) {
    std::vector<std::string> r;
    int n = 1 + (int)c.src.draw(most);
    for (int i = 0; i < n; i++) r.push_back(c.src.pick(all));
    return r;
}

// ---- P05 ----------------------------------------------------------------------------------
static void p05(pbt::Case &c) {
    Cfg cfg;
    cfg.hier = (int)c.src.draw(3);
    cfg.depth = 1 + (int)c.src.draw(2);
    cfg.max_wire = 4;
    cfg.chains = cfg.bitcopy = cfg.constwire = cfg.out_chain = cfg.pass_through = true;
    cfg.const_child_in = true;
    Gen g(c, cfg);
    Design d = g.design();
    BuildOpt bo;
    bo.explicit_types = c.src.flip();
    bo.clone = c.src.chance(1, 3);
    Built b = build(d, bo);
    auto seq = draw_passes(c, {"remove_fanout_one_wires", "merge_wire_assignments", "remove_unused_vars", "remove_unused_stmts",
                               "merge_const_port_assignment", "decouple_generator_ports", "sort_stmts",
                               "remove_pass_through_modules", "dead_code_elimination"}, 6);
    // a pass-through child can only go while its ports are not wired yet, as in the default flow
    std::stable_sort(seq.begin(), seq.end(), [](auto &a, auto &b) {
            return (a == "remove_pass_through_modules") > (b == "remove_pass_through_modules");
        });
    if (bo.clone)  // not offered for clones
        seq.erase(std::remove(seq.begin(), seq.end(), "remove_pass_through_modules"), seq.end());
    run_seq(c, b.top, seq);
    std::string text = join(plain_flow(b.top));
    Design dd = d;
    c.sample = names(seq) + "\n" + head(text);
    // the same design without the passes, for the measure of effect
    c.nontrivial = false;
    {
        Built p = build(d, bo);
        c.nontrivial = join(plain_flow(p.top)) != text;
    }
    DriveOpt o;
    o.extra = "passes: " + names(seq) + "\n";
    drive(c, d, text, o);
}
static pbt::Reg r05({"P05", "the passes changed the emitted text", p05, 16000, 300000, {}, {}});

// ---- P06 ----------------------------------------------------------------------------------
static void p06(pbt::Case &c) {
    Cfg cfg;
    cfg.hier = (int)c.src.draw(2);
    cfg.depth = 1 + (int)c.src.draw(2);
    cfg.max_wire = 4;
    cfg.ifchain = true;
    cfg.block_depth = 3;
    cfg.merge_if = true;
    cfg.chain_read = c.src.flip();
    Gen g(c, cfg);
    Design d = g.design();
    BuildOpt bo;
    bo.explicit_types = c.src.flip();
    bo.clone = c.src.chance(1, 3);
    Built b = build(d, bo);
    auto seq = draw_passes(c, {"merge_if_block", "transform_if_to_case", "dead_code_elimination", "sort_stmts"}, 4);
    run_seq(c, b.top, seq);
    std::string text = join(plain_flow(b.top));
    c.sample = names(seq) + "\n" + head(text);
    {
        Built p = build(d, bo);
        c.nontrivial = join(plain_flow(p.top)) != text;
    }
    DriveOpt o;
    o.extra = "passes: " + names(seq) + "\n";
    drive(c, d, text, o);
}
static pbt::Reg r06({"P06", "the passes changed the emitted text", p06, 13000, 400000, {}, {}});
