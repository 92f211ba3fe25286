// P07 inlining, P08 uniquification, P09 determinism
#include "rdl.hh"
#include "hash.hh"
using namespace rdl;
int kratos_verif_pool_mode_set(int m);

static std::string head(const std::string &t, size_t n = 900) { return t.size() > n ? t.substr(0, n) + "..." : t; }
static std::string names(const std::vector<std::string> &v) {
    std::string r;
    for (auto &x : v) r += (r.empty() ? "" : ", ") + x;
    return r;
}
// ---- P07 ----------------------------------------------------------------------------------
static void p07(pbt::Case &c) {
    Cfg cfg;
    cfg.latch = false;
    cfg.hier = 1 + (int)c.src.draw(3);
    cfg.depth = 1 + (int)c.src.draw(2);
    cfg.functions = false;
    cfg.max_wire = 3;
    cfg.out_chain = c.src.flip();
    cfg.inline_attr = true;
    cfg.many_inst = c.src.flip();
    Gen g(c, cfg);
    Design d = g.design();
    BuildOpt bo;
    bo.explicit_types = c.src.flip();
    Built b = build(d, bo);
    bool any = false;
    for (auto const &m : d.mods) any |= m.attr == "inline";
    std::string text;
    int rounds = 1 + (int)c.src.draw(3);
    if (c.src.flip()) {
        Flow f;
        f.check_multiple_driver = f.check_latch = false;
        f.optimize_fanout = c.src.flip();
        f.optimize_passthrough = c.src.flip();
        text = join(default_flow(b.top, f));
    } else {
        kratos::VerilogModule vm(b.top);
        vm.pass_manager().add_pass("fix_assignment_type");
        vm.pass_manager().add_pass("decouple_generator_ports");
        for (int i = 0; i < rounds; i++) vm.pass_manager().add_pass("inline_instance");
        for (const char *p : {"hash_generators_sequential", "uniquify_generators", "create_module_instantiation"}) vm.pass_manager().add_pass(p);
        vm.run_passes();
        text = join(vm.verilog_src({}));
    }
    c.sample = head(text);
    c.nontrivial = any;
    drive(c, d, text);
    // marked leaves whose siblings are all leaves are gone
    std::map<int, bool> stays;
    for (auto const &m : d.mods) {
        bool leaves = true;
        for (auto const &in : m.insts) leaves &= d.mods[in.mod].insts.empty();
        for (auto const &in : m.insts) stays[in.mod] |= !leaves;
    }
    for (auto const &[i, st] : stays)
        if (!st && d.mods[i].attr == "inline")
            c.check(text.find("module " + d.mods[i].name + " ") == std::string::npos, "kept", d.mods[i].name + " is marked inline and still there\n" + text);
}
static pbt::Reg r07({"P07", "at least one module is marked for inlining", p07, 6000, 200000, {}, {}});

// ---- P08 ----------------------------------------------------------------------------------
static std::string canon(const Design &d, int mi, std::map<int, std::string> &memo) {
    auto it = memo.find(mi);
    if (it != memo.end()) return it->second;
    Design one;
    one.mods = {d.mods[mi]};
    std::string s;
    for (auto &i : one.mods[0].insts) s += "<" + i.name + ":" + canon(d, i.mod, memo) + ">";
    one.mods[0].insts.clear();
    s += show(one);
    for (auto &v : d.mods[mi].vars) s += std::to_string(v.rst_high);
    return memo[mi] = s;
}
static void used(const Design &d, int mi, std::set<int> &r) {
    r.insert(mi);
    for (auto &i : d.mods[mi].insts) used(d, i.mod, r);
}
static void p08(pbt::Case &c) {
    Cfg cfg;
    cfg.latch = false;
    cfg.hier = 1 + (int)c.src.draw(2);
    cfg.depth = 1 + (int)c.src.draw(2);
    cfg.functions = c.src.flip();
    cfg.max_wire = 3;
    cfg.many_inst = true;
    Gen g(c, cfg);
    Design d = g.design();
    auto log = g.twins(d, 1 + (int)c.src.draw(4));
    BuildOpt bo;
    bo.explicit_types = c.src.flip();
    bo.clone = c.src.chance(1, 3);
    Built b = build(d, bo);
    bool plain = c.src.flip();
    std::map<std::string, std::string> src;
    if (plain) {
        kratos::VerilogModule vm(b.top);
        for (const char *p : {"fix_assignment_type", "decouple_generator_ports"}) vm.pass_manager().add_pass(p);
        vm.pass_manager().add_pass(c.src.flip() ? "hash_generators_parallel" : "hash_generators_sequential");
        for (const char *p : {"uniquify_generators", "create_module_instantiation"}) vm.pass_manager().add_pass(p);
        vm.run_passes();
        src = vm.verilog_src({});
    } else {
        Flow f;
        f.check_multiple_driver = f.check_latch = false;
        f.parallel_hash = c.src.flip();
        f.optimize_passthrough = !bo.clone;
        src = default_flow(b.top, f);
    }
    std::string text = join(src);
    c.sample = names(log) + "\n" + head(text);
    for (auto &l : log) c.label(l);
    c.nontrivial = !log.empty() && std::count(log.begin(), log.end(), "same") < (long)log.size();
    DriveOpt o;
    o.extra = "twins: " + names(log) + "\n";
    drive(c, d, text, o);
    if (plain) {
        std::map<int, std::string> memo;
        std::set<int> u;
        used(d, (int)d.mods.size() - 1, u);
        std::set<std::string> distinct;
        for (int i : u) distinct.insert(canon(d, i, memo));
        c.check(src.size() <= distinct.size(), "sharing",
                std::to_string(src.size()) + " modules emitted for " + std::to_string(distinct.size()) + " different ones\n" + o.extra + text);
    }
}
static pbt::Reg r08({"P08", "two modules of the same name differ", p08, 8000, 200000, {}, {}});
