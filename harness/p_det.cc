#include <filesystem>
// P09 determinism of the emitted text
#include "cxxpool.h"
#include "rdl.hh"
using namespace rdl;

static std::string head(const std::string &t, size_t n = 900) { return t.size() > n ? t.substr(0, n) + "..." : t; }

// holes and blocks on the heap, so that what is built next lands somewhere else
struct Heap {
    std::vector<void *> keep;
    explicit Heap(uint64_t seed) {
        if (!seed) return;
        pbt::Src r;
        r.s = seed;
        std::vector<void *> all;
        for (int i = 0; i < 600; i++) all.push_back(malloc(16 + r.next64() % 700));
        for (auto *p : all)
            if (r.next64() % 2)
                free(p);
            else
                keep.push_back(p);
    }
    ~Heap() {
        for (auto *p : keep) free(p);
    }
};
struct Pool {
    explicit Pool(int64_t m) { kratos_verif_pool_mode() = m; }
    ~Pool() { kratos_verif_pool_mode() = 0; }
};

rdl::Setup rdl::any_setup(pbt::Case &c) {
    Setup r;
    Cfg cfg;
    cfg.latch = c.src.flip();
    cfg.hier = (int)c.src.draw(3);
    cfg.depth = 1 + (int)c.src.draw(2);
    cfg.functions = c.src.chance(1, 3);
    cfg.max_wire = 3;
    cfg.chains = c.src.flip();
    cfg.bitcopy = c.src.flip();
    cfg.constwire = c.src.flip();
    cfg.out_chain = c.src.flip();
    cfg.pass_through = c.src.flip();
    cfg.ifchain = c.src.flip();
    cfg.merge_if = c.src.flip();
    cfg.inline_attr = c.src.flip();
    cfg.many_inst = c.src.flip();
    cfg.awkward_names = c.src.flip();
    cfg.one_dims = c.src.chance(1, 3);
    Gen g(c, cfg);
    Design &d = r.d;
    d = g.design();
    std::vector<std::string> log;
    if (d.mods.size() > 1 && c.src.flip()) log = g.twins(d, 1 + (int)c.src.draw(3));
    BuildOpt &bo = r.bo;
    bo.explicit_types = c.src.flip();
    bo.clone = c.src.chance(1, 4);
    Flow &f = r.f;
    f.check_multiple_driver = f.check_latch = false;
    for (bool *flag : {&f.optimize_if, &f.optimize_passthrough, &f.optimize_fanout, &f.optimize_bundle, &f.optimize_inline, &f.remove_unused, &f.merge_const})
        *flag = !c.src.chance(1, 4);
    for (bool *flag : {&f.reorder, &f.dead_code, &f.parallel_hash}) *flag = c.src.flip();
    if (bo.clone) f.optimize_passthrough = f.optimize_inline = false;  // not offered for clones
    return r;
}

static void p09(pbt::Case &c) {
    auto [d, bo, f] = any_setup(c);
    std::string flags;
    for (auto const &q : std::vector<std::pair<const char *, bool>>{{"if", f.optimize_if}, {"passthrough", f.optimize_passthrough}, {"fanout", f.optimize_fanout}, {"bundle", f.optimize_bundle},
                                                                  {"inline", f.optimize_inline}, {"unused", f.remove_unused}, {"merge_const", f.merge_const}, {"reorder", f.reorder},
                                                                  {"dead_code", f.dead_code}, {"clone", bo.clone}})
        if (q.second) flags += (flags.empty() ? "" : ",") + std::string(q.first);
    kratos::SystemVerilogCodeGenOptions o;
    o.unique_case = c.src.flip();
    o.yosys_src = c.src.flip();
    struct Run {
        uint64_t heap;
        int64_t pool;
        bool parallel;
    };
    std::vector<Run> runs = {{0, 0, f.parallel_hash}};
    for (int i = 0; i < 3; i++)
        runs.push_back({1 + c.src.draw(1u << 30), c.src.chance(1, 8) ? -1 : (int64_t)c.src.draw(1000), c.src.chance(1, 3) ? !f.parallel_hash : f.parallel_hash});
    std::string first;
    for (auto const &r : runs) {
        Heap heap(r.heap);
        Pool pool(r.pool);
        Built b = build(d, bo);
        Flow ff = f;
        ff.parallel_hash = r.parallel;
        std::string err, text;
        // a checker may object to the design, e.g. to a reset used as data: always or never
        try {
            text = join(default_flow(b.top, ff, o));
        } catch (const std::exception &e) {
            err = e.what();
        }
        if (!err.empty()) text = "rejected: " + err;
        // emitting once more does not change anything either
        if (r.heap == 0) {
            first = text;
            if (!err.empty()) continue;
            kratos::VerilogModule vm(b.top);
            std::string again = join(vm.verilog_src(o));
            c.check(again == text, "again", "emitting the compiled design again gives a different text\n" + text + "\n---\n" + again);
            c.sample = head(text);
            c.nontrivial = d.mods.size() > 1;
            continue;
        }
        if (text != first) {
            size_t i = 0, ln = 1;
            while (i < text.size() && i < first.size() && text[i] == first[i]) ln += text[i++] == '\n';
            auto line = [](const std::string &t, size_t p) {
                size_t b0 = t.rfind('\n', p ? p - 1 : 0), e = t.find('\n', p);
                return t.substr(b0 == std::string::npos ? 0 : b0 + 1, e == std::string::npos ? e : e - (b0 == std::string::npos ? 0 : b0 + 1));
            };
            c.fail(r.parallel == f.parallel_hash ? "text" : "text:hash", "the same design was emitted as two different texts, first in line " + std::to_string(ln) +
                   " with " + flags + ":\n  " + line(first, i) + "\n  " + line(text, i) + "\npool " + std::to_string(r.pool) + "\n" + show(d) + "\n" + first + "\n---\n" + text);
        }
    }
}

// Every pass of the pass manager, with the pool backed by real threads. The check runs in a build
// with the thread sanitizer, which ends the process at the first data race.
static void p34(pbt::Case &c) {
    auto [d, bo, f] = any_setup(c);
    Pool pool(-1);
    Built b = build(d, bo);
    std::vector<std::string> order;
    auto P = [&](const char *n) { order.push_back(n); };
    auto some = [&](std::initializer_list<const char *> ns) {
        for (auto *n : ns)
            if (!c.src.chance(1, 4)) P(n);
    };
    P("fix_assignment_type");
    some({"sort_initial_stmts", "remove_assertion", "remove_event_stmts", "change_property_into_stmt", "realize_fsm", "propagate_scope_variable",
          "infer_property_clocking", "inject_assertion_fail", "insert_verilator_public", "zero_out_stubs"});
    if (!bo.clone) some({"remove_pass_through_modules"});
    some({"merge_wire_assignments", "merge_if_block", "transform_if_to_case", "remove_fanout_one_wires", "zero_generator_inputs", "dead_code_elimination"});
    P("decouple_generator_ports");
    some({"port_legality_fix", "change_port_bundle_struct", "merge_const_port_assignment", "remove_unused_vars", "remove_unused_stmts", "verify_assignments",
          "verify_generator_connectivity", "check_mixed_assignment", "check_active_high", "check_non_synthesizable_content", "check_always_sensitivity",
          "check_function_return", "check_inferred_latch", "check_multiple_driver", "check_combinational_loop", "check_flip_flop_always_ff"});
    if (c.src.flip()) some({"insert_pipeline_stages", "auto_insert_clock_enable", "auto_insert_sync_reset", "ssa_transform_fix", "lift_genvar_instances"});
    P("hash_generators_parallel");
    P("uniquify_generators");
    if (!bo.clone) some({"inline_instance"});
    P("create_module_instantiation");
    P("create_interface_instantiation");
    some({"sort_stmts"});
    std::string done;
    for (auto const &n : order) {
        done += n + " ";
        if (c.verbose) c.sample = done;
        try {
            kratos::VerilogModule one(b.top);
            one.pass_manager().add_pass(n);
            one.run_passes();
        } catch (const std::exception &) {
            c.label("stopped by " + n);
            if (n.compare(0, 6, "check_") == 0 || n.compare(0, 7, "verify_") == 0) continue;
            return;  // objections of checkers and passes that do not apply are not what is looked for here
        }
    }
    kratos::VerilogModule out(b.top);
    std::string text = join(out.verilog_src());
    if (c.src.flip()) {  // written to files
        auto dir = pbt::scratch_dir() + "/race";
        std::filesystem::create_directories(dir);
        kratos::SystemVerilogCodeGenOptions o;
        o.package_name = "defs";
        o.output_dir = dir;
        o.extract_debug_info = c.src.flip();
        kratos::generate_verilog(b.top, o);
        std::filesystem::remove_all(dir);
    }
    c.nontrivial = d.mods.size() > 2;
    c.sample = done + "\n" + head(text);
}
static pbt::Reg r34({"P34", "at least three modules and every selected pass went through", p34, 3000, 60000, {}, {}, true});
static pbt::Reg r09({"P09", "the design has at least two modules", p09, 4000, 100000, {}, {}});
