#include "core.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <cxxabi.h>
#include <memory>
#include <exception>
#include <fcntl.h>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include "runner.hpp"

// ---------------------------------------------------------------------------------------------------- fiber switch
#if !defined(__x86_64__)
#error "the fiber switch is written for x86-64"
#endif
extern "C" void sim_switch(void **save, void *load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

namespace sim
{
    char const dummy_char = '\0';

    namespace
    {
        constexpr int MAXTAPES = 24, MAXTASKS = 24, MAXDEPTH = 1000;
        constexpr std::size_t STACK = std::size_t(256) << 20;

        struct ExcState { void *caught = nullptr; unsigned uncaught = 0; };

        struct Task
        {
            enum State { READY, STALLED, ABANDONED, DEAD, DONE } state = DONE;
            char *stack = nullptr;
            void *sp = nullptr;
            ExcState exc;
            std::vector<int> ops;           // indices into plan.ops
            Frame *frame = nullptr;
            int depth = 0;
            long live = 0;                  // blocks allocated while the library ran in this task, not yet freed
            std::size_t next = 0;
        };

        struct Global
        {
            Tape tapes[MAXTAPES];
            int ntapes = 0;
            std::vector<std::unique_ptr<Window>> windows;
            std::vector<Pattern> pats;
            std::vector<Pattern (*)()> makers;

            // current run
            bool running = false, replay = false;
            Plan plan;
            Knobs knobs;
            Rng rng;
            std::unordered_map<u64, std::vector<int>> lookup;
            std::vector<char> op_done;
            std::unordered_map<int, int> op_index;
            Task tasks[MAXTASKS];
            int ntasks = 0, cur = -1, next_task = -1;
            void *main_sp = nullptr;
            ExcState main_exc;
            u64 hash = 0, trace_hash = 0, switches = 0;
            u64 total_steps = 0;
            int quarantine_off = 0;

            // whole process
            Stats stats;
            std::string out_file;
            bool in_violation = false;
        } g;

        u64 key(int op, u64 step, bool alloc) { return (u64(unsigned(op)) << 40) ^ (step << 1) ^ u64(alloc); }

        void mix(u64 v)
        {
            g.hash ^= v;
            g.hash *= 0x100000001b3ull;
            g.hash ^= g.hash >> 29;
        }
        void mix_trace(u64 v)
        {
            g.trace_hash ^= v + 0x9e3779b97f4a7c15ull;
            g.trace_hash *= 0x100000001b3ull;
            g.trace_hash ^= g.trace_hash >> 31;
        }

        ExcState *exc_globals() { return reinterpret_cast<ExcState *>(__cxxabiv1::__cxa_get_globals()); }

        void to_scheduler()
        {
            Task &t = g.tasks[g.cur];
            t.exc = *exc_globals();
            *exc_globals() = g.main_exc;
            sim_switch(&t.sp, g.main_sp);
        }

        void run_op(Op const &op)
        {
            Task &t = g.tasks[g.cur];
            Frame f;
            f.op = &op;
            f.parent = t.frame;
            f.budget = 50'000'000;
            t.frame = &f;
            mix(0x100 + unsigned(op.id));
            ++g.stats.ops;
            workload().exec(op);
            t.frame = f.parent;
        }

        void task_main()
        {
            Task &t = g.tasks[g.cur];
            for (t.next = 0; t.next < t.ops.size(); ++t.next)
            {
                Op const &op = g.plan.ops[std::size_t(t.ops[t.next])];
                g.op_done[std::size_t(t.ops[t.next])] = 1;
                run_op(op);
            }
            t.state = Task::DONE;
            to_scheduler();
            __builtin_trap();
        }

        extern "C" void sim_trampoline();
        extern "C" void sim_task_main() { task_main(); }
        asm(R"(
.text
.globl sim_trampoline
.type sim_trampoline,@function
sim_trampoline:
    .cfi_startproc
    .cfi_undefined rip
    xorl %ebp,%ebp
    call sim_task_main
    ud2
    .cfi_endproc
.size sim_trampoline,.-sim_trampoline
)");

        void prepare(Task &t)
        {
            if (!t.stack)
            {
                char *m = static_cast<char *>(mmap(nullptr, STACK + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
                if (m == MAP_FAILED) { perror("mmap"); _exit(9); }
                mprotect(m + 4096, STACK, PROT_READ | PROT_WRITE);
                t.stack = m + 4096;
            }
            void **sp = reinterpret_cast<void **>(t.stack + STACK);
            *--sp = nullptr;
            *--sp = nullptr;                                    // keeps the stack aligned at entry
            *--sp = reinterpret_cast<void *>(&sim_trampoline);  // return address
            for (int i = 0; i < 6; ++i) *--sp = nullptr;
            t.sp = sp;
            t.exc = {};
            t.frame = nullptr;
            t.depth = 0;
            t.live = 0;
            t.next = 0;
            t.ops.clear();
            t.state = Task::DONE;
        }

        void do_switch(int target, char why)
        {
            mix_trace((u64(g.cur) << 48) ^ (u64(target) << 40) ^ (u64(unsigned(why)) << 32) ^ g.tasks[g.cur].frame->steps
                      ^ (u64(g.tasks[g.cur].frame->op->id) << 16));
            ++g.switches;
            g.next_task = target;
            to_scheduler();
        }

        bool runnable(int t) { return t >= 0 && t < g.ntasks && g.tasks[t].state == Task::READY; }

        void fire(Event const &e)
        {
            Frame *f = g.tasks[g.cur].frame;
            switch (e.kind)
            {
                case EV_YIELD:
                    if (e.x == g.cur || !runnable(e.x)) return;
                    ++g.stats.fired["yield"];
                    do_switch(e.x, 'Y');
                    return;
                case EV_NEST:
                {
                    Task &t = g.tasks[g.cur];
                    auto it = g.op_index.find(e.x);
                    if (it == g.op_index.end() || g.op_done[std::size_t(it->second)] || t.depth >= MAXDEPTH) return;
                    g.op_done[std::size_t(it->second)] = 1;
                    ++g.stats.fired["nested_call"];
                    if (++t.depth == 257) probe("nested_deeper_than_256");
                    run_op(g.plan.ops[std::size_t(it->second)]);
                    --t.depth;
                    return;
                }
                case EV_MUTATE:
                    if (e.x < 0 || e.x >= g.ntapes || e.y < 0 || e.y >= g.tapes[e.x].len) return;
                    ++g.stats.fired["mutate_mid_call"];
                    ++f->mutations;
                    g.tapes[e.x].text[e.y] = char(e.z);
                    return;
                case EV_THROW:
                    if (f->faults_off) return;
                    ++g.stats.fired["input_error"];
                    ++f->throws;
                    throw InputError{f->op->id, e.step};
                case EV_ENV:
                    ++g.stats.fired["environment_changed"];
                    if (workload().environment) workload().environment(e.x);
                    break;
                case EV_STALL:
                case EV_ABANDON:
                {
                    int other = -1;
                    for (int k = 1; k < g.ntasks && other < 0; ++k)
                        if (runnable((g.cur + k) % g.ntasks)) other = (g.cur + k) % g.ntasks;
                    if (other < 0) return;
                    ++g.stats.fired[e.kind == EV_STALL ? "stall" : "abandon"];
                    g.tasks[g.cur].state = e.kind == EV_STALL ? Task::STALLED : Task::ABANDONED;
                    do_switch(other, e.kind);
                    return;
                }
                default: return;
            }
        }

        // While the simulator itself works inside a hook, its own allocations are not the library's.
        struct Outside
        {
            Frame *f;
            int saved;
            explicit Outside(Frame *f) : f(f), saved(f->in_lib) { f->in_lib = 0; }
            ~Outside() { f->in_lib = saved; }
        };

        void record(Event e)
        {
            g.plan.events.push_back(e);
            fire(e);
        }

        int pick_other()
        {
            int cand[MAXTASKS], n = 0;
            for (int i = 0; i < g.ntasks; ++i)
                if (i != g.cur && runnable(i)) cand[n++] = i;
            return n ? cand[g.rng.below(unsigned(n))] : -1;
        }
    }

    Stats &stats() { return g.stats; }
    Tape &tape(int i) { return g.tapes[i]; }
    int tape_count() { return g.ntapes; }
    Rng &run_rng() { return g.rng; }
    bool replaying() { return g.replay; }
    Plan &plan() { return g.plan; }
    int current_task() { return g.cur; }
    int task_depth() { return g.cur >= 0 ? g.tasks[g.cur].depth : 0; }
    std::vector<Pattern> &patterns() { return g.pats; }
    Frame &frame() { return *g.tasks[g.cur].frame; }
    AllocStats alloc_stats() { return {g.cur >= 0 ? g.tasks[g.cur].live : 0, 0}; }

    void set_tape(int i, std::string_view text)
    {
        Tape &t = g.tapes[i];
        if (!t.page)
        {
            char *m = static_cast<char *>(mmap(nullptr, TAPE_CAP + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            if (m == MAP_FAILED) { perror("mmap"); _exit(9); }
            mprotect(m + 4096, TAPE_CAP, PROT_READ | PROT_WRITE);
            t.page = m + 4096;
        }
        if (text.size() > TAPE_CAP) text = text.substr(0, TAPE_CAP);
        t.len = int(text.size());
        if (t.placement == 0) t.text = t.page + TAPE_CAP - t.len;
        else if (t.placement == 1) t.text = t.page;
        else t.text = t.page + (TAPE_CAP - t.len) / 2;
        memcpy(t.text, text.data(), text.size());
    }

    Window const *make_window(int tp, int lo, int hi)
    {
        auto w = std::make_unique<Window>();
        w->t = &g.tapes[tp];
        w->lo = lo;
        w->hi = hi;
        g.windows.push_back(std::move(w));
        return g.windows.back().get();
    }

    static Frame no_frame;                    // before and after the tasks run
    static Frame *cur_frame() { return g.cur >= 0 && g.tasks[g.cur].frame ? g.tasks[g.cur].frame : &no_frame; }
    UserRegion::UserRegion() : f(cur_frame()), saved(f->in_lib) { f->in_lib = 0; }
    UserRegion::~UserRegion() { f->in_lib = saved; }
    LibRegion::LibRegion() : f(cur_frame()) { ++f->in_lib; }
    LibRegion::~LibRegion() { --f->in_lib; }

    void log_value(u64 v) { mix(v ^ 0x5bd1e995); }

    void probe(char const *name, u64 n) { g.stats.probes[name] += n; }

    void fired(char const *fault) { ++g.stats.fired[fault]; }

    // Half of the stack stays free for the operation itself, however deep the nesting.
    static bool room_to_nest()
    {
        char here;
        return &here - g.tasks[g.cur].stack > std::ptrdiff_t(STACK / 2);
    }

    void step(StepKind k, int pos)
    {
        if (!g.running || g.cur < 0) return;
        Frame *f = g.tasks[g.cur].frame;
        if (!f || !f->in_lib) return;
        u64 const n = f->steps++;
        if (k == SK_DEREF)
        {
            ++f->derefs;
            if (pos < f->read_lo) f->read_lo = pos;
            if (pos > f->read_hi) f->read_hi = pos;
        }
        Outside outside{f};
        ++g.total_steps;
        mix((u64(unsigned(f->op->id)) << 32) ^ (u64(unsigned(k)) << 24) ^ unsigned(pos) ^ (n << 44));
        if (f->steps > f->budget)
            violate("no-end", "operation %d is still running after %llu accesses to its own input (budget %llu)", f->op->id,
                    (unsigned long long)f->steps, (unsigned long long)f->budget);
        bool const may_throw = !f->faults_off && (!f->throw_reads_only || k == SK_DEREF);
        if (n >= f->throw_at && may_throw)
        {
            if (!f->throw_always) f->throw_at = ~0ull;
            ++g.stats.fired["input_error"];
            ++f->throws;
            throw InputError{f->op->id, n};
        }
        if (f->soft_budget && f->steps > f->soft_budget)
        {
            probe("operation_given_up");
            g.tasks[g.cur].state = Task::ABANDONED;
            to_scheduler();
        }
        if (g.replay)
        {
            auto it = g.lookup.find(key(f->op->id, n, false));
            if (it == g.lookup.end()) return;
            auto list = it->second;
            for (int i : list) fire(g.plan.events[std::size_t(i)]);
            return;
        }
        Knobs const &K = g.knobs;
        int const id = f->op->id;
        if (K.mutate_1_in && g.rng.below(K.mutate_1_in) == 0)
        {
            int tp = int(g.rng.below(unsigned(g.ntapes)));
            if (g.tapes[tp].len)
            {
                // mostly close to where the reader is, with characters that occur in the texts
                int off = int(g.rng.below(unsigned(g.tapes[tp].len)));
                if (g.rng.below(2)) off = std::clamp(pos + int(g.rng.below(5)) - 2, 0, g.tapes[tp].len - 1);
                auto const &src = g.plan.texts[g.rng.below(g.plan.texts.size())];
                int ch = src.empty() || g.rng.below(4) == 0 ? int(g.rng.below(256)) : static_cast<unsigned char>(src[g.rng.below(src.size())]);
                record({id, n, EV_MUTATE, tp, off, ch});
            }
        }
        if (K.nest_1_in && g.rng.below(K.nest_1_in) == 0 && g.tasks[g.cur].depth < K.nest_depth && room_to_nest())
        {
            int found = -1;
            for (std::size_t i = 0; i < g.plan.ops.size() && found < 0; ++i)
                if (g.plan.ops[i].task < 0 && !g.op_done[i]) found = g.plan.ops[i].id;
            if (found >= 0) record({id, n, EV_NEST, found});
        }
        if (K.yield_1_in && g.rng.below(K.yield_1_in) == 0)
        {
            int other = pick_other();
            if (other >= 0) record({id, n, EV_YIELD, other});
        }
        if (K.env_1_in && g.rng.below(K.env_1_in) == 0) record({id, n, EV_ENV, int(g.rng.below(unsigned(workload().environments)))});
        if (K.stall_1_in && g.rng.below(K.stall_1_in) == 0 && pick_other() >= 0) record({id, n, EV_STALL});
        if (K.abandon_1_in && g.rng.below(K.abandon_1_in) == 0 && pick_other() >= 0) record({id, n, EV_ABANDON});
        if (K.throw_1_in && may_throw && g.rng.below(K.throw_1_in) == 0) record({id, n, EV_THROW});
    }

    void bad_access(char const *what, Window const *w, int pos)
    {
        if (!g.running || g.cur < 0) return;
        Frame *f = g.tasks[g.cur].frame;
        if (!f || !f->in_lib) return;
        Outside outside{f};
        if (!workload().window_oracle) { probe("access_outside_input_seen"); return; }
        violate("outside-input", "%s at position %d, input is [%d,%d)%s", what, pos, w ? w->lo : 0, w ? w->hi : 0, w ? "" : " (singular iterator)");
    }

    void switch_away_waiting(char const *what)
    {
        // The library wants to block. In the simulation whoever it waits for is suspended right now.
        if (!strcmp(workload().prop, "C09"))
            violate("waits", "the call waits for another call (%s)", what);
        int other = -1;
        for (int k = 1; k < g.ntasks && other < 0; ++k)
            if (runnable((g.cur + k) % g.ntasks)) other = (g.cur + k) % g.ntasks;
        if (other < 0 || g.tasks[g.cur].depth > 0)
            violate("waits", "the call waits for ever (%s)", what);
        do_switch(other, 'W');
    }
    bool in_library()
    {
        if (!g.running || g.cur < 0) return false;
        Frame *f = g.tasks[g.cur].frame;
        return f && f->in_lib;
    }

    // ------------------------------------------------------------------------------------------------ observations
    bool Obs::same(Obs const &o) const
    {
        if (matched != o.matched || n != o.n || length != o.length) return false;
        for (int i = 0; i < n; ++i)
        {
            bool empty = b[i] == e[i], oempty = o.b[i] == o.e[i];
            if (empty != oempty) return false;
            if (i == 0 && matched && (b[0] != o.b[0] || e[0] != o.e[0])) return false;
            if (!empty && (b[i] != o.b[i] || e[i] != o.e[i])) return false;
        }
        return true;
    }
    std::string Obs::str() const
    {
        std::string r = matched ? "matched" : "no match";
        for (int i = 0; i < n; ++i) r += " " + std::to_string(i) + ":[" + std::to_string(b[i]) + "," + std::to_string(e[i]) + ")";
        r += " length " + std::to_string(length);
        return r;
    }
    bool Text::operator==(Text const &o) const
    {
        if (matched != o.matched || n != o.n || length != o.length) return false;
        for (int i = 0; i < n; ++i) if (g[i] != o.g[i]) return false;
        return true;
    }
    std::string escape(std::string_view s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c > 0x20 && c < 0x7f && c != '\\' && c != '%') r.push_back(char(c));
            else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        }
        return r;
    }
    std::string unescape(std::string_view s)
    {
        std::string r;
        for (std::size_t i = 0; i < s.size(); ++i)
        {
            if (s[i] == '\\' && i + 3 < s.size()) { r.push_back(char(std::stoi(std::string(s.substr(i + 2, 2)), nullptr, 16))); i += 3; }
            else r.push_back(s[i]);
        }
        return r;
    }
    std::string Text::str() const
    {
        std::string r = matched ? "matched" : "no match";
        for (int i = 0; i < n; ++i) r += " " + std::to_string(i) + ":'" + escape(g[i]) + "'";
        r += " length " + std::to_string(length);
        return r;
    }
    Text text_of(Obs const &o, std::string_view input)
    {
        Text t;
        t.matched = o.matched;
        t.n = o.n;
        t.length = o.length;
        for (int i = 0; i < o.n; ++i)
            if (o.b[i] >= 0 && o.e[i] > o.b[i] && o.e[i] <= int(input.size())) t.g[i] = input.substr(std::size_t(o.b[i]), std::size_t(o.e[i] - o.b[i]));
        return t;
    }
    void note_result(Obs const &o)
    {
        mix(o.matched);
        for (int i = 0; i < o.n; ++i)
            if (o.b[i] != o.e[i]) mix((u64(unsigned(o.b[i])) << 20) ^ unsigned(o.e[i]) ^ (u64(i) << 50));
    }
    void note_result(Text const &t)
    {
        mix(t.matched);
        for (int i = 0; i < t.n; ++i)
            for (unsigned char c : t.g[i]) mix(c);
    }

    // ------------------------------------------------------------------------------------------------ patterns
    std::string Pattern::key() const { return std::to_string(flags) + ":" + how[0] + ":" + escape(std::string_view(text, len)); }
    static std::vector<Pattern (*)()> &makers() { static std::vector<Pattern (*)()> v; return v; }
    PatternReg::PatternReg(Pattern (*make)()) { makers().push_back(make); }
    void load_patterns()
    {
        for (auto m : makers())
        {
            Pattern p = m();
            p.ref = model::Regex(std::string_view(p.text, p.len), p.flags);
            g.pats.push_back(std::move(p));
        }
        std::sort(g.pats.begin(), g.pats.end(), [](Pattern const &a, Pattern const &b) { return a.key() < b.key(); });
    }

    // ------------------------------------------------------------------------------------------------ plan files
    std::string to_text(Plan const &p)
    {
        std::string r = "mregex-sim 1\nprop " + p.prop + "\nseed " + std::to_string(p.seed) + "\ntasks " + std::to_string(p.ntasks) + "\n";
        for (auto const &t : p.texts) r += "text " + escape(t) + "\n";
        for (auto const &t : p.tapes) r += "tape " + std::to_string(t.first) + " " + std::to_string(t.second) + "\n";
        for (auto const &o : p.ops)
        {
            r += "op " + std::to_string(o.id) + " " + std::to_string(o.task) + " " + std::to_string(o.code) + " " + std::to_string(o.kind);
            for (int v : o.a) r += " " + std::to_string(v);
            r += " " + (o.pat >= 0 ? g.pats[std::size_t(o.pat)].key() : std::string("-")) + "\n";
        }
        for (auto const &e : p.events)
            r += std::string("event ") + e.kind + " " + std::to_string(e.op) + " " + std::to_string(e.step) + " " + std::to_string(e.x) + " " +
                 std::to_string(e.y) + " " + std::to_string(e.z) + "\n";
        return r;
    }
    Plan from_text(std::string const &s)
    {
        Plan p;
        std::size_t i = 0;
        while (i < s.size())
        {
            std::size_t e = s.find('\n', i);
            if (e == std::string::npos) e = s.size();
            std::string line = s.substr(i, e - i);
            i = e + 1;
            if (line.empty() || line[0] == '#') continue;
            std::vector<std::string> w;
            std::size_t j = 0;
            while (j <= line.size())
            {
                std::size_t k = line.find(' ', j);
                if (k == std::string::npos) k = line.size();
                w.push_back(line.substr(j, k - j));
                j = k + 1;
            }
            auto num = [&](std::size_t k) { return std::stoi(w.at(k)); };
            if (w[0] == "prop") p.prop = w[1];
            else if (w[0] == "seed") p.seed = std::stoull(w[1]);
            else if (w[0] == "tasks") p.ntasks = num(1);
            else if (w[0] == "text") p.texts.push_back(w.size() > 1 ? unescape(w[1]) : "");
            else if (w[0] == "tape") p.tapes.emplace_back(num(1), num(2));
            else if (w[0] == "op")
            {
                Op o;
                o.id = num(1); o.task = num(2); o.code = num(3); o.kind = num(4);
                for (int k = 0; k < 8; ++k) o.a[k] = num(std::size_t(5 + k));
                if (w.at(13) != "-")
                {
                    for (std::size_t k = 0; k < g.pats.size(); ++k) if (g.pats[k].key() == w[13]) o.pat = int(k);
                    if (o.pat < 0) { fprintf(stderr, "pattern %s is not built in\n", w[13].c_str()); _exit(8); }
                }
                p.ops.push_back(o);
            }
            else if (w[0] == "event")
            {
                Event ev{};
                ev.kind = w[1][0]; ev.op = num(2); ev.step = std::stoull(w.at(3)); ev.x = num(4); ev.y = num(5); ev.z = num(6);
                p.events.push_back(ev);
            }
        }
        return p;
    }

    // ------------------------------------------------------------------------------------------------ violations
    static void write_all(int fd, char const *p, std::size_t n)
    {
        while (n)
        {
            ssize_t k = write(fd, p, n);
            if (k <= 0) return;
            p += k;
            n -= std::size_t(k);
        }
    }
    void violate(char const *what, char const *fmt, ...)
    {
        if (g.in_violation) _exit(7);
        g.in_violation = true;
        g.running = false;
        char msg[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(msg, sizeof msg, fmt, ap);
        va_end(ap);
        std::string head = std::string("# violation ") + what + "\n# " + msg + "\n";
        if (g.cur >= 0 && g.tasks[g.cur].frame)
        {
            Frame *f = g.tasks[g.cur].frame;
            head += "# in task " + std::to_string(g.cur) + ", operation " + std::to_string(f->op->id) + ", access " + std::to_string(f->steps) +
                    ", kind " + kind_names[f->op->kind] + ", pattern " + (f->op->pat >= 0 ? g.pats[std::size_t(f->op->pat)].key() : std::string("-")) + "\n";
        }
        head += "# hash " + std::to_string(g.hash) + "\n";
        std::string body = head + to_text(g.plan);
        if (!g.out_file.empty())
        {
            int fd = open(g.out_file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) { write_all(fd, body.data(), body.size()); close(fd); }
        }
        std::string line = std::string("FOUND ") + what + " hash " + std::to_string(g.hash) + " seed " + std::to_string(g.plan.seed) + " " + msg + "\n";
        write_all(1, line.data(), line.size());
        _exit(3);
    }

    // A run is stuck if it has used up its processor time, or if it is asleep (waiting for something); being slow because the
    // machine is busy is neither.
    static double cpu_now()
    {
        timespec t{};
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
        return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
    }
    static int idle_ticks = 0, slow_ticks = 0;
    static double last_cpu = 0;
    static constexpr int TICK_S = 5;
    static bool watchdog(int sig)
    {
        if (sig == SIGPROF) return true;
        double now = cpu_now(), used = now - last_cpu;
        last_cpu = now;
        idle_ticks = used < 0.002 ? idle_ticks + 1 : 0;
        slow_ticks = used < 0.02 * TICK_S ? slow_ticks + 1 : 0;
        return idle_ticks >= 3 || slow_ticks >= 20;
    }
    static void start_watchdog(unsigned cpu_s)
    {
        itimerval cpu{{0, 0}, {long(cpu_s), 0}}, tick{{TICK_S, 0}, {TICK_S, 0}};
        idle_ticks = slow_ticks = 0;
        last_cpu = cpu_now();
        setitimer(ITIMER_PROF, &cpu, nullptr);
        setitimer(ITIMER_REAL, &tick, nullptr);
    }

    static void on_signal(int sig, siginfo_t *si, void *)
    {
        if (g.in_violation) _exit(7);
        if (sig == SIGALRM || sig == SIGPROF) { if (watchdog(sig)) { g.hash = 0; violate("hang", "no progress: the run did not finish in time"); } return; }
        if (sig == SIGABRT) violate("abort", "the program aborted (failed library assertion or abort)");
        char *a = static_cast<char *>(si ? si->si_addr : nullptr);
        for (auto const &t : g.tapes)
            if (t.page && a >= t.page - 4096 && a < t.page + TAPE_CAP + 4096)
                violate(a >= t.text && a < t.text + t.len ? "reads" : "outside-input", "read at offset %ld of an input of length %d%s", long(a - t.text), t.len,
                        a >= t.text && a < t.text + t.len ? ", by an operation that may not read" : "");
        for (auto const &t : g.tasks)
            if (t.stack && a >= t.stack - 4096 && a < t.stack)
                violate("no-end", "unbounded recursion (stack exhausted)");
        violate("crash", "signal %d", sig);
    }
    [[noreturn]] static void on_terminate()
    {
        if (g.running && g.cur >= 0 && g.tasks[g.cur].frame && g.tasks[g.cur].frame->may_die && g.tasks[g.cur].frame->throws)
        {
            // "The program stops": in the simulation this task ends here and its stack is given up.
            probe("program_stopped_by_input_error");
            g.tasks[g.cur].state = Task::DEAD;
            mix(0xdead);
            to_scheduler();
        }
        violate("terminate", "std::terminate was called");
    }
    void install_handlers()
    {
        static char alt[1 << 16];
        stack_t ss{};
        ss.ss_sp = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGPROF}) sigaction(s, &sa, nullptr);
        std::set_terminate(on_terminate);
    }
    void set_out_file(std::string f) { g.out_file = std::move(f); }

    // ------------------------------------------------------------------------------------------------ one run
    RunResult run(Plan const &p, Knobs const *explore_knobs, unsigned timeout_s)
    {
        g.plan = p;
        g.replay = explore_knobs == nullptr;
        g.knobs = explore_knobs ? *explore_knobs : Knobs{};
        g.rng = Rng(p.seed ^ 0xabcdef1234567ull);
        g.lookup.clear();
        if (g.replay)
            for (std::size_t i = 0; i < g.plan.events.size(); ++i)
                g.lookup[key(g.plan.events[i].op, g.plan.events[i].step, g.plan.events[i].kind == EV_NOMEM)].push_back(int(i));
        else g.plan.events.clear();
        g.windows.clear();
        g.ntapes = int(p.tapes.size());
        for (int i = 0; i < g.ntapes; ++i)
        {
            g.tapes[i].placement = p.tapes[std::size_t(i)].second;
            g.tapes[i].in_flight = 0;
            set_tape(i, p.texts[std::size_t(p.tapes[std::size_t(i)].first)]);
        }
        g.op_done.assign(g.plan.ops.size(), 0);
        g.op_index.clear();
        g.ntasks = p.ntasks;
        for (int i = 0; i < g.ntasks; ++i) prepare(g.tasks[i]);
        for (std::size_t i = 0; i < g.plan.ops.size(); ++i)
        {
            Op const &o = g.plan.ops[i];
            g.op_index[o.id] = int(i);
            if (o.task >= 0 && o.task < g.ntasks) { g.tasks[o.task].ops.push_back(int(i)); g.tasks[o.task].state = Task::READY; }
        }
        g.hash = 0xcbf29ce484222325ull;
        g.trace_hash = 0;
        g.switches = 0;
        g.total_steps = 0;
        g.cur = -1;
        g.next_task = -1;
        if (timeout_s) start_watchdog(timeout_s);
        workload().begin();
        g.running = true;
        int last = -1;
        for (;;)
        {
            int t = g.next_task;
            g.next_task = -1;
            if (!runnable(t))
            {
                t = -1;
                for (int k = 1; k <= g.ntasks && t < 0; ++k)
                    if (runnable((last + k + g.ntasks) % g.ntasks)) t = (last + k + g.ntasks) % g.ntasks;
            }
            if (t < 0)
            {
                // nobody can run: the stalled ones are released, one at a time
                for (int k = 0; k < g.ntasks && t < 0; ++k)
                    if (g.tasks[k].state == Task::STALLED) { g.tasks[k].state = Task::READY; t = k; }
                if (t < 0) break;
            }
            last = g.cur = t;
            g.main_exc = *exc_globals();
            *exc_globals() = g.tasks[t].exc;
            sim_switch(&g.main_sp, g.tasks[t].sp);
            g.cur = -1;
        }
        g.running = false;
        workload().finish();
        ++g.stats.runs;
        g.stats.steps += g.total_steps;
        g.stats.switches += g.switches;
        if (g.switches) g.stats.traces.insert(g.trace_hash);
        g.stats.states.insert(g.hash);
        return {g.hash, g.trace_hash, g.total_steps, g.switches};
    }
    Plan const &executed_plan() { return g.plan; }

    bool alloc_should_fail(bool &counted)
    {
        counted = false;
        if (!g.running || g.cur < 0) return false;
        Task &t = g.tasks[g.cur];
        Frame *f = t.frame;
        if (!f || !f->in_lib) return false;
        counted = true;
        if (!f->allocs_armed) return false;
        u64 n = f->allocs++;
        bool fail = f->fail_all_allocs || n == f->fail_alloc_at || n >= f->fail_alloc_from || (f->fail_alloc_mask >> (n % 16) & 1);
        if (fail)
        {
            Outside outside(f);
            ++f->nomem;
            ++g.stats.fired["allocation_failure"];
            mix(0xa110c + n);
        }
        return fail;
    }
    int alloc_owner() { return g.cur; }
    void alloc_account(int owner, int delta)
    {
        if (owner >= 0 && owner < MAXTASKS) g.tasks[owner].live += delta;
    }
}

// ------------------------------------------------------------------------------------------------------ allocation
// Freed memory is overwritten and kept for a while, so that a stale reference reads rubbish deterministically.
namespace
{
    struct Header
    {
        std::uint64_t magic, size;
        int owner;              // task in whose library call the block was allocated, -1: elsewhere
        unsigned epoch;
        std::uint64_t pad;
    };
    static_assert(sizeof(Header) == 32);
    constexpr std::uint64_t LIVE = 0x11fe11fe11fe11feull, FREED = 0xdeaddeaddeaddeadull;
    void *ring[128];
    unsigned ring_at = 0;

    void *allocate(std::size_t n)
    {
        bool counted;
        if (sim::alloc_should_fail(counted)) return nullptr;
        auto *h = static_cast<Header *>(std::malloc(n + sizeof(Header)));
        if (!h) return nullptr;
        h->magic = LIVE;
        h->size = n;
        h->owner = counted ? sim::alloc_owner() : -1;
        h->epoch = unsigned(sim::stats().runs);
        if (h->owner >= 0) sim::alloc_account(h->owner, 1);
        return h + 1;
    }
    void release(void *p) noexcept
    {
        if (!p) return;
        auto *h = static_cast<Header *>(p) - 1;
        if (h->magic != LIVE)
            sim::violate("bad-free", h->magic == FREED ? "memory freed twice" : "free of memory that was never allocated");
        if (h->owner >= 0 && h->epoch == unsigned(sim::stats().runs)) sim::alloc_account(h->owner, -1);
        h->magic = FREED;
        memset(p, 0xdd, h->size < 4096 ? h->size : 4096);
        void *old = ring[ring_at];
        ring[ring_at] = h;
        ring_at = (ring_at + 1) % 128;
        std::free(old);
    }
}
void *operator new(std::size_t n)
{
    if (void *p = allocate(n)) return p;
    throw std::bad_alloc();
}
void *operator new[](std::size_t n) { return operator new(n); }
void *operator new(std::size_t n, std::nothrow_t const &) noexcept { return allocate(n); }
void *operator new[](std::size_t n, std::nothrow_t const &) noexcept { return allocate(n); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, std::size_t) noexcept { release(p); }
void operator delete[](void *p, std::size_t) noexcept { release(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { release(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { release(p); }

// ------------------------------------------------------------------------------------------------------ blocking
// The library has no reason to block. If it ever does, whoever it waits for is a suspended task of this simulation.
// Tasks stand for threads as well as for calls nested in one thread: a lock belongs to the task that took it, also a
// recursive one.
namespace
{
    struct Held { pthread_mutex_t *m; int task, count; sim::u64 run; } held[64];
    Held *holder(pthread_mutex_t *m)
    {
        for (auto &h : held)
            if (h.m == m && h.count && h.run == sim::stats().runs) return &h;
        return nullptr;
    }
    using MutexFn = int (*)(pthread_mutex_t *);
    MutexFn real_trylock()
    {
        static constinit MutexFn fn = nullptr;
        if (!fn) fn = reinterpret_cast<MutexFn>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
        return fn;
    }
    MutexFn real_unlock()
    {
        static constinit MutexFn fn = nullptr;
        if (!fn) fn = reinterpret_cast<MutexFn>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
        return fn;
    }
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m)
{
    bool const lib = sim::in_library();
    Held *h = lib ? holder(m) : nullptr;
    if (h && h->task != sim::current_task()) return EBUSY;
    int r = real_trylock()(m);
    if (r == 0 && lib)
    {
        if (!h)
            for (auto &f : held)
                if (!f.count || f.run != sim::stats().runs) { f = {m, sim::current_task(), 0, sim::stats().runs}; h = &f; break; }
        if (h) ++h->count;
    }
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (sim::in_library())
        if (Held *h = holder(m)) --h->count;
    return real_unlock()(m);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
    for (;;)
    {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY || !sim::in_library()) return r;
        sim::switch_away_waiting("mutex");
    }
}
extern "C" int sched_yield()
{
    static unsigned n = 0;
    if (sim::in_library() && ++n > 1000) { n = 0; sim::switch_away_waiting("spinning with yield"); }
    return 0;
}
