// Command line of a simulation binary (one per property):
//   sim explore SEED FROM TO STATS OUT   runs FROM..TO of SEED; a violation is written to OUT (exit 3)
//   sim hashes  SEED i...                event hash of single runs, twice each, for determinism checks
//   sim replay  FILE                     exit 3 and the same violation, or 0
//   sim minimise FILE OUT SECONDS        smaller plan with the same violation
//   sim plan SEED i                      prints the executed plan of one run
#include <csignal>
#include <fcntl.h>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include "runner.hpp"

using namespace sim;

static u64 mix_seed(u64 base, u64 i)
{
    Rng r(base * 0x9e3779b97f4a7c15ull + 0x7f4a7c15);
    u64 a = r.next();
    Rng s(a ^ (i * 0xd1342543de82ef95ull));
    return s.next() >> 1;
}
static Plan draw(u64 base, u64 i, Knobs &k)
{
    Plan p;
    p.prop = workload().prop;
    p.seed = mix_seed(base, i);
    Rng rng(p.seed);
    workload().plan(p, k, rng);
    return p;
}
static std::string slurp(char const *f)
{
    std::ifstream in(f);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
static std::string json_escape(std::string const &s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}
static unsigned timeout_s() { char const *t = getenv("SIM_RUN_TIMEOUT"); return t ? unsigned(atoi(t)) : 20; }

static int explore(u64 base, u64 from, u64 to, char const *statfile, std::string outfile)
{
    std::ofstream out(statfile);
    std::ostringstream samples, hashes;
    double seconds = getenv("SIM_SECONDS") ? atof(getenv("SIM_SECONDS")) : 0;
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    bool first = true, firsth = true;
    int idx = open(outfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    u64 i = from;
    for (; i < to; ++i)
    {
        Knobs k;
        Plan p = draw(base, i, k);
        char number[24];
        int digits = snprintf(number, sizeof number, "%020llu", (unsigned long long)i);
        if (pwrite(idx, number, size_t(digits), 0) != digits) return 9;
        auto r = run(p, &k, timeout_s());
        if (i % 97 == 0)
        {
            hashes << (firsth ? "" : ",") << "[" << i << ",\"" << r.hash << "\"]";
            firsth = false;
        }
        if (i == from || (i == from + 1 && r.switches))
        {
            samples << (first ? "" : ",") << "\"" << json_escape(to_text(executed_plan())) << "\"";
            first = false;
        }
        if (seconds > 0 && (i & 63) == 63)
        {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (double(t1.tv_sec - t0.tv_sec) + double(t1.tv_nsec - t0.tv_nsec) / 1e9 > seconds) { ++i; break; }
        }
    }
    Stats const &s = stats();
    out << "{\"runs\":" << s.runs << ",\"ops\":" << s.ops << ",\"skipped\":" << s.skipped << ",\"steps\":" << s.steps << ",\"switches\":" << s.switches
        << ",\"next\":" << i << ",\"traces\":[";
    bool f = true;
    for (u64 t : s.traces) { out << (f ? "" : ",") << "\"" << std::hex << t << std::dec << "\""; f = false; }
    out << "],\"states\":[";
    f = true;
    for (u64 t : s.states) { out << (f ? "" : ",") << "\"" << std::hex << t << std::dec << "\""; f = false; }
    out << "],\"fired\":{";
    f = true;
    for (auto const &[k, v] : s.fired) { out << (f ? "" : ",") << "\"" << k << "\":" << v; f = false; }
    out << "},\"probes\":{";
    f = true;
    for (auto const &[k, v] : s.probes) { out << (f ? "" : ",") << "\"" << k << "\":" << v; f = false; }
    out << "},\"hashes\":[" << hashes.str() << "],\"samples\":[" << samples.str() << "]}\n";
    out.flush();
    return out ? 0 : 9;
}

// Runs a plan in a child; returns the violation class, "" if none.
static std::string try_plan(Plan const &p)
{
    int fd[2];
    if (pipe(fd)) _exit(9);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        dup2(fd[1], 1);
        int nul = open("/dev/null", 1);
        dup2(nul, 2);
        set_out_file("");
        run(p, nullptr, std::min(timeout_s(), 10u));
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[4096];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, std::size_t(n));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 3 || s.rfind("FOUND ", 0) != 0) return "";
    return s.substr(6, s.find(' ', 6) - 6);
}

static int minimise(char const *in, char const *out, double seconds)
{
    Plan best = from_text(slurp(in));
    std::string const what = try_plan(best);
    if (what.empty()) return 4;
    timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    auto time_left = [&] {
        timespec t1;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        return double(t1.tv_sec - t0.tv_sec) + double(t1.tv_nsec - t0.tv_nsec) / 1e9 < seconds;
    };
    int tried = 0;
    auto accept = [&](Plan const &c) {
        ++tried;
        if (try_plan(c) != what) return false;
        best = c;
        return true;
    };
    for (bool changed = true; changed && time_left();)
    {
        changed = false;
        // events: in halves, quarters, ... then one by one
        for (std::size_t chunk = best.events.size(); chunk >= 1 && time_left(); chunk /= 2)
            for (std::size_t i = 0; i < best.events.size() && time_left();)
            {
                Plan c = best;
                c.events.erase(c.events.begin() + long(i), c.events.begin() + long(std::min(i + chunk, c.events.size())));
                if (accept(c)) changed = true;
                else i += chunk;
            }
        for (std::size_t i = best.ops.size(); i-- > 0 && time_left();)
        {
            Plan c = best;
            int id = c.ops[i].id;
            c.ops.erase(c.ops.begin() + long(i));
            std::erase_if(c.events, [&](Event const &e) { return e.op == id || (e.kind == EV_NEST && e.x == id); });
            if (accept(c)) changed = true;
        }
        for (std::size_t i = 0; i < best.texts.size() && time_left(); ++i)
            for (std::size_t chunk = std::max<std::size_t>(best.texts[i].size() / 2, 1); chunk >= 1 && time_left(); chunk /= 2)
                for (std::size_t j = 0; j < best.texts[i].size() && time_left();)
                {
                    Plan c = best;
                    c.texts[i].erase(j, chunk);
                    if (accept(c)) changed = true;
                    else j += chunk;
                }
        for (std::size_t i = 0; i < best.ops.size() && time_left(); ++i)
            for (int a = 0; a < 8 && time_left(); ++a)
                if (best.ops[i].a[a] > 0)
                {
                    Plan c = best;
                    c.ops[i].a[a] = 0;
                    if (accept(c)) { changed = true; continue; }
                    c = best;
                    --c.ops[i].a[a];
                    if (accept(c)) changed = true;
                }
    }
    // final run writes the file with the violation's own header
    set_out_file(out);
    pid_t pid = fork();
    if (pid == 0) { run(best, nullptr, timeout_s()); _exit(0); }
    int st = 0;
    waitpid(pid, &st, 0);
    printf("minimised with %d candidates to %zu operations, %zu events\n", tried, best.ops.size(), best.events.size());
    return WIFEXITED(st) && WEXITSTATUS(st) == 3 ? 0 : 5;
}

int main(int argc, char **argv)
{
    load_patterns();
    install_handlers();
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "explore" && argc == 7)
    {
        set_out_file(argv[6]);
        return explore(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), argv[5], std::string(argv[6]) + ".idx");
    }
    if (cmd == "hashes" && argc > 3)
    {
        u64 base = strtoull(argv[2], nullptr, 10);
        for (int i = 3; i < argc; ++i)
        {
            Knobs k;
            u64 n = strtoull(argv[i], nullptr, 10);
            Plan p = draw(base, n, k);
            u64 a = run(p, &k, timeout_s()).hash;
            Plan executed = executed_plan();
            u64 b = run(p, &k, timeout_s()).hash;
            u64 c = run(executed, nullptr, timeout_s()).hash;     // the same decisions, obeyed instead of drawn
            printf("%llu %llu %llu %llu\n", (unsigned long long)n, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
        }
        return 0;
    }
    if (cmd == "replay" && argc >= 3)
    {
        if (argc > 3) set_out_file(argv[3]);
        auto r = run(from_text(slurp(argv[2])), nullptr, timeout_s());
        printf("HELD hash %llu\n", (unsigned long long)r.hash);
        return 0;
    }
    if (cmd == "minimise" && argc == 5) return minimise(argv[2], argv[3], atof(argv[4]));
    if (cmd == "plan" && argc == 4)
    {
        Knobs k;
        Plan p = draw(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10), k);
        run(p, &k, timeout_s());
        fputs(to_text(executed_plan()).c_str(), stdout);
        return 0;
    }
    if (cmd == "patterns")
    {
        for (auto const &p : patterns()) puts(p.key().c_str());
        return 0;
    }
    fprintf(stderr, "usage\n");
    return 2;
}
