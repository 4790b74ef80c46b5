// C16: no process-wide setting alters an answer.
#include <cctype>
#include <cwctype>
#include <cstring>
#include <clocale>
#include <locale>
#include "wl_common.hpp"

namespace sim
{
    namespace
    {
        // Simulated single-byte locales. 0: the default one, 1: Turkish (ISO 8859-9), 2: Western European (ISO 8859-1),
        // 3: one in which more characters are digits, spaces and letters than anybody would expect.
        constexpr int NENV = 4;
        enum : unsigned { UPPER = 1, LOWER = 2, ALPHA = 4, DIGIT = 8, SPACE = 16, PUNCT = 32, XDIGIT = 64, CNTRL = 128, PRINT = 256, BLANK = 512 };
        struct Env
        {
            unsigned cls[256];
            unsigned char lower[256], upper[256];
            int weight[256];                 // for collation
        };
        constinit Env envs[NENV]{};
        int current = 0;       // what the process has
        int wanted = 0;        // what the simulator has installed
        constexpr char const *names[NENV] = {"C", "tr_TR.ISO8859-9", "en_US.ISO8859-1", "xx_XX"};

        struct Facet : std::ctype<char>
        {
            Env const &e;
            mask table[256];
            static mask const *fill(mask *t, Env const &e)
            {
                for (int c = 0; c < 256; ++c)
                {
                    unsigned x = e.cls[c];
                    t[c] = mask((x & UPPER ? upper : 0) | (x & LOWER ? lower : 0) | (x & ALPHA ? alpha : 0) | (x & DIGIT ? digit : 0) | (x & SPACE ? space : 0) |
                                (x & PUNCT ? punct : 0) | (x & XDIGIT ? xdigit : 0) | (x & CNTRL ? cntrl : 0) | (x & PRINT ? print : 0) | (x & BLANK ? blank : 0));
                }
                return t;
            }
            explicit Facet(Env const &e) : std::ctype<char>(fill(table, e), false, 1), e(e) {}
            char do_tolower(char c) const override { return char(e.lower[static_cast<unsigned char>(c)]); }
            char do_toupper(char c) const override { return char(e.upper[static_cast<unsigned char>(c)]); }
            char const *do_tolower(char *b, char const *end) const override { for (; b < end; ++b) *b = do_tolower(*b); return end; }
            char const *do_toupper(char *b, char const *end) const override { for (; b < end; ++b) *b = do_toupper(*b); return end; }
        };
        struct Collate : std::collate<char>
        {
            Env const &e;
            explicit Collate(Env const &e) : std::collate<char>(1), e(e) {}
            int do_compare(char const *a, char const *ae, char const *b, char const *be) const override
            {
                for (; a < ae && b < be; ++a, ++b)
                    if (int d = e.weight[static_cast<unsigned char>(*a)] - e.weight[static_cast<unsigned char>(*b)]) return d < 0 ? -1 : 1;
                return a < ae ? 1 : b < be ? -1 : 0;
            }
        };

        __attribute__((constructor(101))) void build()     // before anything asks
        {
            for (int n = 0; n < NENV; ++n)
            {
                Env &e = envs[n];
                for (int c = 0; c < 256; ++c)
                {
                    unsigned x = 0;
                    if (c >= 'A' && c <= 'Z') x |= UPPER | ALPHA;
                    if (c >= 'a' && c <= 'z') x |= LOWER | ALPHA;
                    if (c >= '0' && c <= '9') x |= DIGIT | XDIGIT;
                    if ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) x |= XDIGIT;
                    if (c == ' ' || (c >= 9 && c <= 13)) x |= SPACE;
                    if (c == ' ' || c == 9) x |= BLANK;
                    if (c < 32 || c == 127) x |= CNTRL;
                    if (c >= 32 && c < 127) x |= PRINT;
                    if (c > 32 && c < 127 && !(x & (ALPHA | DIGIT))) x |= PUNCT;
                    e.lower[c] = (unsigned char)(x & UPPER ? c + 32 : c);
                    e.upper[c] = (unsigned char)(x & LOWER ? c - 32 : c);
                    e.weight[c] = c;
                    if (n == 1 || n == 2)
                    {
                        if (c >= 0xa0) x |= PRINT;
                        if (c == 0xa0) x |= SPACE | BLANK;
                        if (c >= 0xc0 && c <= 0xde && c != 0xd7) { x |= UPPER | ALPHA; e.lower[c] = (unsigned char)(c + 32); }
                        if (c >= 0xdf && c != 0xf7) { x |= LOWER | ALPHA; if (c >= 0xe0 && c <= 0xfe) e.upper[c] = (unsigned char)(c - 32); }
                        if (c > 0xa0 && c < 0xc0) x |= PUNCT;
                        e.weight[c] = e.upper[c] * 2 + (x & LOWER ? 1 : 0);
                    }
                    if (n == 3)
                    {
                        if (c >= 0x80) { x |= c & 1 ? ALPHA | LOWER : DIGIT | SPACE; x |= PRINT; }
                        if (c == '-' || c == '.') x |= ALPHA;
                        if (c == '_') x |= SPACE;
                        e.lower[c] = (unsigned char)(c >= 'A' && c <= 'Z' ? c + 32 : c == '[' ? '{' : c);
                        e.weight[c] = 255 - c;
                    }
                    e.cls[c] = x;
                }
                if (n == 1)
                {
                    e.lower['I'] = 0xfd;     // dotless i
                    e.upper['i'] = 0xdd;     // capital i with dot
                    e.lower[0xdd] = 'i';
                    e.upper[0xfd] = 'I';
                }
            }
        }
        std::locale const &installed(int n)
        {
            static std::locale const all[NENV] = {std::locale::classic(), std::locale(std::locale(std::locale::classic(), new Facet(envs[1])), new Collate(envs[1])),
                                                  std::locale(std::locale(std::locale::classic(), new Facet(envs[2])), new Collate(envs[2])),
                                                  std::locale(std::locale(std::locale::classic(), new Facet(envs[3])), new Collate(envs[3]))};
            return all[n];
        }
        bool is(int c, unsigned mask) { return c >= -128 && c < 256 && (envs[current].cls[static_cast<unsigned char>(c)] & mask) != 0; }

        void change(int n)
        {
            if (n < 0 || n >= NENV || n == wanted) return;
            wanted = n;
            std::locale::global(installed(n));
            current = n;
            log_value(u64(n));
        }

        enum { CALL, DRAIN, CHANGE };

        void make_plan(Plan &p, Knobs &k, Rng &rng)
        {
            auto pats = pick_patterns(rng, 3);
            p.ntasks = draw_tasks(rng, 3);
            int ntapes = 1 + int(rng.below(unsigned(p.ntasks) + 1));
            auto const aim = common_tapes(p, rng, pats, ntapes, 44, rng.below(2));
            // characters about which locales disagree
            static constexpr unsigned char touchy[] = {'i', 'I', 0xdd, 0xfd, 0xe9, 0xc9, 0xa0, 0xb5, 0xdf, 0xff, 0x80, 0x81, '_', '-', 's', 'S', 'K', 'k', '[', '{', '0', 0xb2};
            u32 const rate = 2 + rng.below(12);
            if (rng.below(4))
                for (auto &t : p.texts)
                    if (t.size() < 400)
                        for (auto &c : t)
                            if (rng.below(rate) == 0) c = char(touchy[rng.below(sizeof touchy)]);
            common_knobs(k, rng, p.ntasks > 1, rng.below(3) == 0);
            static constexpr u32 rates[] = {0, 1, 3, 10, 40};
            k.env_1_in = rates[rng.below(5)];
            int id = 0;
            auto add = [&](int task, bool change_too) {
                Op o;
                o.id = id++;
                o.task = task;
                u32 r = rng.below(8);
                o.code = change_too && r < 2 ? CHANGE : r < 6 ? CALL : DRAIN;
                o.pat = rng.pick(pats);
                o.kind = pick_kind(rng, patterns()[std::size_t(o.pat)]);
                o.a[0] = o.code == CALL ? draw_method(rng) : int(rng.below(4));
                o.a[1] = int(rng.below(5));
                o.a[2] = aim.pick(rng, o.pat, o.kind);
                p.ops.push_back(o);
            };
            for (int t = 0; t < p.ntasks; ++t)
            {
                for (u32 n = 2 + rng.below(6); n-- > 0;) add(t, true);
                add(t, false);
            }
            if (k.nest_1_in)
                for (u32 n = crowded(k, rng, 1 + rng.below(4), true); n-- > 0;) add(-1, true);
        }

        void compare(Op const &op, Obs const &got, model::Result const &want, std::string const &text, char const *what)
        {
            Pattern const &p = patterns()[std::size_t(op.pat)];
            note_result(got);
            std::string d = differs(got, want, p.ref.groups());
            if (!d.empty())
                violate("environment", "%s of pattern %s (flags %u) on %s, with process-wide settings %d: %s", what, show({p.text, p.len}).c_str(), p.flags, show(text).c_str(), current,
                        d.c_str());
            if (current) probe("answer_checked_elsewhere");
        }

        void exec(Op const &op)
        {
            if (op.code == CHANGE) { change(op.a[0] % NENV); probe("changed_between_calls"); return; }
            if (op.a[2] >= tape_count()) return;
            Pattern const &p = patterns()[std::size_t(op.pat)];
            Window const *w = window_for(op.a[2], 0, 0);
            std::string const text = oriented(w, op.kind);
            if (op.code == CALL)
            {
                static char const *names[] = {"match", "match_prefix", "search"};
                auto want = ask(p, op.kind, op.a[0], text);
                if (want.capped) { ++stats().skipped; return; }
                Obs got;
                p.kinds[op.kind].call(op.a[0], op.a[1], w, got);
                compare(op, got, want, text, names[op.a[0]]);
            }
            else
            {
                static char const *const lazy_names[4] = {"tokenizer", "searcher", "tokenize range", "find_all range"};
                LazyVT const &vt = p.kinds[op.kind].lazy[op.a[0]];
                Mem m(vt.size);
                int from = 0;
                bool made = false;
                for (int n = 0; n < 60; ++n)
                {
                    auto want = ask(p, op.kind, op.a[0] % 2 ? model::SEARCH : model::PREFIX, text, from);
                    if (want.capped) { ++stats().skipped; return; }
                    Obs got;
                    if (!made) vt.create(m.p, w, op.a[1] % 4);
                    if (made || op.a[0] < 2) vt.pull(m.p, n & 1, w, got);
                    else vt.current(m.p, 0, w, got);
                    made = true;
                    compare(op, got, want, text, lazy_names[op.a[0]]);
                    if (!want.matched || want.end[0] == want.begin[0]) break;
                    from = want.end[0];
                }
                vt.destroy(m.p);
            }
            if (current != wanted || std::locale() != installed(wanted))
                violate("environment", "an operation on pattern %s changed the process-wide settings", show({p.text, p.len}).c_str());
        }
        void begin()
        {
            installed(0);
            std::locale::global(std::locale::classic());
            current = wanted = 0;
        }
        void finish() { begin(); }
    }
    Workload const &workload()
    {
        static Workload const w{"C16", make_plan, begin, exec, finish, true, false, change, NENV};
        return w;
    }
}

// The C library's character functions, as the simulated process sees them.
extern "C"
{
    using sim::is;
    using namespace sim;
    int isalnum(int c) noexcept { return is(c, ALPHA | DIGIT); }
    int isalpha(int c) noexcept { return is(c, ALPHA); }
    int isblank(int c) noexcept { return is(c, BLANK); }
    int iscntrl(int c) noexcept { return is(c, CNTRL); }
    int isdigit(int c) noexcept { return is(c, DIGIT); }
    int isgraph(int c) noexcept { return is(c, PRINT) && !is(c, SPACE); }
    int islower(int c) noexcept { return is(c, LOWER); }
    int isprint(int c) noexcept { return is(c, PRINT); }
    int ispunct(int c) noexcept { return is(c, PUNCT); }
    int isspace(int c) noexcept { return is(c, SPACE); }
    int isupper(int c) noexcept { return is(c, UPPER); }
    int isxdigit(int c) noexcept { return is(c, XDIGIT); }
    int tolower(int c) noexcept { return c >= -128 && c < 256 ? envs[current].lower[static_cast<unsigned char>(c)] : c; }
    int toupper(int c) noexcept { return c >= -128 && c < 256 ? envs[current].upper[static_cast<unsigned char>(c)] : c; }
    int strcasecmp(char const *a, char const *b) noexcept
    {
        for (;; ++a, ++b)
            if (int d = tolower(static_cast<unsigned char>(*a)) - tolower(static_cast<unsigned char>(*b)); d || !*a) return d;
    }
    int strncasecmp(char const *a, char const *b, std::size_t n) noexcept
    {
        for (; n-- > 0; ++a, ++b)
            if (int d = tolower(static_cast<unsigned char>(*a)) - tolower(static_cast<unsigned char>(*b)); d || !*a) return d;
        return 0;
    }
    int strcoll(char const *a, char const *b) noexcept
    {
        for (;; ++a, ++b)
            if (int d = envs[current].weight[static_cast<unsigned char>(*a)] - envs[current].weight[static_cast<unsigned char>(*b)]; d || !*a) return d;
    }
    char *setlocale(int, char const *name) noexcept
    {
        if (name)
        {
            int n = 0;
            if (*name)
                for (n = 0; n < NENV && std::strcmp(name, names[n]) && std::strcmp(name, "POSIX"); ++n) {}
            if (n == NENV) return nullptr;
            current = n;
        }
        return const_cast<char *>(names[current]);
    }
#define SIM_CLASS(name) \
    int name##_l(int c, locale_t) noexcept { return name(c); } \
    int __##name##_l(int c, locale_t) noexcept { return name(c); }
    SIM_CLASS(isalnum) SIM_CLASS(isalpha) SIM_CLASS(isblank) SIM_CLASS(iscntrl) SIM_CLASS(isdigit) SIM_CLASS(isgraph) SIM_CLASS(islower) SIM_CLASS(isprint) SIM_CLASS(ispunct)
    SIM_CLASS(isspace) SIM_CLASS(isupper) SIM_CLASS(isxdigit) SIM_CLASS(tolower) SIM_CLASS(toupper)
#define SIM_WIDE(name, narrow) \
    int name(wint_t c) noexcept { return c < 256 ? narrow(int(c)) : 0; } \
    int name##_l(wint_t c, locale_t) noexcept { return name(c); }
    SIM_WIDE(iswalnum, isalnum) SIM_WIDE(iswalpha, isalpha) SIM_WIDE(iswblank, isblank) SIM_WIDE(iswcntrl, iscntrl) SIM_WIDE(iswdigit, isdigit) SIM_WIDE(iswgraph, isgraph)
    SIM_WIDE(iswlower, islower) SIM_WIDE(iswprint, isprint) SIM_WIDE(iswpunct, ispunct) SIM_WIDE(iswspace, isspace) SIM_WIDE(iswupper, isupper) SIM_WIDE(iswxdigit, isxdigit)
    wint_t towlower(wint_t c) noexcept { return c < 256 ? wint_t(tolower(int(c))) : c; }
    wint_t towupper(wint_t c) noexcept { return c < 256 ? wint_t(toupper(int(c))) : c; }
    // what C code reaches through macros, or gcc through inlined functions
    static unsigned short b_table[384];
    static std::int32_t lower_table[384], upper_table[384];
    static unsigned short const *b_pointer = b_table + 128;
    static std::int32_t const *lower_pointer = lower_table + 128, *upper_pointer = upper_table + 128;
    static int filled = -1;
    static void fill_tables()
    {
        if (filled == current) return;
        filled = current;
        for (int c = -128; c < 256; ++c)
        {
            auto bit = [](int n) { return unsigned(n < 8 ? (1 << n) << 8 : (1 << n) >> 8); };
            unsigned x = envs[current].cls[static_cast<unsigned char>(c)], r = 0;
            if (x & UPPER) r |= bit(0);
            if (x & LOWER) r |= bit(1);
            if (x & ALPHA) r |= bit(2);
            if (x & DIGIT) r |= bit(3);
            if (x & XDIGIT) r |= bit(4);
            if (x & SPACE) r |= bit(5);
            if (x & PRINT) r |= bit(6);
            if ((x & PRINT) && !(x & SPACE)) r |= bit(7);
            if (x & BLANK) r |= bit(8);
            if (x & CNTRL) r |= bit(9);
            if (x & PUNCT) r |= bit(10);
            if (x & (ALPHA | DIGIT)) r |= bit(11);
            b_table[c + 128] = (unsigned short)r;
            lower_table[c + 128] = envs[current].lower[static_cast<unsigned char>(c)];
            upper_table[c + 128] = envs[current].upper[static_cast<unsigned char>(c)];
        }
    }
    unsigned short const **__ctype_b_loc() noexcept { fill_tables(); return &b_pointer; }
    std::int32_t const **__ctype_tolower_loc() noexcept { fill_tables(); return &lower_pointer; }
    std::int32_t const **__ctype_toupper_loc() noexcept { fill_tables(); return &upper_pointer; }
}
