// Deterministic single-process simulator: tasks are fibers, every operation of the library on a caller-supplied iterator,
// every allocation, every character accepted by a stream and every user callback is a step at which the simulator decides
// what happens next. One seed is one execution; the decisions taken are recorded and can be replayed without the seed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <iosfwd>
#include <iterator>
#include <map>
#include <string>
#include <string_view>
#include <vector>
#include "model.hpp"

namespace sim
{
    using u32 = std::uint32_t;
    using u64 = std::uint64_t;
    constexpr int MAXG = model::MAXG;

    struct Rng
    {
        u64 s;
        explicit Rng(u64 seed = 0) : s(seed) {}
        u64 next()
        {
            u64 z = (s += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        u32 below(u64 n) { return n ? u32(next() % n) : 0; }
        bool chance(u32 num, u32 den) { return below(den) < num; }
        template<typename V> auto const &pick(V const &v) { return v[below(v.size())]; }
    };

    // ------------------------------------------------------------------------------------------------ plan and events
    struct Op
    {
        int id = 0;
        int task = -1;          // -1: only run nested inside another operation
        int code = 0;
        int pat = -1, kind = 0;
        int a[8] = {0, 0, 0, 0, 0, 0, 0, 0};
    };

    enum EvKind : char
    {
        EV_YIELD = 'Y',         // switch to task x
        EV_NEST = 'R',          // run operation x nested inside this access
        EV_MUTATE = 'M',        // overwrite tape x, offset y, with character z, while the call is in progress
        EV_THROW = 'X',         // the access fails with an exception
        EV_STALL = 'S',         // this task stops until every other task is done
        EV_ABANDON = 'B',       // this task is never resumed
        EV_NOMEM = 'A',         // this allocation fails
        EV_ENV = 'E'            // the process-wide settings become number x
    };
    struct Event
    {
        int op;
        u64 step;               // step number inside the operation (EV_NOMEM: allocation number)
        char kind;
        int x = 0, y = 0, z = 0;
    };

    struct Plan
    {
        std::string prop;
        u64 seed = 0;
        int ntasks = 1;
        std::vector<std::string> texts;
        std::vector<std::pair<int, int>> tapes;     // (initial text, placement)
        std::vector<Op> ops;
        std::vector<Event> events;                  // recorded while exploring, obeyed when replaying
    };

    struct Knobs                                     // drawn per run (swarm)
    {
        u32 yield_1_in = 0, nest_1_in = 0, mutate_1_in = 0, throw_1_in = 0, stall_1_in = 0, abandon_1_in = 0, nomem_1_in = 0, env_1_in = 0;
        bool nomem_all = false;
        int nest_depth = 2;
        bool crowd = false;                          // many more operations and objects than usual
    };

    // ------------------------------------------------------------------------------------------------ tapes and windows
    struct Tape
    {
        char *page = nullptr;   // first usable byte, between two inaccessible pages
        char *text = nullptr;
        int len = 0;
        int placement = 0;      // 0: ends at the inaccessible page, 1: starts there, 2: in the middle
        int in_flight = 0;
    };
    constexpr int TAPE_CAP = 128 << 10;
    Tape &tape(int i);
    int tape_count();
    void set_tape(int i, std::string_view text);

    struct Window
    {
        Tape *t = nullptr;
        int lo = 0, hi = 0;
        std::string_view view() const { return {t->text + lo, std::size_t(hi - lo)}; }
        int size() const { return hi - lo; }
    };
    Window const *make_window(int tape, int lo, int hi);     // lives until the end of the run

    // ------------------------------------------------------------------------------------------------ steps
    enum StepKind { SK_DEREF, SK_INC, SK_DEC, SK_EQ, SK_DIFF, SK_ADD, SK_OUT, SK_CALLBACK, SK_N };

    struct InputError { int op; u64 step; };

    struct Frame                                    // one operation in progress
    {
        Op const *op = nullptr;
        u64 steps = 0, derefs = 0, allocs = 0, budget = 0, soft_budget = 0;
        u64 throws = 0, mutations = 0, nomem = 0;
        int read_lo = 1 << 30, read_hi = -1;         // lowest and highest position read since these were last reset
        int in_lib = 0;
        bool fail_all_allocs = false, faults_off = false, allocs_armed = false;
        bool may_die = false, throw_always = false;  // std::terminate after a failed read counts as "the program stopped"
        bool throw_reads_only = false;
        u64 throw_at = ~0ull;                        // this access, or the first read after it, fails
        u64 fail_alloc_at = ~0ull, fail_alloc_from = ~0ull;
        unsigned fail_alloc_mask = 0;               // bit n % 16: the n-th allocation fails
        Frame *parent = nullptr;
    };
    Frame &frame();
    void step(StepKind k, int pos);                  // slow path below
    void bad_access(char const *what, Window const *w, int pos);

    struct UserRegion                                // user code called by the library runs inside this scope
    {
        UserRegion();
        ~UserRegion();
        UserRegion(UserRegion const &) = delete;
    private:
        Frame *f;
        int saved;
    };
    struct LibRegion                                 // the library runs inside this scope
    {
        LibRegion();
        ~LibRegion();
        LibRegion(LibRegion const &) = delete;
    private:
        Frame *f;
    };

    // ------------------------------------------------------------------------------------------------ iterators
    enum Kind { FWD, BID, RA, CONT, PTR, REV, STR, NKINDS };
    constexpr char const *kind_names[NKINDS] = {"fwd", "bid", "ra", "cont", "ptr", "rev", "str"};

    template<Kind K>
    struct ItConcept { using category = std::forward_iterator_tag; using concept_ = std::forward_iterator_tag; };
    template<> struct ItConcept<BID> { using category = std::bidirectional_iterator_tag; using concept_ = category; };
    template<> struct ItConcept<RA> { using category = std::random_access_iterator_tag; using concept_ = category; };
    template<> struct ItConcept<CONT> { using category = std::random_access_iterator_tag; using concept_ = std::contiguous_iterator_tag; };

    extern char const dummy_char;

    inline void check_deref(Window const *w, long p) { if (!w || p < w->lo || p >= w->hi) bad_access("read", w, int(p)); }
    inline void check_pos(Window const *w, long p, char const *what) { if (!w || p < w->lo || p > w->hi) bad_access(what, w, int(p)); }

    template<Kind K>
    struct It
    {
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using reference = char const &;
        using pointer = char const *;
        using iterator_category = typename ItConcept<K>::category;
        using iterator_concept = typename ItConcept<K>::concept_;

        Window const *w = nullptr;
        long p = 0;

        It() noexcept = default;
        It(Window const *w, long p) noexcept : w(w), p(p) {}

        reference operator*() const
        {
            step(SK_DEREF, int(p));
            check_deref(w, p);
            if (!w || p < w->lo || p >= w->hi) return dummy_char;
            return w->t->text[p];
        }
        pointer operator->() const requires (K != CONT) { return &**this; }
        pointer operator->() const requires (K == CONT)
        {
            if (!w) return nullptr;
            check_pos(w, p, "address");
            return w->t->text + p;
        }
        It &operator++() { step(SK_INC, int(p)); check_pos(w, p + 1, "++"); ++p; return *this; }
        It operator++(int) { It r = *this; ++*this; return r; }
        It &operator--() requires (K >= BID) { step(SK_DEC, int(p)); check_pos(w, p - 1, "--"); --p; return *this; }
        It operator--(int) requires (K >= BID) { It r = *this; --*this; return r; }
        It &operator+=(difference_type n) requires (K >= RA) { step(SK_ADD, int(p)); check_pos(w, p + n, "+="); p += n; return *this; }
        It &operator-=(difference_type n) requires (K >= RA) { return *this += -n; }
        friend It operator+(It i, difference_type n) requires (K >= RA) { return i += n; }
        friend It operator+(difference_type n, It i) requires (K >= RA) { return i += n; }
        friend It operator-(It i, difference_type n) requires (K >= RA) { return i += -n; }
        friend difference_type operator-(It const &a, It const &b) requires (K >= RA)
        {
            step(SK_DIFF, int(a.p));
            if (a.w != b.w) bad_access("difference of iterators into different inputs", a.w, int(a.p));
            return a.p - b.p;
        }
        reference operator[](difference_type n) const requires (K >= RA) { return *(*this + n); }
        friend bool operator==(It const &a, It const &b)
        {
            step(SK_EQ, int(a.p));
            if (a.w != b.w) bad_access("comparison of iterators into different inputs", a.w, int(a.p));
            return a.w == b.w && a.p == b.p;
        }
        friend auto operator<=>(It const &a, It const &b) requires (K >= RA)
        {
            step(SK_EQ, int(a.p));
            if (a.w != b.w) bad_access("comparison of iterators into different inputs", a.w, int(a.p));
            return a.p <=> b.p;
        }
    };
    static_assert(std::forward_iterator<It<FWD>> && !std::bidirectional_iterator<It<FWD>>);
    static_assert(std::bidirectional_iterator<It<BID>> && !std::random_access_iterator<It<BID>>);
    static_assert(std::random_access_iterator<It<RA>> && !std::contiguous_iterator<It<RA>>);
}
namespace sim
{
    static_assert(std::contiguous_iterator<It<CONT>>);

    // A range over a window, for the overloads that take ranges.
    template<typename I>
    struct TapeRange
    {
        I b, e;
        I begin() const { return b; }
        I end() const { return e; }
    };

    // ------------------------------------------------------------------------------------------------ observations
    struct Obs                       // what a caller can see of a result, in coordinates of its input (0 = first character)
    {
        bool matched = false;
        int n = 0;                   // groups, including 0
        int b[MAXG], e[MAXG];        // -1: refers to no position
        long length = 0;
        char const *inconsistent = nullptr;   // two accessors of the same result disagree
        bool same(Obs const &o) const;
        std::string str() const;
    };
    struct Text                      // the same by content, for results that own their text
    {
        bool matched = false;
        int n = 0;
        std::string g[MAXG];
        long length = 0;
        char const *inconsistent = nullptr;
        bool operator==(Text const &o) const;
        std::string str() const;
    };
    Text text_of(Obs const &o, std::string_view input);

    // ------------------------------------------------------------------------------------------------ patterns
    struct LazyVT                    // a lazy tokenizer/searcher (generator) or match range, type-erased
    {
        std::size_t size = 0;
        void (*create)(void *, Window const *, int form) = nullptr;
        void (*copy)(void *, void const *) = nullptr;
        void (*move)(void *, void *) = nullptr;
        void (*assign)(void *, void const *) = nullptr;
        void (*move_assign)(void *, void *) = nullptr;
        void (*destroy)(void *) = nullptr;
        // generator: how 0 next(), 1 operator()
        // range: how 0 ++it, 1 it++, 2 compute through a fresh begin()
        void (*pull)(void *, int how, Window const *, Obs &) = nullptr;
        // range only: looks at the current element through *it, -> or current_result()
        void (*current)(void *, int how, Window const *, Obs &) = nullptr;
        bool (*active)(void *, int how) = nullptr;
        // range only: iterates with range-for to the end, reports each element
        int (*each)(void *, Window const *, Obs *out, int max) = nullptr;
        // pulls (how as above; range: how 3 does not advance) and keeps the view result
        void (*take)(void *, int how, void *result) = nullptr;
    };

    // User code called back by the library. It fails when told to, and remembers what it was shown.
    struct UserError { int token; };
    struct CallLog
    {
        int throw_at = -1, calls = 0, token = 0;
        int live = 0;                // values made by a transformer and not destroyed yet
        int b[MAXG * 2], e[MAXG * 2];
        std::string text[MAXG * 2];
        Window const *w = nullptr;
        std::vector<void const *> at;      // where the groups are, if the callback must be given those
        int strangers = 0;
    };

    struct ResVT                     // results, views and owning ones, type-erased
    {
        std::size_t view_size = 0, own_size = 0;
        void (*view)(void *v, int method, Window const *) = nullptr;
        void (*view_obs)(void const *v, Window const *, Obs &) = nullptr;
        void (*view_text)(void const *v, int how, Text &) = nullptr;              // copies the text out: content() or by construction
        void (*view_copy)(void *d, void const *s) = nullptr;
        bool (*view_optional)(void *d, void *s, int form) = nullptr;
        void (*own_view)(void *o, void const *v) = nullptr;                      // as_memory_owner
        void (*own_temp)(void *o, int method, int container, std::string_view) = nullptr;
        void (*own_text)(void const *o, Text &) = nullptr;
        void (*own_copy)(void *d, void const *s) = nullptr;
        void (*own_move)(void *d, void *s) = nullptr;
        void (*own_assign)(void *d, void const *s) = nullptr;
        void (*own_move_assign)(void *d, void *s) = nullptr;
        void (*own_destroy)(void *) = nullptr;
        bool (*own_optional)(void *d, void *s, int form) = nullptr;               // true: *d now holds the result
        void (*own_edit)(void *o, int group, int how, std::string_view) = nullptr;
        void (*own_take)(void *o, int group, int how, std::string &out) = nullptr;
        void (*transform)(void const *r, int own, Text &) = nullptr;
        void (*put)(std::ostream &, void const *r, int own, int group) = nullptr; // group -1: the result itself
        void (*visit)(void *r, int own, int form, CallLog &) = nullptr;
        void (*track)(void const *r, int own, int form, CallLog &) = nullptr;     // transform_groups
        void (*view_assign)(void *d, void *s, int move) = nullptr;
        void (*view_destroy)(void *v) = nullptr;
        void (*view_full)(void const *v, Window const *, Obs &) = nullptr;        // through every accessor
        bool (*view_clear)(void *v, int group, int how) = nullptr;
        void (*view_use)(void *v, int how) = nullptr;                             // anything that leaves it as it is
        // texts of the same group of a and b, and of another group of a, all held at once; 0: content(), 1: string_view or iteration
        void (*view_hold)(void const *a, void const *b, int group, int how, std::string out[3]) = nullptr;
        // reads one group's text; the positions read are in the frame
        void (*view_read)(void const *v, int group, std::string &out) = nullptr;
    };

    struct KindVT
    {
        ResVT res;
        void (*call)(int method, int form, Window const *, Obs &) = nullptr;
        LazyVT lazy[4];              // tokenizer, searcher, tokenize range, find_all range
    };

    struct Pattern
    {
        char const *text;            // with explicit length, patterns may hold any byte
        std::size_t len;
        unsigned flags;
        bool curated;
        char const *how;             // "string" or "expression"
        KindVT kinds[NKINDS];
        bool has[NKINDS] = {};
        model::Regex ref;
        std::string key() const;     // flags and pattern, for replay files
    };
    std::vector<Pattern> &patterns();
    struct PatternReg { PatternReg(Pattern (*make)()); };
    void load_patterns();            // builds every registered pattern and its model; call once

    // ------------------------------------------------------------------------------------------------ running
    struct Workload
    {
        char const *prop;
        void (*plan)(Plan &, Knobs &, Rng &);        // draws everything but the schedule and the step-level faults
        void (*begin)();                             // before the tasks start
        void (*exec)(Op const &);                    // runs one operation (in a task, or nested)
        void (*finish)();                            // after the tasks are done
        bool allow_nest, window_oracle;
        void (*environment)(int) = nullptr;          // makes process-wide settings number x current
        int environments = 0;
    };
    Workload const &workload();

    [[noreturn]] void violate(char const *what, char const *fmt, ...) __attribute__((format(printf, 2, 3)));
    void log_value(u64 v);                           // into the run's event hash
    void probe(char const *name, u64 n = 1);         // "this rare condition was reached"
    void fired(char const *fault);                   // a fault injected by a workload took effect
    Rng &run_rng();                                  // only for decisions that are recorded
    bool replaying();
    Plan &plan();
    int current_task();
    int task_depth();                                // 0: operation of the task itself, > 0: nested
    bool run_over();                                 // only for finish()

    // allocations made while the library runs
    struct AllocStats { long live_blocks; u64 total; };
    AllocStats alloc_stats();

    void note_result(Obs const &);
    void note_result(Text const &);
}
