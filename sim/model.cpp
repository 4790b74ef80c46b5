#include "model.hpp"
#include <functional>
#include <type_traits>

namespace model
{
    namespace
    {
        using NodeP = std::unique_ptr<Node>;
        bool is_alpha(unsigned c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
        unsigned other_case(unsigned c) { return is_alpha(c) ? c ^ 0x20u : c; }
        bool is_word(unsigned c) { return is_alpha(c) || (c >= '0' && c <= '9') || c == '_'; }
        bool is_break(unsigned c) { return c == '\n' || c == '\r'; }

        struct Parser
        {
            std::string_view s;
            unsigned fl;
            std::size_t i = 0;
            int groups = 1;
            bool bidi = false;
            std::vector<std::string> names{""};

            bool eof() const { return i >= s.size(); }
            int peek(std::size_t k = 0) const { return i + k < s.size() ? static_cast<unsigned char>(s[i + k]) : -1; }
            [[noreturn]] void fail(char const *what) const
            {
                throw syntax_error(std::string(what) + " in pattern '" + std::string(s) + "' at " + std::to_string(i));
            }
            NodeP make(Node::Kind k) const { auto n = std::make_unique<Node>(); n->kind = k; return n; }

            void add(std::bitset<256> &b, unsigned lo, unsigned hi) const
            {
                for (unsigned c = lo; c <= hi; ++c)
                {
                    b.set(c);
                    if (fl & ICASE) b.set(other_case(c));
                }
            }
            NodeP chr(unsigned c) const { auto n = make(Node::CLASS); add(n->cls, c, c); return n; }

            bool class_escape(int c, std::bitset<256> &b) const
            {
                std::bitset<256> r;
                switch (c)
                {
                    case 'd': case 'D': for (int k = '0'; k <= '9'; ++k) r.set(k); break;
                    case 'w': case 'W': for (int k = 0; k < 256; ++k) r.set(k, is_word(k)); break;
                    case 's': case 'S': for (int k : {' ', '\t', '\n', '\r', '\f', '\v'}) r.set(k); break;
                    case 'R': case 'N': for (int k : {'\n', '\r'}) r.set(k); break;
                    default: return false;
                }
                if (c == 'D' || c == 'W' || c == 'S' || c == 'N') r.flip();
                b |= r;
                return true;
            }
            static int hexv(int c)
            {
                if (c >= '0' && c <= '9') return c - '0';
                if (c >= 'a' && c <= 'f') return c - 'a' + 10;
                if (c >= 'A' && c <= 'F') return c - 'A' + 10;
                return -1;
            }
            int char_escape(int c)     // c already consumed
            {
                switch (c)
                {
                    case 'n': return '\n'; case 'r': return '\r'; case 't': return '\t'; case 'f': return '\f';
                    case 'v': return '\v'; case 'a': return '\a'; case 'e': return 0x1b; case '0': return 0;
                    case 'x':
                    {
                        int h = hexv(peek()), l = hexv(peek(1));
                        if (h < 0 || l < 0) fail("bad hex escape");
                        i += 2;
                        return h * 16 + l;
                    }
                    default: return c;
                }
            }

            NodeP alternation()
            {
                std::vector<NodeP> branches;
                branches.push_back(sequence());
                while (peek() == '|') { ++i; branches.push_back(sequence()); }
                if (branches.size() == 1) return std::move(branches[0]);
                auto n = make(Node::ALT);
                n->sub = std::move(branches);
                return n;
            }
            NodeP sequence()
            {
                auto n = make(Node::SEQ);
                while (!eof() && peek() != '|' && peek() != ')')
                    n->sub.push_back(quantified());
                return n;
            }
            NodeP quantified()
            {
                bool can_quantify = true;
                auto n = atom(can_quantify);
                for (;;)
                {
                    int lo, hi;
                    int c = peek();
                    if (c == '*') { lo = 0; hi = -1; ++i; }
                    else if (c == '+') { lo = 1; hi = -1; ++i; }
                    else if (c == '?') { lo = 0; hi = 1; ++i; }
                    else if (c == '{' && peek(1) >= '0' && peek(1) <= '9')
                    {
                        ++i;
                        lo = number();
                        hi = lo;
                        if (peek() == ',') { ++i; hi = peek() == '}' ? -1 : number(); }
                        if (peek() != '}') fail("bad quantifier");
                        ++i;
                        if (hi >= 0 && hi < lo) fail("bad quantifier range");
                    }
                    else return n;
                    if (!can_quantify) fail("nothing to repeat");
                    auto r = make(Node::REP);
                    r->lo = lo; r->hi = hi;
                    if (peek() == '?') { r->mode = Node::LAZY; ++i; }
                    else if (peek() == '+') { r->mode = Node::POSSESSIVE; ++i; }
                    r->sub.push_back(std::move(n));
                    n = std::move(r);
                    can_quantify = false;
                }
            }
            int number()
            {
                int v = 0, digits = 0;
                while (peek() >= '0' && peek() <= '9') { v = v * 10 + (peek() - '0'); ++i; ++digits; }
                if (!digits || digits > 5) fail("bad number");
                return v;
            }
            std::string name()
            {
                std::string r;
                while (!eof() && peek() != '>') r.push_back(s[i++]);
                if (eof() || r.empty()) fail("bad name");
                ++i;
                return r;
            }
            NodeP atom(bool &can_quantify)
            {
                int c = peek();
                ++i;
                switch (c)
                {
                    case '^': can_quantify = false; return make(Node::BOL);
                    case '$': can_quantify = false; return make(Node::EOL);
                    case '.':
                    {
                        auto n = make(Node::CLASS);
                        for (unsigned k = 0; k < 256; ++k) n->cls.set(k, (fl & DOTALL) || !is_break(k));
                        return n;
                    }
                    case '[': return set();
                    case '(': return group();
                    case '\\': return escape(can_quantify);
                    case '*': case '+': case '?': fail("nothing to repeat");
                    default: return chr(unsigned(c));
                }
            }
            NodeP group()
            {
                NodeP n;
                if (peek() != '?')
                {
                    n = make(Node::CAP);
                    n->id = groups++;
                    names.push_back("");
                    n->sub.push_back(alternation());
                }
                else
                {
                    ++i;
                    int c = peek();
                    ++i;
                    if (c == ':') { n = alternation(); if (n->kind != Node::SEQ && n->kind != Node::ALT) fail("?"); }
                    else if (c == '>') { n = make(Node::ATOMIC); n->sub.push_back(alternation()); }
                    else if (c == '=' || c == '!')
                    {
                        n = make(Node::LOOK); n->negative = c == '!';
                        n->sub.push_back(alternation());
                    }
                    else if (c == '<' && (peek() == '=' || peek() == '!'))
                    {
                        bidi = true;
                        n = make(Node::LOOK); n->behind = true; n->negative = peek() == '!'; ++i;
                        n->sub.push_back(alternation());
                    }
                    else if (c == '<')
                    {
                        n = make(Node::CAP);
                        n->id = groups++;
                        n->name = name();
                        names.push_back(n->name);
                        n->sub.push_back(alternation());
                    }
                    else fail("bad group");
                }
                if (peek() != ')') fail("missing )");
                ++i;
                return n;
            }
            NodeP escape(bool &can_quantify)
            {
                if (eof()) fail("trailing backslash");
                int c = peek();
                ++i;
                switch (c)
                {
                    case 'b': bidi = true; can_quantify = false; return make(Node::WB);
                    case 'B': bidi = true; can_quantify = false; return make(Node::NWB);
                    case 'A': can_quantify = false; return make(Node::BOI);
                    case 'Z': can_quantify = false; return make(Node::EOI);
                    case 'k':
                        if (peek() == '<')
                        {
                            ++i;
                            auto n = make(Node::BREF);
                            n->name = name();
                            n->id = -1;
                            return n;
                        }
                        break;
                    default: break;
                }
                if (c >= '1' && c <= '9')
                {
                    --i;
                    auto n = make(Node::BREF);
                    n->id = number();
                    return n;
                }
                auto n = make(Node::CLASS);
                if (class_escape(c, n->cls)) return n;
                return chr(unsigned(char_escape(c)));
            }
            // One member of a set; returns its character, or -1 if it is a class.
            int set_item(std::bitset<256> &cls)
            {
                int c = peek();
                ++i;
                if (c != '\\') return c;
                if (eof()) fail("trailing backslash");
                c = peek();
                ++i;
                if (c == 'b') return '\b';
                if (class_escape(c, cls)) return -1;
                return char_escape(c);
            }
            NodeP set()
            {
                auto n = make(Node::CLASS);
                bool negative = false;
                if (peek() == '^') { negative = true; ++i; }
                std::bitset<256> b;
                while (peek() != ']')
                {
                    if (eof()) fail("missing ]");
                    int lo = set_item(b);
                    if (lo >= 0 && peek() == '-' && peek(1) != ']' && peek(1) != -1)
                    {
                        std::size_t dash = i;
                        ++i;
                        std::bitset<256> tmp;
                        int hi = set_item(tmp);
                        if (hi < 0) { i = dash; add(b, lo, lo); continue; }   // class after a dash: literal dash
                        if (hi < lo) fail("bad range");
                        add(b, lo, hi);
                        continue;
                    }
                    if (lo >= 0) add(b, lo, lo);
                }
                ++i;
                n->cls = negative ? ~b : b;
                return n;
            }
        };

        // A borrowed continuation; costs nothing to pass around.
        struct Cont
        {
            void const *obj;
            bool (*fn)(void const *, int);
            template<typename F>
            requires (!std::is_same_v<std::remove_cvref_t<F>, Cont>)
            Cont(F const &f) : obj(&f), fn([](void const *o, int p) { return (*static_cast<F const *>(o))(p); }) {}
            bool operator()(int p) const { return fn(obj, p); }
        };

        struct Machine
        {
            std::string_view t;
            unsigned fl;
            int ng;
            std::uint64_t steps = 0, max_steps;
            std::uint64_t behind = 0;                        // how far an implementation may walk, from the start, to see the character before
            std::uint64_t walk = 0;                          // how far an implementation may look ahead to see whether {n} can fit
            bool capped = false;
            int cb[MAXG], ce[MAXG];
            int depth = 0;

            struct Caps { int b[MAXG], e[MAXG]; };
            Caps save() const { Caps c; for (int g = 0; g < ng; ++g) { c.b[g] = cb[g]; c.e[g] = ce[g]; } return c; }
            void restore(Caps const &c) { for (int g = 0; g < ng; ++g) { cb[g] = c.b[g]; ce[g] = c.e[g]; } }

            unsigned at(int p) const { return static_cast<unsigned char>(t[p]); }
            int n() const { return int(t.size()); }

            bool match(Node const &x, int p, int dir, Cont k)
            {
                if (++steps > max_steps || depth > 3000) { capped = true; return false; }
                struct D { int &d; D(int &x) : d(x) { ++d; } ~D() { --d; } } guard{depth};
                switch (x.kind)
                {
                    case Node::EMPTY: return k(p);
                    case Node::CLASS:
                        if (dir > 0) return p < n() && x.cls[at(p)] && k(p + 1);
                        return p > 0 && x.cls[at(p - 1)] && k(p - 1);
                    case Node::SEQ: return seq(x, 0, p, dir, k);
                    case Node::ALT:
                        for (auto const &s : x.sub)
                        {
                            if (match(*s, p, dir, k)) return true;
                            if (capped) return false;
                        }
                        return false;
                    case Node::CAP:
                    {
                        int ob = cb[x.id], oe = ce[x.id];
                        auto kk = [&](int q) {
                            int pb = cb[x.id], pe = ce[x.id];
                            cb[x.id] = dir > 0 ? p : q;
                            ce[x.id] = dir > 0 ? q : p;
                            if (k(q)) return true;
                            cb[x.id] = pb; ce[x.id] = pe;
                            return false;
                        };
                        if (match(*x.sub[0], p, dir, kk)) return true;
                        cb[x.id] = ob; ce[x.id] = oe;
                        return false;
                    }
                    case Node::BREF:
                    {
                        int b = cb[x.id], e = ce[x.id];
                        if (b < 0) return k(p);
                        int len = e - b;
                        steps += unsigned(len);
                        int from = dir > 0 ? p : p - len;
                        if (from < 0 || from + len > n()) return false;
                        for (int i = 0; i < len; ++i)
                        {
                            unsigned a = at(b + i), c = at(from + i);
                            if (a != c && !((fl & ICASE) && other_case(a) == c)) return false;
                        }
                        return k(dir > 0 ? p + len : p - len);
                    }
                    case Node::ATOMIC: return atomic(*x.sub[0], p, dir, k);
                    case Node::LOOK:
                    {
                        Caps saved = save();
                        auto yes = [](int) { return true; };
                        bool r = match(*x.sub[0], p, x.behind ? -1 : 1, yes);
                        if (capped) return false;
                        if (x.negative && r) restore(saved);
                        if (r != x.negative && k(p)) return true;
                        restore(saved);
                        return false;
                    }
                    case Node::BOI: return p == 0 && k(p);
                    case Node::EOI: return p == n() && k(p);
                    case Node::BOL:
                        if (p && (fl & MULTILINE)) behind += unsigned(p);
                        return (p == 0 || ((fl & MULTILINE) && is_break(at(p - 1)))) && k(p);
                    case Node::EOL: return (p == n() || ((fl & MULTILINE) && is_break(at(p)))) && k(p);
                    case Node::WB: case Node::NWB:
                    {
                        bool before = p > 0 && is_word(at(p - 1)), after = p < n() && is_word(at(p));
                        return ((before != after) == (x.kind == Node::WB)) && k(p);
                    }
                    case Node::REP:
                        if (x.mode == Node::POSSESSIVE)
                        {
                            // {n,m}+ : the first way to match the mandatory part, then as many more as possible; never revisited
                            Caps saved = save();
                            int q = p;
                            auto take = [&](int r) { q = r; return true; };
                            if (x.lo > 0 && !fixed(*x.sub[0], x.lo, p, dir, take)) { if (!capped) restore(saved); return false; }
                            for (int c = x.lo; x.hi < 0 || c < x.hi; ++c)
                            {
                                int was = q;
                                if (!match(*x.sub[0], q, dir, take)) break;
                                if (x.hi < 0 && q == was) break;
                            }
                            if (capped) return false;
                            if (k(q)) return true;
                            restore(saved);
                            return false;
                        }
                        else
                        {
                            bool greedy = (x.mode == Node::GREEDY) != bool(fl & UNGREEDY);
                            int extra = x.hi < 0 ? -1 : x.hi - x.lo;
                            auto rest = [&](int q) { return variable(x, extra, greedy, q, dir, k); };
                            return fixed(*x.sub[0], x.lo, p, dir, rest);
                        }
                }
                return false;
            }
            bool seq(Node const &x, std::size_t i, int p, int dir, Cont k)
            {
                if (i == x.sub.size()) return k(p);
                Node const &s = *x.sub[dir > 0 ? i : x.sub.size() - 1 - i];
                auto rest = [&](int q) { return seq(x, i + 1, q, dir, k); };
                return match(s, p, dir, rest);
            }
            bool atomic(Node const &x, int p, int dir, Cont k)
            {
                Caps saved = save();
                int q = p;
                auto take = [&](int r) { q = r; return true; };
                if (match(x, p, dir, take) && k(q)) return true;
                if (!capped) restore(saved);
                return false;
            }
            bool fixed(Node const &x, int count, int p, int dir, Cont k)
            {
                if (count == 0) return k(p);
                if (x.kind == Node::CLASS && count > 1)      // the same, without recursion
                {
                    walk += unsigned(std::min(count, dir > 0 ? n() - p : p));
                    if (walk > 2'000'000) { capped = true; return false; }
                    for (int c = 0; c < count; ++c, p += dir)
                    {
                        if ((steps += 2) > max_steps) { capped = true; return false; }
                        if (!(dir > 0 ? p < n() && x.cls[at(p)] : p > 0 && x.cls[at(p - 1)])) return false;
                    }
                    return k(p);
                }
                auto rest = [&](int q) { return fixed(x, count - 1, q, dir, k); };
                return match(x, p, dir, rest);
            }
            // extra < 0: unlimited; then a repetition that consumes nothing does not count
            bool variable(Node const &x, int extra, bool greedy, int p, int dir, Cont k)
            {
                if (x.sub[0]->kind == Node::CLASS)           // the same, without recursion
                {
                    auto const &cls = x.sub[0]->cls;
                    auto one = [&](int q) { return dir > 0 ? q < n() && cls[at(q)] : q > 0 && cls[at(q - 1)]; };
                    int q = p;
                    for (int c = 0;; ++c, q += dir)
                    {
                        if ((steps += 2) > max_steps) { capped = true; return false; }
                        if (!greedy && k(q)) return true;
                        if (capped) return false;
                        if (c == extra || !one(q)) break;
                    }
                    if (!greedy) return false;
                    for (;; q -= dir)
                    {
                        if (k(q)) return true;
                        if (capped || q == p) return false;
                    }
                }
                if (++steps > max_steps || depth > 3000) { capped = true; return false; }
                struct D { int &d; D(int &x) : d(x) { ++d; } ~D() { --d; } } guard{depth};
                auto again = [&](int q) {
                    if (extra < 0 && q == p) return false;
                    return variable(x, extra < 0 ? -1 : extra - 1, greedy, q, dir, k);
                };
                if (!greedy && k(p)) return true;
                if (capped) return false;
                if (extra != 0 && match(*x.sub[0], p, dir, again)) return true;
                if (capped) return false;
                return greedy && k(p);
            }
        };

        int largest_count(Node const &n)
        {
            int r = n.kind == Node::REP ? std::max(n.lo, n.hi) : 0;
            for (auto const &s : n.sub) r = std::max(r, largest_count(*s));
            return r;
        }
        bool flat_tree(Node const &n)
        {
            if (n.kind == Node::REP && n.hi < 0 && n.sub[0]->kind != Node::CLASS) return false;
            for (auto const &s : n.sub) if (!flat_tree(*s)) return false;
            return true;
        }
        void resolve(Node &n, Parser const &p)
        {
            if (n.kind == Node::BREF)
            {
                if (n.id < 0)
                    for (std::size_t g = 0; g < p.names.size(); ++g)
                        if (p.names[g] == n.name) n.id = int(g);
                if (n.id < 1 || n.id >= p.groups) throw syntax_error("backreference to a missing group");
            }
            for (auto &s : n.sub) resolve(*s, p);
        }
    }

    Regex::Regex(std::string_view pattern, unsigned flags) : fl(flags)
    {
        Parser p{pattern, flags};
        auto n = p.alternation();
        if (!p.eof()) p.fail("unexpected character");
        if (p.groups > MAXG) p.fail("too many groups");
        resolve(*n, p);
        tree = std::shared_ptr<Node>(std::move(n));
        ngroups = p.groups;
        bidi = p.bidi;
        is_flat = flat_tree(*tree);
        largest = largest_count(*tree);
        group_names = p.names;
    }

    Result Regex::run(Method method, std::string_view text, int from) const
    {
        Result r;
        Machine m{text, fl, ngroups};
        m.max_steps = 20000 + 6 * text.size();
        for (int start = from; start <= int(text.size()); ++start)
        {
            for (int g = 0; g < ngroups; ++g) m.cb[g] = m.ce[g] = -1;
            int end = -1;
            auto done = [&](int q) {
                if (method == MATCH && q != int(text.size())) return false;
                end = q;
                return true;
            };
            bool ok = m.match(*tree, start, 1, done);
            if (m.capped) break;
            if (ok)
            {
                r.matched = true;
                m.cb[0] = start; m.ce[0] = end;
                break;
            }
            if (method != SEARCH) break;
        }
        r.capped = m.capped;
        r.steps = m.steps + m.walk / 16;
        r.behind = m.behind;
        for (int g = 0; g < MAXG; ++g)
        {
            r.begin[g] = r.matched && g < ngroups ? m.cb[g] : -1;
            r.end[g] = r.matched && g < ngroups ? m.ce[g] : -1;
        }
        return r;
    }

    namespace
    {
        void collect(Node const &n, std::bitset<256> &b)
        {
            if (n.kind == Node::CLASS)
                for (int c = 0; c < 256; ++c)
                    if (n.cls[c] != n.cls[(c + 1) & 255]) { b.set(c); b.set((c + 1) & 255); b.set(other_case(unsigned(c))); }
            if (n.kind == Node::BOL || n.kind == Node::EOL) { b.set('\n'); b.set('\r'); }
            if (n.kind == Node::WB || n.kind == Node::NWB) { b.set(' '); b.set('_'); b.set('q'); }
            for (auto const &s : n.sub) collect(*s, b);
        }
    }

    std::string Regex::alphabet() const
    {
        std::bitset<256> b;
        collect(*tree, b);
        std::string r;
        for (int c = 0; c < 256; ++c) if (b[c]) r.push_back(char(c));
        if (r.empty()) r = "ab";
        return r;
    }
}
