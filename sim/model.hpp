// Reference model of the documented pattern language: an independent run-time parser and a plain backtracking matcher.
// It shares no code with the library under test and knows nothing about iterators, contexts or C++ types.
#pragma once
#include <bitset>
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace model
{
    constexpr int MAXG = 24;

    enum Flag : unsigned { ICASE = 1, DOTALL = 2, MULTILINE = 4, UNGREEDY = 8, UNROLL = 16 };

    struct Node
    {
        enum Kind { EMPTY, CLASS, SEQ, ALT, REP, CAP, BREF, LOOK, ATOMIC, BOL, EOL, BOI, EOI, WB, NWB } kind = EMPTY;
        enum Mode { GREEDY, LAZY, POSSESSIVE } mode = GREEDY;
        std::bitset<256> cls;
        int lo = 0, hi = 0;                // REP, hi < 0: no upper bound
        int id = 0;                        // CAP, BREF
        std::string name;                  // CAP, BREF by name
        bool behind = false, negative = false; // LOOK
        std::vector<std::unique_ptr<Node>> sub;
    };

    struct Result
    {
        bool matched = false;
        bool capped = false;               // gave up: too many steps
        int begin[MAXG], end[MAXG];        // -1: group did not take part
        std::uint64_t steps = 0;
        std::uint64_t behind = 0;          // the walks needed to see the character before a position when one can only go forward
    };

    enum Method { MATCH, PREFIX, SEARCH };

    struct syntax_error : std::runtime_error { using runtime_error::runtime_error; };

    class Regex
    {
    public:
        Regex() = default;
        Regex(std::string_view pattern, unsigned flags);
        // Matches text, starting at offset `from`; the text before it stays visible as context.
        Result run(Method method, std::string_view text, int from = 0) const;
        int big() const { return largest; }         // largest count in a repetition
        bool flat() const { return is_flat; }       // every unbounded repetition is one of single characters
        int groups() const { return ngroups; }      // including group 0
        bool needs_bidirectional() const { return bidi; }
        Node const &root() const { return *tree; }
        unsigned flags() const { return fl; }
        std::vector<std::string> const &names() const { return group_names; } // index: group number
        std::string alphabet() const;               // characters worth trying

    private:
        std::shared_ptr<Node> tree;
        int ngroups = 1;
        unsigned fl = 0;
        bool bidi = false, is_flat = false;
        int largest = 0;
        std::vector<std::string> group_names;
    };

    inline int sample_len = 60, sample_rep = 5;      // how far sample() goes

    // Draws a text that follows the pattern's structure (assertions are ignored, so it need not match).
    template<typename Rng>
    void sample(Node const &n, Rng &rng, std::string &out, std::vector<std::string> &caps, int depth = 0)
    {
        if (int(out.size()) > sample_len + (sample_rep > 1000 ? 200 : 0)) return;
        switch (n.kind)
        {
            case Node::CLASS:
            {
                int c = rng.below(256), printable = 0;
                for (int i = 0; i < 256; ++i)
                {
                    int d = (c + i) & 255;
                    if (!n.cls[d]) continue;
                    // prefer ordinary characters, but not always
                    if ((d >= 0x20 && d < 0x7f) || d == '\n' || rng.below(4) == 0 || ++printable > 40)
                    {
                        out.push_back(char(d));
                        return;
                    }
                }
                for (int d = 0; d < 256; ++d)
                    if (n.cls[d]) { out.push_back(char(d)); return; }
                return;
            }
            case Node::SEQ: for (auto const &s : n.sub) sample(*s, rng, out, caps, depth + 1); return;
            case Node::ALT: sample(*n.sub[rng.below(n.sub.size())], rng, out, caps, depth + 1); return;
            case Node::REP:
            {
                int hi = n.hi < 0 ? n.lo + 1 + int(rng.below(unsigned(depth > 3 && sample_rep < 1000 ? 2 : sample_rep))) : n.hi;
                int k = n.lo + int(rng.below(unsigned(hi - n.lo + 1)));
                if (n.hi > n.lo + 8) { auto edge = rng.below(8); if (edge < 3) k = n.hi; else if (edge == 3) k = n.lo; }
                if (k > 12 && sample_rep < 12) k = 12 > n.lo ? 12 : n.lo;
                for (int i = 0; i < k && (i < n.lo || int(out.size()) <= sample_len); ++i) sample(*n.sub[0], rng, out, caps, depth + 1);
                return;
            }
            case Node::CAP:
            {
                auto from = out.size();
                sample(*n.sub[0], rng, out, caps, depth + 1);
                if (int(caps.size()) <= n.id) caps.resize(n.id + 1);
                caps[n.id] = out.substr(std::min(from, out.size()));
                return;
            }
            case Node::BREF: if (int(caps.size()) > n.id && rng.below(8)) out += caps[n.id]; return;
            case Node::ATOMIC: sample(*n.sub[0], rng, out, caps, depth + 1); return;
            case Node::LOOK:
                if (rng.below(3) == 0) sample(*n.sub[0], rng, out, caps, depth + 1);
                return;
            case Node::BOL: case Node::EOL: if (rng.below(3) == 0) out.push_back(rng.below(4) ? '\n' : '\r'); return;
            case Node::WB: if (rng.below(3) == 0) out.push_back(' '); return;
            default: return;
        }
    }
}
