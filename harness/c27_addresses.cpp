// C27: addresses
#include "hc.h"
#include <coro/net/ip_address.hpp>
#include <coro/net/socket_address.hpp>
#include <compare>
#include <memory>
#include <optional>
#include <string>
#include <vector>

using coro::net::domain_t;
using coro::net::ip_address;
using coro::net::socket_address;
namespace
{
using bytes = std::vector<uint8_t>;
// --- independent parsers (RFC 4291, and the strict dotted quad of RFC 6943 3.1.1)
std::optional<bytes> parse4(std::string_view t)
{
    bytes       r;
    std::size_t p = 0;
    for (int k = 0; k < 4; k++)
    {
        if (k && (p >= t.size() || t[p++] != '.'))
            return {};
        std::size_t b = p;
        int         v = 0;
        while (p < t.size() && t[p] >= '0' && t[p] <= '9' && p - b < 4)
            v = v * 10 + (t[p++] - '0');
        if (p == b || p - b > 3 || v > 255 || (p - b > 1 && t[b] == '0'))
            return {};
        r.push_back((uint8_t)v);
    }
    if (p != t.size())
        return {};
    return r;
}
int hexval(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
// a sequence of groups separated by single colons; the last may be a dotted quad
bool groups(std::string_view t, bool last, bytes& out)
{
    if (t.empty())
        return true;
    while (true)
    {
        auto c    = t.find(':');
        auto g    = t.substr(0, c);
        bool tail = c == std::string_view::npos;
        if (tail && last && g.find('.') != std::string_view::npos)
        {
            auto q = parse4(g);
            if (!q)
                return false;
            out.insert(out.end(), q->begin(), q->end());
            return true;
        }
        if (g.empty() || g.size() > 4)
            return false;
        int v = 0;
        for (char ch : g)
        {
            if (hexval(ch) < 0)
                return false;
            v = v * 16 + hexval(ch);
        }
        out.push_back((uint8_t)(v >> 8));
        out.push_back((uint8_t)v);
        if (tail)
            return true;
        t.remove_prefix(c + 1);
    }
}
std::optional<bytes> parse6(std::string_view t)
{
    auto  d = t.find("::");
    bytes a, b;
    if (d == std::string_view::npos)
    {
        if (t.empty() || !groups(t, true, a) || a.size() != 16)
            return {};
        return a;
    }
    if (t.find("::", d + 1) != std::string_view::npos) // also excludes ":::"
        return {};
    if (!groups(t.substr(0, d), false, a) || !groups(t.substr(d + 2), true, b) || a.size() + b.size() > 14)
        return {};
    a.resize(16 - b.size());
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
std::optional<bytes> parse(std::string_view t, domain_t d) { return d == domain_t::ipv4 ? parse4(t) : parse6(t); }

std::string hex(std::span<const uint8_t> b)
{
    std::string r;
    for (auto x : b)
    {
        r += "0123456789abcdef"[x >> 4];
        r += "0123456789abcdef"[x & 15];
    }
    return r;
}
std::string printable(std::string_view t)
{
    std::string r;
    for (char c : t)
        r += c ? c : '@';
    return r;
}
int g_ok, g_bad;
// the text is the beginning of a longer buffer; what follows must not matter
void text(std::string_view t, domain_t d)
{
    static const std::string_view after[] = {{"\0", 1}, "1", ".1", ":1", "f"};
    auto                          want    = parse(t, d);
    for (auto f : after)
    {
        std::string buf{t};
        buf += f;
        buf += '\0';
        std::optional<bytes> got;
        try
        {
            auto a = ip_address::from_string(std::string_view{buf.data(), t.size()}, d);
            got    = bytes(a.data().begin(), a.data().end());
            MC_CHECK(a.domain() == d, "an address has the wrong domain");
        }
        catch (const std::exception&)
        {
        }
        if (want != got)
            mc::fail(
                "from_string(\"%s\", %s) followed by \"%s\" gives %s, should be %s",
                printable(t).c_str(),
                d == domain_t::ipv4 ? "ipv4" : "ipv6",
                printable(f).c_str(),
                got ? hex(*got).c_str() : "an exception",
                want ? hex(*want).c_str() : "an exception");
    }
    // exactly sized, so that instrumented code reading beyond the text is noticed
    std::unique_ptr<char[]> p{new char[t.size()]};
    std::copy(t.begin(), t.end(), p.get());
    bool ok = true;
    try
    {
        (void)ip_address::from_string(std::string_view{p.get(), t.size()}, d);
    }
    catch (const std::exception&)
    {
        ok = false;
    }
    MC_CHECK(ok == bool(want));
    (want ? g_ok : g_bad)++;
}
domain_t any_domain() { return mc::choose(2, 0, "domain") ? domain_t::ipv6 : domain_t::ipv4; }

// a text that is used as address in other scenarios
void native(const socket_address& s, const bytes& b, domain_t d, uint16_t port)
{
    auto [p, len] = s.data();
    if (d == domain_t::ipv4)
    {
        auto* in = reinterpret_cast<const sockaddr_in*>(p);
        MC_CHECK(len == sizeof(sockaddr_in) && in->sin_family == AF_INET && in->sin_port == htons(port));
        MC_CHECK(!std::memcmp(&in->sin_addr, b.data(), 4), "the native address is wrong");
    }
    else
    {
        auto* in = reinterpret_cast<const sockaddr_in6*>(p);
        MC_CHECK(len == sizeof(sockaddr_in6) && in->sin6_family == AF_INET6 && in->sin6_port == htons(port));
        MC_CHECK(!std::memcmp(&in->sin6_addr, b.data(), 16), "the native address is wrong");
        MC_CHECK(in->sin6_flowinfo == 0 && in->sin6_scope_id == 0, "the native address has a scope or flow it was not given");
    }
}
void same(const socket_address& s, const ip_address& a, uint16_t port)
{
    MC_CHECK(s.domain() == a.domain() && s.port() == port && s.ip() == a, "an address and port don't survive the native form");
}
ip_address make(const bytes& b, domain_t d)
{
    // exactly sized, so that reading beyond the bytes is noticed
    std::unique_ptr<uint8_t[]> p{new uint8_t[b.size()]};
    std::copy(b.begin(), b.end(), p.get());
    return ip_address{std::span<const uint8_t>{p.get(), b.size()}, d};
}
void roundtrip(const bytes& b, domain_t d)
{
    auto a = make(b, d);
    MC_CHECK(a.domain() == d && a.data().size() == b.size() && std::equal(b.begin(), b.end(), a.data().begin()), "an address has other bytes than given");
    auto t = a.to_string();
    auto q = parse(t, d);
    MC_CHECK(q && *q == b, "%s reads as \"%s\"", hex(b).c_str(), t.c_str());
    auto c = ip_address::from_string(t, d);
    MC_CHECK(c == a && !(c != a) && (c <=> a) == 0, "\"%s\" gives another address", t.c_str());
}
} // namespace
// Every string up to a length over an alphabet.
MC_SCENARIO(addr_text_short, .quick = 0, .thorough = 0)
{
    static const char alpha[] = {'0', '1', '2', '5', '.', ':', 'a', 'F', 'g', ' ', '\0', '-'};
    constexpr int     N       = sizeof alpha;
    domain_t          d       = any_domain();
    int               len     = mc::choose(mc::thorough() ? 7 : 6, 0, "length");
    std::string       s;
    int               fixed = std::min(len, mc::thorough() ? 3 : 2);
    for (int k = 0; k < fixed; k++)
        s += alpha[mc::choose(N, 0, "char")];
    int rest = len - fixed, total = 1;
    for (int k = 0; k < rest; k++)
        total *= N;
    for (int v = 0; v < total; v++)
    {
        std::string t = s;
        for (int k = 0, w = v; k < rest; k++, w /= N)
            t += alpha[w % N];
        text(t, d);
    }
    mc::outcome("%d addresses, %d others", std::min(g_ok, 3), std::min(g_bad, 3));
}
// Dotted quads: every combination of parts.
MC_SCENARIO(addr_text_quads, .quick = 0, .thorough = 0)
{
    static const std::string_view part[] = {"0", "7", "10", "99", "100", "199", "249", "255", "256", "260", "300", "999", "1000", "00", "01", "", "a", "-1", " 1", "1 ", "0x1", "+1"};
    constexpr int                 N      = std::size(part);
    static const std::string_view sep[]  = {".", ",", "..", ":", ""};
    domain_t                      d      = any_domain();
    int                           n      = 1 + mc::choose(5, 0, "parts");
    int                           sp     = mc::choose(mc::thorough() ? 5 : 2, 0, "separator");
    std::string                   s{part[mc::choose(N, 0, "part")]};
    if (n > 1)
        (s += ".") += part[mc::choose(N, 0, "part")];
    int total = n > 3 ? N * N : n > 2 ? N : 1;
    for (int v = 0; v < total; v++)
    {
        std::string t = s;
        if (n > 2)
            (t += sep[sp]) += part[v % N];
        if (n > 3)
            (t += ".") += part[v / N];
        if (n > 4)
            t += ".1";
        text(t, d);
    }
    mc::outcome("%d addresses, %d others", std::min(g_ok, 3), std::min(g_bad, 3));
}
// IPv6: number of groups, places of "::", one odd group anywhere, a dotted quad at the end.
MC_SCENARIO(addr_text_groups, .quick = 0, .thorough = 0)
{
    static const std::string_view odd[] = {"0", "00", "0000", "ffff", "FFFF", "aBcD", "1f", "00000", "10000", "", "g", "-1", " 1", "1 ", "0x1", "1.2.3.4", "::", "1%0"};
    static const std::string_view end[] = {"", "1.2.3.4", "255.255.255.255", "256.1.1.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", ":", "::", "/64", "%1", "]"};
    int                           n     = mc::choose(10, 0, "groups");
    int                           gap   = mc::choose(n + 2, 0, "gap"); // n + 1: none
    int                           at    = mc::choose(n + 1, 0, "odd group"); // n: none
    int                           gap2  = gap + mc::choose(n + 2 - gap, 0, "second gap");
    int                           o0    = mc::choose(3, 0, "odd groups");
    {
        for (auto o : std::span{odd}.subspan(6 * o0, 6))
            for (auto e : end)
                for (int values = 0; values < 2; values++)
                {
                    std::string t;
                    for (int k = 0; k < n; k++)
                    {
                        if (gap == k || (gap2 == k && gap2 != gap))
                            t += k ? ":" : "::";
                        t += k == at ? std::string{o} : values ? std::to_string(k + 1) : "0";
                        if (k + 1 < n)
                            t += ':';
                    }
                    if (gap == n || (gap2 == n && gap2 != gap))
                        t += "::";
                    if (!e.empty() && e[0] >= '0' && e[0] <= '9' && !t.empty() && t.back() != ':')
                        t += ':';
                    t += e;
                    text(t, domain_t::ipv6);
                    if (values)
                        text(t, domain_t::ipv4);
                }
    }
    mc::outcome("%d addresses, %d others", std::min(g_ok, 3), std::min(g_bad, 3));
}
// Views of every prefix and part of a text.
MC_SCENARIO(addr_text_views, .quick = 0, .thorough = 0)
{
    static const std::string_view whole[] = {"192.168.100.254", "1.2.3.44", "::ffff:10.20.30.40", "2001:db8:1234:5678:9abc:def0:1357:2468", "fe80::1234:5678", "::", "1::2:3"};
    auto                          w       = whole[mc::choose(std::size(whole), 0, "text")];
    for (std::size_t b = 0; b <= w.size(); b++)
        for (std::size_t e = b; e <= w.size(); e++)
        {
            text(w.substr(b, e - b), domain_t::ipv4);
            text(w.substr(b, e - b), domain_t::ipv6);
        }
    // an empty view that points nowhere
    for (auto d : {domain_t::ipv4, domain_t::ipv6})
    {
        bool threw = false;
        try
        {
            (void)ip_address::from_string(std::string_view{}, d);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        MC_CHECK(threw, "no text is an address");
    }
    mc::outcome("%d addresses, %d others", std::min(g_ok, 3), std::min(g_bad, 3));
}
// Bytes to text and back. IPv4: every address over an alphabet per position.
MC_SCENARIO(addr_bytes_ipv4, .quick = 0, .thorough = 0)
{
    static const uint8_t alpha[] = {0, 1, 9, 10, 99, 100, 127, 128, 192, 254, 255};
    int                  first   = 16 * mc::choose(16, 0, "first byte, high") + mc::choose(16, 0, "low");
    int                  where   = mc::choose(4, 0, "its place");
    for (auto a : alpha)
        for (auto b : alpha)
            for (auto c : alpha)
            {
                bytes v{a, b, c};
                v.insert(v.begin() + where, (uint8_t)first);
                roundtrip(v, domain_t::ipv4);
            }
}
// IPv6: every pattern of zero and non-zero bytes (all ways to compress), and every value of each byte.
MC_SCENARIO(addr_bytes_ipv6, .quick = 0, .thorough = 0)
{
    int  hi   = (int)16 * mc::choose(16, 0, "first bytes, high") + mc::choose(16, 0, "low");
    int  kind = mc::choose(mc::thorough() ? 4 : 2, 0, "values");
    for (int lo = 0; lo < 256; lo++)
    {
        bytes b(16);
        for (int k = 0; k < 16; k++)
            if (((k < 8 ? hi >> k : lo >> (k - 8))) & 1)
                b[k] = kind == 0 ? 1 : kind == 1 ? 0xff : kind == 2 ? (uint8_t)(16 * k + 7) : 0x10;
        roundtrip(b, domain_t::ipv6);
    }
    if (kind == 0)
        for (int k = 0; k < 16; k++)
            for (int background = 0; background < 3; background++)
            {
                bytes b(16, background == 0 ? 0 : background == 1 ? 0xff : 0x5a);
                b[k] = (uint8_t)hi;
                roundtrip(b, domain_t::ipv6);
            }
}
// Any number of bytes.
MC_SCENARIO(addr_bytes_lengths, .quick = 0, .thorough = 0)
{
    domain_t    d   = any_domain();
    std::size_t max = d == domain_t::ipv4 ? 4 : 16;
    std::size_t n   = mc::choose(40, 0, "length");
    bytes       b;
    for (std::size_t k = 0; k < n; k++)
        b.push_back((uint8_t)(k + 1));
    bool threw = false;
    try
    {
        auto a = make(b, d);
        MC_CHECK(a.domain() == d && a.data().size() == max);
        // fewer bytes are the beginning of the address
        for (std::size_t k = 0; k < max; k++)
            MC_CHECK(a.data()[k] == (k < n ? b[k] : 0), "an address has other bytes than given");
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    if (n > max)
        MC_CHECK(threw, "%d bytes are too many for an address", (int)n);
    if (n == max)
        MC_CHECK(!threw, "an address of %d bytes is refused", (int)n);
}
namespace
{
std::vector<std::pair<bytes, domain_t>> samples()
{
    std::vector<std::pair<bytes, domain_t>> r;
    static const uint8_t                    v[] = {0, 1, 0x7f, 0x80, 0xff};
    for (auto x : v)
        for (int k = 0; k < 4; k++)
        {
            bytes b(4, 0);
            b[k] = x;
            if (x || k == 0)
                r.push_back({b, domain_t::ipv4});
        }
    for (auto x : v)
        for (int k : {0, 1, 3, 4, 8, 15})
        {
            bytes b(16, 0);
            b[k] = x;
            if (x || k == 0)
                r.push_back({b, domain_t::ipv6});
        }
    r.push_back({bytes{1, 2, 3, 4}, domain_t::ipv4});
    r.push_back({bytes{1, 2, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, domain_t::ipv6});
    r.push_back({bytes(4, 0xff), domain_t::ipv4});
    r.push_back({bytes(16, 0xff), domain_t::ipv6});
    return r;
}
} // namespace
// Every port with every address of the sample, to the native form and back, and text of both.
MC_SCENARIO(addr_native, .quick = 0, .thorough = 0)
{
    const auto all = samples();
    auto& [b, d]          = all[mc::choose((int)all.size(), 0, "address")];
    int  from             = mc::choose(16, 0, "ports");
    auto a                = make(b, d);
    for (int p = from * 4096; p < (from + 1) * 4096; p++)
    {
        if (!mc::thorough() && p % 4096 > 300 && p % 4096 < 3800 && p % 255)
            continue;
        auto           port = (uint16_t)p;
        socket_address s{a, port};
        native(s, b, d, port);
        same(s, a, port);
        // as the kernel fills it in, with whatever it leaves in the rest
        auto u          = socket_address::make_uninitialised();
        auto [np, nlen] = u.native_mutable_data();
        MC_CHECK(*nlen >= sizeof(sockaddr_in6), "no room for an address");
        std::memset(np, 0xa5, *nlen);
        auto [sp, slen] = s.data();
        if (d == domain_t::ipv4)
            std::memcpy(np, sp, offsetof(sockaddr_in, sin_zero));
        else
            std::memcpy(np, sp, slen);
        *nlen = slen;
        same(u, a, port);
        MC_CHECK(u == s && s == u && !(u != s), "addresses that are the same compare different");
        socket_address c = u;
        same(c, a, port);
        c = s;
        same(c, a, port);
        socket_address q{a, (uint16_t)(port ^ (1 << (p % 16)))};
        MC_CHECK(!(q == s) && q != s, "addresses with different ports compare equal");
        if (p % 64 == 0)
        {
            socket_address t{a.to_string(), port, d};
            MC_CHECK(t == s, "an address differs from its text");
            MC_CHECK(s.to_string() == a.to_string() + ":" + std::to_string(p), "the text of an address and port is \"%s\"", s.to_string().c_str());
        }
    }
}
// Equality and order over all pairs and triples.
MC_SCENARIO(addr_order, .quick = 0, .thorough = 0)
{
    const auto all = samples();
    int               i = mc::choose((int)all.size(), 0, "first"), j = mc::choose((int)all.size(), 0, "second");
    auto              a = make(all[i].first, all[i].second), b = make(all[j].first, all[j].second);
    bool              eq = i == j;
    MC_CHECK((a == b) == eq && (a != b) == !eq && ((a <=> b) == 0) == eq, "equality is not that of the bytes and the domain");
    MC_CHECK((a < b) == (b > a) && (a <= b) == !(b < a) && (a < b) + (b < a) + (a == b) == 1, "addresses are not ordered");
    if (all[i].second == all[j].second)
        MC_CHECK((a < b) == (all[i].first < all[j].first), "the order is not that of the bytes");
    for (auto& [v, d] : all)
    {
        auto c = make(v, d);
        if (a < b && b < c)
            MC_CHECK(a < c, "the order is not transitive");
    }
    for (int p : {0, 80})
        for (int q : {0, 80, 0x5000})
            MC_CHECK((socket_address{a, (uint16_t)p} == socket_address{b, (uint16_t)q}) == (eq && p == q), "equality is not that of address and port");
    // copies and moves
    auto c = a;
    MC_CHECK(c == a);
    c = b;
    MC_CHECK(c == b);
    c = std::move(a);
    MC_CHECK(std::equal(c.data().begin(), c.data().end(), all[i].first.begin(), all[i].first.end()));
    MC_CHECK(ip_address{} == make(bytes(4), domain_t::ipv4), "the default address is not 0.0.0.0");
}
// An address that was never filled in has no domain, port or address, and says so.
MC_SCENARIO(addr_uninitialised, .quick = 0, .thorough = 0)
{
    auto u     = socket_address::make_uninitialised();
    int  how   = mc::choose(4, 0, "how");
    bool threw = false;
    if (how == 3)
        u.native_mutable_data().first->sa_family = AF_UNIX;
    try
    {
        switch (how)
        {
            case 0: (void)u.domain(); break;
            case 1: (void)u.port(); break;
            default: (void)u.ip(); break;
        }
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    MC_CHECK(threw, "an address that is none is used as one");
}
