// Components: bit vectors, interval counters, deferred commands, names and routing,
// extensions, single buses and pins.  One JSON object per line in, one out.
#include <DRAMPower/command/CmdType.h>
#include <DRAMPower/command/Command.h>
#include <DRAMPower/data/energy.h>
#include <DRAMPower/data/stats.h>
#include <DRAMPower/util/ImplicitCommandHandler.h>
#include <DRAMPower/util/PatternHandler.h>
#include <DRAMPower/util/Router.h>
#include <DRAMPower/util/bus.h>
#include <DRAMPower/util/clock.h>
#include <DRAMPower/util/cycle_stats.h>
#include <DRAMPower/util/databus.h>
#include <DRAMPower/util/dynamic_bitset.h>
#include <DRAMPower/util/extension_manager.h>
#include <DRAMPower/util/extension_manager_static.h>
#include <DRAMPower/util/extensions.h>
#include <DRAMPower/util/pin.h>
#include <DRAMPower/util/dbi.h>
#include <DRAMPower/util/sub_bitset.h>

#include <nlohmann/json.hpp>

#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using namespace DRAMPower;
using J = nlohmann::json;

struct Machine {
    virtual ~Machine() = default;
    virtual J op(const J& o) = 0;
};

static J same(const std::vector<J>& v) {           // one answer, or the list of differing ones
    for (auto& x : v) if (x != v[0]) return J{{"differ", v}};
    return v[0];
}
template <typename F> static bool refuses(F&& f) {
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
static uint64_t word(const J& bits) {              // first is bit 0
    uint64_t v = 0;
    for (size_t i = 0; i < bits.size(); i++) if (bits[i].get<int>()) v |= uint64_t(1) << i;
    return v;
}

// ------------------------------------------------------------------ bit vectors
template <typename B> static J dumpBits(B& b) {
    J a = J::array();
    const B& c = b;
    bool ok = true;
    for (size_t i = 0; i < b.size(); i++) { a.push_back((bool)b[i] ? 1 : 0); ok = ok && (bool)b[i] == (bool)c[i]; }
    if (!ok) return "const and non-const access differ";
    return J::array({a, b.count(), util::to_string(b)});
}
template <typename B> static J oob(B& b, size_t i) {
    const B& c = b;
    B d = b;
    int r = refuses([&] { volatile bool x = b[i]; (void)x; }) + refuses([&] { volatile bool x = c[i]; (void)x; }) + refuses([&] { d.set(i, true); }) +
            refuses([&] { d.flip(i); }) + refuses([&] { d.set(i, false); });
    if (r == 5 && !(d == b)) return "changed";
    return r == 5 ? 1 : 0;
}
template <size_t N> struct Dyn {
    util::dynamic_bitset<N> r[4];
    J op(const J& o) {
        const std::string n = o[0];
        using B = util::dynamic_bitset<N>;
        auto R = [&](int k) -> B& { return r[o[k].get<size_t>()]; };
        if (n == "new") R(1) = B(o[2].get<size_t>());
        else if (n == "newv") R(1) = B(o[2].get<size_t>(), word(o[3]));
        else if (n == "push") R(1).push_back(o[2].get<int>() != 0);
        else if (n == "set") R(1).set(o[2].get<size_t>(), o[3].get<int>() != 0);
        else if (n == "setall") R(1).set();
        else if (n == "rst") R(1).reset();
        else if (n == "flip") R(1).flip();
        else if (n == "flipi") R(1).flip(o[2].get<size_t>());
        else if (n == "clear") R(1).clear();
        else if (n == "copy") R(1) = R(2);
        else if (n == "not") R(1) = ~R(2);
        else if (n == "xor") R(1) = R(2) ^ R(3);
        else if (n == "and") R(1) = R(2) & R(3);
        else if (n == "or") R(1) = R(2) | R(3);
        else if (n == "xora") R(1) ^= R(2);
        else if (n == "anda") R(1) &= R(2);
        else if (n == "ora") R(1) |= R(2);
        else if (n == "d") return dumpBits(R(1));
        else if (n == "oob") return oob(R(1), o[2].get<size_t>());
        else if (n == "eqv") { bool a = R(1) == (unsigned long)word(o[2]), b = R(1) != (unsigned long)word(o[2]); return a == b ? J("contradiction") : J(a ? 1 : 0); }
        else return "unknown op";
        return nullptr;
    }
};
template <size_t... Ns> struct Bits : Machine {
    std::tuple<Dyn<Ns>...> all;
    J op(const J& o) override {
        if (o[0] == "eq") {                          // between every two block sizes
            std::vector<J> v;
            size_t a = o[1], b = o[2];
            std::apply([&](auto&... x) { (one(v, a, b, x), ...); }, all);
            return same(v);
        }
        std::vector<J> v;
        std::apply([&](auto&... x) { (v.push_back(x.op(o)), ...); }, all);
        return same(v);
    }
    template <typename X> void one(std::vector<J>& v, size_t a, size_t b, X& x) {
        std::apply([&](auto&... y) { (v.push_back((x.r[a] == y.r[b]) == (x.r[a] != y.r[b]) ? J("contradiction") : J((x.r[a] == y.r[b]) ? 1 : 0)), ...); }, all);
    }
};
template <size_t N> struct Sub : Machine {
    util::sub_bitset<N> r[4];
    J op(const J& o) override {
        const std::string n = o[0];
        using B = util::sub_bitset<N>;
        auto R = [&](int k) -> B& { return r[o[k].get<size_t>()]; };
        if (n == "new") R(1) = B(o[2].get<size_t>());
        else if (n == "newv") R(1) = B(o[2].get<size_t>(), word(o[3]));
        else if (n == "big") return refuses([&] { B b(o[1].get<size_t>()); }) && refuses([&] { B b(o[1].get<size_t>(), 1); }) ? 1 : 0;
        else if (n == "set") R(1).set(o[2].get<size_t>(), o[3].get<int>() != 0);
        else if (n == "setall") R(1).set();
        else if (n == "rst") R(1).reset();
        else if (n == "flip") R(1).flip();
        else if (n == "flipi") R(1).flip(o[2].get<size_t>());
        else if (n == "copy") R(1) = R(2);
        else if (n == "not") R(1) = ~R(2);
        else if (n == "xor") R(1) = R(2) ^ R(3);
        else if (n == "and") R(1) = R(2) & R(3);
        else if (n == "or") R(1) = R(2) | R(3);
        else if (n == "xora") R(1) ^= R(2);
        else if (n == "anda") R(1) &= R(2);
        else if (n == "ora") R(1) |= R(2);
        else if (n == "d") return dumpBits(R(1));
        else if (n == "oob") return oob(R(1), o[2].get<size_t>());
        else if (n == "eq") { bool a = R(1) == R(2), b = R(1) != R(2); return a == b ? J("contradiction") : J(a ? 1 : 0); }
        else if (n == "eqv") { bool a = R(1) == (unsigned long)word(o[2]), b = R(1) != (unsigned long)word(o[2]); return a == b ? J("contradiction") : J(a ? 1 : 0); }
        else return "unknown op";
        return nullptr;
    }
};

// ------------------------------------------------------------------ interval counters
struct Interval : Machine {
    util::interval_counter<uint64_t> c; uint64_t T0;
    explicit Interval(uint64_t t) : T0(t) {}
    J op(const J& o) override {
        const std::string n = o[0];
        if (n == "ctor") c = util::interval_counter<uint64_t>(o[1].get<uint64_t>() + T0);
        else if (n == "start") c.start_interval(o[1].get<uint64_t>() + T0);
        else if (n == "startif") c.start_interval_if_not_running(o[1].get<uint64_t>() + T0);
        else if (n == "close") return c.close_interval(o[1].get<uint64_t>() + T0);
        else if (n == "reset") c.reset_interval();
        else if (n == "add") c.add(o[1].get<uint64_t>());
        else if (n == "ser") {
            std::stringstream ss; c.serialize(ss);
            util::interval_counter<uint64_t> d;
            if (o[1].get<int>()) { d.start_interval(3); d.close_interval(5); }   // whatever was there before
            d.deserialize(ss); ss.peek();
            if (!ss.eof()) return "stream not consumed";
            c = d;
        }
        else if (n == "copy") { auto d = c; d.start_interval(1); d.add(9); util::interval_counter<uint64_t> e; e = c; c = e; }
        else if (n == "iv") return J::array({c.get_count(), c.get_count_at(o[1].get<uint64_t>() + T0), c.is_open() ? 1 : 0, c.is_closed() ? 1 : 0,
                                             c.get_start() ? c.get_start() - T0 : 0, c.get_end() ? c.get_end() - T0 : 0});
        else return "unknown op";
        return nullptr;
    }
};

// ------------------------------------------------------------------ deferred commands
struct Queue : Machine {
    struct Ctx { std::vector<int> ran; };
    ImplicitCommandHandler<void> a; ImplicitCommandHandler<Ctx> b;
    std::vector<int> ran; Ctx ctx; uint64_t T0; timestamp_t la = 0, lb = 0;
    explicit Queue(uint64_t t) : T0(t) { la = lb = t; }
    J op(const J& o) override {
        const std::string n = o[0];
        if (n == "add") {
            int id = o[2];
            if (o.size() > 3) {                        // a deferred command that defers another when it takes effect
                int kid = o[4]; uint64_t at = o[1].get<uint64_t>() + T0, kt = at + o[3].get<uint64_t>();
                a.addImplicitCommand(at, [this, id, kt, kid] { a.addImplicitCommand(kt, [this, kid] { ran.push_back(kid); }); ran.push_back(id); });
                b.addImplicitCommand(at, [this, id, kt, kid](Ctx& c) { b.addImplicitCommand(kt, [kid](Ctx& d) { d.ran.push_back(kid); }); c.ran.push_back(id); });
                return nullptr;
            }
            a.addImplicitCommand(o[1].get<uint64_t>() + T0, [this, id] { ran.push_back(id); });
            b.addImplicitCommand(o[1].get<uint64_t>() + T0, [id](Ctx& c) { c.ran.push_back(id); });
            return nullptr;
        }
        if (n == "proc") {
            ran.clear(); ctx.ran.clear();
            a.processImplicitCommandQueue(o[1].get<uint64_t>() + T0, la);
            b.processImplicitCommandQueue(ctx, o[1].get<uint64_t>() + T0, lb);
            if (ran != ctx.ran || la != lb || a.implicitCommandCount() != b.implicitCommandCount()) return "with and without context differ";
            return J::array({ran, la - T0, a.implicitCommandCount()});
        }
        if (n == "move") {
            ImplicitCommandHandler<void> c(std::move(a)); a = std::move(c);
            ImplicitCommandHandler<Ctx> d(b); b = d;
            return nullptr;
        }
        return "unknown op";
    }
};

// ------------------------------------------------------------------ names and routing
static CmdType byNumber(int i) { return static_cast<CmdType>(i); }
struct Names : Machine {
    std::vector<int> ran;
    std::unique_ptr<Router<CmdType>> router;
    template <int I> void route(int want, int id) {
        if constexpr (I < (int)CmdType::COUNT) {
            if (I == want) router->routeCommand<(CmdType)I>([this, id](const Command& c) { ran.push_back(id); ran.push_back((int)c.timestamp); });
            else route<I + 1>(want, id);
        }
    }
    J op(const J& o) override {
        const std::string n = o[0];
        if (n == "all") {
            J a = J::array();
            for (int i = 0; i < (int)CmdType::COUNT; i++) {
                std::ostringstream s; CmdTypeUtil::operator<<(s, byNumber(i));
                if (s.str() != CmdTypeUtil::to_string(byNumber(i))) return "printed name differs";
                a.push_back(s.str());
            }
            return a;
        }
        if (n == "from") return std::string(CmdTypeUtil::to_string(CmdTypeUtil::from_string(o[1].get<std::string>())));
        if (n == "num") return (int)CmdTypeUtil::from_string(o[1].get<std::string>());
        if (n == "data") return CmdTypeUtil::needs_data(CmdTypeUtil::from_string(o[1].get<std::string>())) ? 1 : 0;
        if (n == "router") {
            if (o[1].get<int>()) router = std::make_unique<Router<CmdType>>([this](const Command& c) { ran.push_back(-1); ran.push_back((int)c.timestamp); });
            else router = std::make_unique<Router<CmdType>>(std::nullopt);
            return router->size() == (size_t)CmdType::COUNT ? 1 : 0;
        }
        if (n == "route") { route<0>((int)CmdTypeUtil::from_string(o[1].get<std::string>()), o[2]); return nullptr; }
        if (n == "rcopy") { auto c = std::make_unique<Router<CmdType>>(*router); router = std::move(c); return nullptr; }
        if (n == "exec") {
            ran.clear();
            router->executeCommand(Command{o[2].get<uint64_t>(), CmdTypeUtil::from_string(o[1].get<std::string>())});
            return ran;
        }
        if (n == "coord") {
            size_t b = o[2], g = o[3], r = o[4], w = o[5], c = o[6];
            int k = o[1];
            TargetCoordinate t = k == 0 ? TargetCoordinate() : k == 3 ? TargetCoordinate(b, g, r) : k == 4 ? TargetCoordinate(b, g, r, w) : TargetCoordinate(b, g, r, w, c);
            uint8_t x = 0;
            Command cmd{o[7].get<uint64_t>(), CmdType::WR, t, &x, 8};
            if (cmd.data != &x || cmd.sz_bits != 8 || cmd.type != CmdType::WR) return "command fields differ";
            auto& q = cmd.targetCoordinate;
            return J::array({q.bank, q.bankGroup, q.rank, q.row, q.column, cmd.timestamp});
        }
        return "unknown op";
    }
};

// ------------------------------------------------------------------ extensions
enum class Hk : uint64_t { NONE = 0 };
constexpr Hk hk(uint64_t v) { return (Hk)v; }
struct EBase : util::Serialize, util::Deserialize, util::extension_manager::ExtensionWithHooks<Hk> {
    int id = -1, val = 0;
    void serialize(std::ostream& s) const override { s.write((const char*)&val, sizeof val); }
    void deserialize(std::istream& s) override { s.read((char*)&val, sizeof val); }
};
static std::map<int, uint64_t> g_masks;
template <int K> struct Ext : EBase {
    Ext(int i, int v) { id = i; val = v; }
    Hk getSupportedHooks() const override { return hk(g_masks[K]); }
};
template <int K, uint64_t M> struct SExt {
    static constexpr Hk getSupportedHooks() { return hk(M); }
    int id = K, val = 0, calls = 0;
};
template <typename... Xs> struct StatM : Machine {
    using Seq = DRAMUtils::util::type_sequence<Xs...>;
    util::extension_manager_static::StaticExtensionManager<Seq, Hk> m;
    template <uint64_t H> J call(int nf) {
        J r = J::array();
        auto f1 = [&](auto& e) { e.calls++; r.push_back(J::array({1, e.id, e.val})); };
        auto f2 = [&](auto& e) { r.push_back(J::array({2, e.id, e.val})); };
        if (nf == 0) m.template callHook<hk(H)>();
        else if (nf == 1) m.template callHook<hk(H)>(f1);
        else m.template callHook<hk(H)>(f1, f2);
        return r;
    }
    template <typename X> J of(const J& o) {
        const std::string n = o[0];
        if constexpr (decltype(m)::template hasExtension<X>()) {
            if (n == "has") return 1;
            if (n == "put") { m.template getExtension<X>().val = o[2]; return nullptr; }
            const auto& c = m;
            int a = m.template getExtension<X>().val, b = c.template getExtension<X>().val;
            int d = m.template withExtension<X>([](X& e) { return e.val; });
            return a == b && a == d ? J(a) : J("views differ");
        } else {
            if (n == "has") return 0;
            if (n == "put") return nullptr;
            return "none";
        }
    }
    J op(const J& o) override;
};
using S0 = SExt<0, 0x1>; using S1 = SExt<1, 0x3>; using S2 = SExt<2, 0x6>; using S3 = SExt<3, 0x0>; using S4 = SExt<4, 0x8000000100000004ull>;
template <typename... Xs> J StatM<Xs...>::op(const J& o) {
    const std::string n = o[0];
    if (n == "has" || n == "put" || n == "get") {
        switch (o[1].get<int>()) { case 0: return of<S0>(o); case 1: return of<S1>(o); case 2: return of<S2>(o); case 3: return of<S3>(o); default: return of<S4>(o); }
    }
    if (n == "hook") {
        int nf = o[2];
        switch (o[1].get<int>()) {
            case 0: return call<0x1>(nf); case 1: return call<0x2>(nf); case 2: return call<0x4>(nf); case 3: return call<0x8>(nf);
            case 32: return call<0x100000000ull>(nf); case 63: return call<0x8000000000000000ull>(nf); default: return "unknown hook"; }
    }
    return "unknown op";
}
struct DynM : Machine {
    util::extension_manager::ExtensionManagerWithHooks<EBase, Hk> h;
    util::extension_manager::ExtensionManager<EBase> p;
    template <typename F> J at(int k, F&& f) {
        switch (k) { case 0: return f((Ext<0>*)nullptr); case 1: return f((Ext<1>*)nullptr); case 2: return f((Ext<2>*)nullptr);
                     case 3: return f((Ext<3>*)nullptr); case 4: return f((Ext<4>*)nullptr); default: return f((Ext<5>*)nullptr); }
    }
    J op(const J& o) override {
        const std::string n = o[0];
        if (n == "mask") { uint64_t v = 0; for (auto& b : o[2]) v |= uint64_t(1) << b.get<int>(); g_masks[o[1].get<int>()] = v; return nullptr; }
        if (n == "reg") return at(o[1], [&](auto* t) -> J { using X = std::remove_pointer_t<decltype(t)>;
            h.template registerExtension<X>(o[1].get<int>(), o[2].get<int>()); p.template registerExtension<X>(o[1].get<int>(), o[2].get<int>()); return nullptr; });
        if (n == "has") return at(o[1], [&](auto* t) -> J { using X = std::remove_pointer_t<decltype(t)>;
            bool a = h.template hasExtension<X>(), b = p.template hasExtension<X>();
            bool c = !h.template getExtension<X>().expired(), d = !p.template getExtension<X>().expired();
            return a == b && a == c && a == d ? J(a ? 1 : 0) : J("managers differ"); });
        if (n == "put") return at(o[1], [&](auto* t) -> J { using X = std::remove_pointer_t<decltype(t)>;
            int c = 0; auto f = [&](X& e) { e.val = o[2]; c++; };
            h.template withExtension<X>(f); p.template withExtension<X>(f); return c; });
        if (n == "get") return at(o[1], [&](auto* t) -> J { using X = std::remove_pointer_t<decltype(t)>;
            auto a = h.template getExtension<X>().lock(); auto b = p.template getExtension<X>().lock();
            if (!a && !b) return "none";
            if (!a || !b || a->val != b->val || a->id != b->id || a->id != o[1].get<int>()) return "managers differ";
            return a->val; });
        if (n == "hook") {
            J r = J::array();
            h.callHook(hk(uint64_t(1) << o[1].get<int>()), [&](EBase& e) { r.push_back(J::array({1, e.id, e.val})); });
            return r;
        }
        if (n == "ser") {                            // save, spoil, restore
            std::stringstream s1, s2; h.serialize(s1); p.serialize(s2);
            for (int k = 0; k < 6; k++) op(J::array({"put", k, 12345}));
            h.deserialize(s1); p.deserialize(s2); s1.peek(); s2.peek();
            return s1.eof() && s2.eof() ? 1 : 0;
        }
        return "unknown op";
    }
};
struct Settings : Machine {                          // the two extensions of the library
    bool accept = true; int calls = 0; timestamp_t lastT = 0; int lastV = -1;
    uint16_t ma = 0, mb = 0;
    std::unique_ptr<extensions::DBI> d; std::unique_ptr<extensions::MetaData> m;
    J op(const J& o) override {
        const std::string n = o[0];
        if (n == "dnew") { d = std::make_unique<extensions::DBI>([this](const timestamp_t t, const bool e) { calls++; lastT = t; lastV = e; return accept; }, o[1].get<int>() != 0); return nullptr; }
        if (n == "accept") { accept = o[1].get<int>() != 0; return nullptr; }
        if (n == "enable") { calls = 0; bool r = d->enable(o[1].get<uint64_t>(), o[2].get<int>() != 0); return J::array({r ? 1 : 0, calls, lastT, lastV}); }
        if (n == "isen") return d->isEnabled() ? 1 : 0;
        if (n == "dser") {
            std::stringstream s; d->serialize(s);
            extensions::DBI e([](const timestamp_t, const bool) { return true; }, !d->isEnabled());
            e.deserialize(s); s.peek();
            return s.eof() ? J(e.isEnabled() ? 1 : 0) : J("stream not consumed");
        }
        if (n == "mnew") { ma = o[1]; mb = o[2];
            m = std::make_unique<extensions::MetaData>([this](uint16_t a, uint16_t b) { ma = a; mb = b; }, [this] { return std::make_tuple(ma, mb); }, std::make_tuple((uint16_t)ma, (uint16_t)mb)); return nullptr; }
        if (n == "mset") { m->setMetaData((uint16_t)o[1].get<int>(), (uint16_t)o[2].get<int>()); return J::array({ma, mb}); }
        if (n == "mget") { auto t = m->getMetaData(); return J::array({std::get<0>(t), std::get<1>(t)}); }
        if (n == "mser") {
            std::stringstream s; m->serialize(s);
            extensions::MetaData e([](uint16_t, uint16_t) {}, extensions::MetaData::get_callback_t{}, std::make_tuple((uint16_t)1, (uint16_t)2));
            e.deserialize(s); s.peek();
            auto t = e.getMetaData();
            return s.eof() ? J::array({std::get<0>(t), std::get<1>(t)}) : J("stream not consumed");
        }
        return "unknown op";
    }
};

// ------------------------------------------------------------------ buses, pins, clocks on their own
static J stats(const util::bus_stats_t& b) { return J::array({b.ones, b.zeroes, b.bit_changes, b.ones_to_zeroes, b.zeroes_to_ones}); }
struct Lines : Machine {
    using Bus = util::Bus<64>; using DB = util::databus_presets::databus_preset_t;
    std::unique_ptr<Bus> b; std::unique_ptr<DB> d; std::unique_ptr<util::Clock> c; std::unique_ptr<TogglingHandle> t;
    std::unique_ptr<util::Pin<8>> p8; std::unique_ptr<util::Pin<32>> p32;
    static util::PinState ps(const J& s) { return s == "H" ? util::PinState::H : s == "L" ? util::PinState::L : util::PinState::Z; }
    uint64_t T0; size_t w = 0, dr = 1; J base;
    explicit Lines(uint64_t t0) : T0(t0) {}
    static std::vector<uint8_t> bytes(const J& bits) {
        std::vector<uint8_t> r((bits.size() + 7) / 8 + 1, 0);
        for (size_t i = 0; i < bits.size(); i++) if (bits[i].get<int>()) r[i / 8] |= (uint8_t)(1u << (i % 8));
        return r;
    }
    static DRAMUtils::Config::TogglingRateIdlePattern ip(const J& s) { return s == "H" ? DRAMUtils::Config::TogglingRateIdlePattern::H : DRAMUtils::Config::TogglingRateIdlePattern::L; }
    static DRAMUtils::Config::ToggleRateDefinition def(const J& o) {
        DRAMUtils::Config::ToggleRateDefinition x{};
        x.togglingRateRead = o[0].get<int>() / 16.0; x.togglingRateWrite = o[1].get<int>() / 16.0;
        x.dutyCycleRead = o[2].get<int>() / 16.0; x.dutyCycleWrite = o[3].get<int>() / 16.0;
        x.idlePatternRead = ip(o[4]); x.idlePatternWrite = ip(o[5]);
        return x;
    }
    J op(const J& o) override {
        const std::string n = o[0];
        auto T = [&](int k) { return o[k].get<uint64_t>() + T0; };
        if (n == "bus") { w = o[1]; dr = o[2]; b = std::make_unique<Bus>(w, dr, o[3] == "H" ? util::BusIdlePatternSpec::H : util::BusIdlePatternSpec::L, o[4].get<int>() != 0); return nullptr; }
        if (n == "bload") { auto x = bytes(o[2]); b->load(T(1), x.data(), o[2].size()); return nullptr; }
        if (n == "bword") { b->load(T(1), word(o[2]), o[2].size() / w); return nullptr; }
        if (n == "ben") { b->enable(T(1)); return nullptr; }
        if (n == "bdis") { b->disable(T(1)); return nullptr; }
        if (n == "bq") return stats(b->get_stats(T(1)));
        if (n == "bser") {
            std::stringstream s; b->serialize(s);
            auto x = std::make_unique<Bus>(w, dr, o[1] == "H" ? util::BusIdlePatternSpec::H : util::BusIdlePatternSpec::L, o[2].get<int>() != 0);
            x->deserialize(s); s.peek(); b = std::move(x);
            return s.eof() ? 1 : 0;
        }
        if (n == "data") { w = o[1]; dr = o[2]; base = o;
            util::DataBusConfig cfg{w, dr, def(o[3])};
            d = std::make_unique<DB>(util::databus_presets::getDataBusPreset(std::move(cfg), o[4].get<int>() ? util::DataBusMode::Bus : util::DataBusMode::TogglingRate)); return nullptr; }
        if (n == "drd" || n == "dwr") {
            auto x = bytes(o[2]); const uint8_t* q = o[3].get<int>() ? x.data() : nullptr;
            if (n == "drd") d->loadRead(T(1), o[2].size(), q); else d->loadWrite(T(1), o[2].size(), q);
            return nullptr; }
        if (n == "dbus") { d->enableBus(T(1)); return nullptr; }
        if (n == "dtog") { d->enableTogglingRate(T(1)); return nullptr; }
        if (n == "ddef") { d->setTogglingRateDefinition(def(o[1])); return nullptr; }
        if (n == "dmode") return J::array({d->isBus() ? 1 : 0, d->isTogglingRate() ? 1 : 0, d->getWidth()});
        if (n == "dq") { util::bus_stats_t s[4]; d->get_stats(T(1), s[0], s[1], s[2], s[3]); return J::array({stats(s[0]), stats(s[1]), stats(s[2]), stats(s[3])}); }
        if (n == "dser") {
            std::stringstream s; d->serialize(s);
            util::DataBusConfig cfg{w, dr, def(base[3])};
            auto x = std::make_unique<DB>(util::databus_presets::getDataBusPreset(std::move(cfg), o[1].get<int>() ? util::DataBusMode::Bus : util::DataBusMode::TogglingRate));
            x->deserialize(s); s.peek(); d = std::move(x);
            return s.eof() ? 1 : 0;
        }
        if (n == "pin") { p8.reset(); p32.reset(); if (o[1].get<int>() == 8) p8 = std::make_unique<util::Pin<8>>(ps(o[2]), ps(o[3])); else p32 = std::make_unique<util::Pin<32>>(ps(o[2]), ps(o[3])); return nullptr; }
        if (n == "pset") { for (auto& v : o[2]) { auto s = v.get<int>() ? util::PinState::H : util::PinState::L; const size_t r = o[3]; if (p8) p8->set(T(1), s, r); else p32->set(T(1), s, r); } return nullptr; }
        if (n == "pq") { const size_t r = o[2]; const uint64_t x = T(1); return stats(p8 ? p8->get_stats_at(x, r) : p32->get_stats_at(x, r)); }
        if (n == "pser") { std::stringstream s; if (p8) { p8->serialize(s); p8 = std::make_unique<util::Pin<8>>(ps(o[1]), ps(o[2])); p8->deserialize(s); } else { p32->serialize(s); p32 = std::make_unique<util::Pin<32>>(ps(o[1]), ps(o[2])); p32->deserialize(s); } s.peek(); return s.eof() ? 1 : 0; }
        if (n == "clk") { dr = o[1]; c = std::make_unique<util::Clock>(dr, o[2].get<int>() != 0); return nullptr; }
        if (n == "cstart") { c->start(T(1)); return nullptr; }
        if (n == "cstop") { c->stop(T(1)); return nullptr; }
        if (n == "cq") return stats(c->get_stats_at(T(1)));
        if (n == "cser") { std::stringstream s; c->serialize(s); auto x = std::make_unique<util::Clock>(dr, o[1].get<int>() != 0); x->deserialize(s); s.peek(); c = std::move(x); return s.eof() ? 1 : 0; }
        if (n == "tog") { t = std::make_unique<TogglingHandle>(o[1].get<uint64_t>(), o[2].get<uint64_t>(), o[3].get<int>() / 16.0, o[4].get<int>() / 16.0, ip(o[5]), o[6].get<int>() != 0); return nullptr; }
        if (n == "tinc") { t->incCountBurstLength(T(1), o[2].get<uint64_t>()); return nullptr; }
        if (n == "tbits") { t->incCountBitLength(T(1), o[2].get<uint64_t>()); return nullptr; }
        if (n == "ten") { t->enable(T(1)); return nullptr; }
        if (n == "tdis") { t->disable(T(1)); return nullptr; }
        if (n == "tset") { t->setTogglingRateAndDutyCycle(o[1].get<int>() / 16.0, o[2].get<int>() / 16.0, ip(o[3])); return nullptr; }
        if (n == "tq") return stats(t->get_stats(T(1)));
        if (n == "tget") return J::array({t->isEnabled() ? 1 : 0, t->getWidth(), t->getDatarate(), t->getTogglingRate() * 16, t->getDutyCycle() * 16});
        if (n == "tser") { std::stringstream s; t->serialize(s); auto x = std::make_unique<TogglingHandle>(); x->deserialize(s); s.peek(); t = std::move(x); return s.eof() ? 1 : 0; }
        return "unknown op";
    }
};

// ------------------------------------------------------------------ published records
// a record is given and returned as the object the specification names, written out here field by field
template <typename S> struct F { const char* n; uint64_t S::*p; };
static const std::vector<F<util::bus_stats_t>> fBus = {{"ones", &util::bus_stats_t::ones}, {"zeroes", &util::bus_stats_t::zeroes}, {"bit_changes", &util::bus_stats_t::bit_changes},
    {"ones_to_zeroes", &util::bus_stats_t::ones_to_zeroes}, {"zeroes_to_ones", &util::bus_stats_t::zeroes_to_ones}};
using CS_ = command_stats_t;
static const std::vector<F<CS_>> fCmd = {{"act", &CS_::act}, {"pre", &CS_::pre}, {"reads", &CS_::reads}, {"writes", &CS_::writes}, {"refAllBank", &CS_::refAllBank}, {"refPerBank", &CS_::refPerBank},
    {"refPerTwoBanks", &CS_::refPerTwoBanks}, {"refDualBanks", &CS_::refDualBanks}, {"refSameBank", &CS_::refSameBank}, {"readAuto", &CS_::readAuto}, {"writeAuto", &CS_::writeAuto}};
static const std::vector<F<cycles_t>> fCyc = {{"act", &cycles_t::act}, {"pre", &cycles_t::pre}, {"powerDownAct", &cycles_t::powerDownAct}, {"powerDownPre", &cycles_t::powerDownPre},
    {"selfRefresh", &cycles_t::selfRefresh}, {"deepSleepMode", &cycles_t::deepSleepMode}};
static const std::vector<F<prepos_t>> fPre = {{"readMerged", &prepos_t::readMerged}, {"readMergedTime", &prepos_t::readMergedTime}, {"writeMerged", &prepos_t::writeMerged},
    {"writeMergedTime", &prepos_t::writeMergedTime}, {"readSeamless", &prepos_t::readSeamless}, {"writeSeamless", &prepos_t::writeSeamless}};
template <typename S> static void in(const J& j, S& s, const std::vector<F<S>>& f) { for (auto& e : f) s.*(e.p) = j.at(e.n).template get<uint64_t>(); }
template <typename S> static J outF(const S& s, const std::vector<F<S>>& f) { J j = J::object(); for (auto& e : f) j[e.n] = s.*(e.p); return j; }
static void load(const J& j, util::bus_stats_t& s) { in(j, s, fBus); }
static void load(const J& j, command_stats_t& s) { in(j, s, fCmd); }
static void load(const J& j, cycles_t& s) { in(j, s, fCyc); }
static void load(const J& j, prepos_t& s) { in(j, s, fPre); }
static void load(const J& j, CycleStats& s) { load(j.at("counter"), s.counter); load(j.at("cycles"), s.cycles); load(j.at("prepos"), s.prepos); }
static void load(const J& j, TogglingStats& s) { load(j.at("read"), s.read); load(j.at("write"), s.write); }
static void load(const J& j, SimulationStats& s) {
    load(j.at("commandBus"), s.commandBus); load(j.at("readBus"), s.readBus); load(j.at("writeBus"), s.writeBus); load(j.at("clockStats"), s.clockStats); load(j.at("wClockStats"), s.wClockStats);
    load(j.at("readDBI"), s.readDBI); load(j.at("writeDBI"), s.writeDBI); load(j.at("togglingStats"), s.togglingStats); load(j.at("readDQSStats"), s.readDQSStats); load(j.at("writeDQSStats"), s.writeDQSStats);
    for (auto& e : j.at("bank")) { s.bank.emplace_back(); load(e, s.bank.back()); }
    for (auto& e : j.at("rank_total")) { s.rank_total.emplace_back(); load(e, s.rank_total.back()); }
}
static J dump(const util::bus_stats_t& s) { return outF(s, fBus); }
static J dump(const command_stats_t& s) { return outF(s, fCmd); }
static J dump(const cycles_t& s) { return outF(s, fCyc); }
static J dump(const prepos_t& s) { return outF(s, fPre); }
static J dump(const CycleStats& s) { return J{{"counter", dump(s.counter)}, {"cycles", dump(s.cycles)}, {"prepos", dump(s.prepos)}}; }
static J dump(const TogglingStats& s) { return J{{"read", dump(s.read)}, {"write", dump(s.write)}}; }
static J dump(const SimulationStats& s) {
    J j = {{"commandBus", dump(s.commandBus)}, {"readBus", dump(s.readBus)}, {"writeBus", dump(s.writeBus)}, {"clockStats", dump(s.clockStats)}, {"wClockStats", dump(s.wClockStats)}, {"readDBI", dump(s.readDBI)},
           {"writeDBI", dump(s.writeDBI)}, {"togglingStats", dump(s.togglingStats)}, {"readDQSStats", dump(s.readDQSStats)}, {"writeDQSStats", dump(s.writeDQSStats)}, {"bank", J::array()}, {"rank_total", J::array()}};
    for (auto& e : s.bank) j["bank"].push_back(dump(e));
    for (auto& e : s.rank_total) j["rank_total"].push_back(dump(e));
    return j;
}
using EI = energy_info_t;
static const std::vector<std::pair<const char*, double EI::*>> fE = {{"ACT", &EI::E_act}, {"PRE", &EI::E_pre}, {"BG_ACT", &EI::E_bg_act}, {"BG_PRE", &EI::E_bg_pre}, {"RD", &EI::E_RD}, {"WR", &EI::E_WR},
    {"RDA", &EI::E_RDA}, {"WRA", &EI::E_WRA}, {"PRE_RDA", &EI::E_pre_RDA}, {"PRE_WRA", &EI::E_pre_WRA}, {"REF_AB", &EI::E_ref_AB}, {"REF_PB", &EI::E_ref_PB}, {"REF_SB", &EI::E_ref_SB},
    {"REF_2B", &EI::E_ref_2B}, {"REF_DB", &EI::E_ref_DB}};
static void load(const J& j, energy_info_t& s) { for (auto& e : fE) s.*(e.second) = j.at(e.first).get<double>(); }
static J dump(const energy_info_t& s) { J j = J::object(); for (auto& e : fE) j[e.first] = s.*(e.second); return j; }
static void load(const J& j, interface_energy_t& s) { s.dynamicEnergy = j.at("dynamicEnergy"); s.staticEnergy = j.at("staticEnergy"); }
static J dump(const interface_energy_t& s) { return J{{"dynamicEnergy", s.dynamicEnergy}, {"staticEnergy", s.staticEnergy}}; }
static void load(const J& j, interface_energy_info_t& s) { load(j.at("controller"), s.controller); load(j.at("dram"), s.dram); }
static J dump(const interface_energy_info_t& s) { return J{{"controller", dump(s.controller)}, {"dram", dump(s.dram)}}; }
static energy_t loadE(const J& j) {
    energy_t e(j.at("BankEnergy").size());
    e.E_bg_act_shared = j.at("E_bg_act_shared"); e.E_PDNA = j.at("E_PDNA"); e.E_PDNP = j.at("E_PDNP"); e.E_sref = j.at("E_sref"); e.E_dsm = j.at("E_dsm"); e.E_refab = j.at("E_refab");
    for (size_t i = 0; i < e.bank_energy.size(); i++) load(j.at("BankEnergy")[i], e.bank_energy[i]);
    return e;
}
template <typename T> static T mk(const J& j) { T t; load(j, t); return t; }
struct Records : Machine {
    template <typename T> static J add(const J& a, const J& b) { T x = mk<T>(a); const T y = mk<T>(b); T& r = (x += y); return &r == &x ? dump(x) : J("other object"); }
    template <typename T> static J eq(const J& a, const J& b) { const T x = mk<T>(a), y = mk<T>(b); return x == y ? 1 : 0; }
    template <typename T> static J ser(const J& a) { const T x = mk<T>(a); std::stringstream s; x.serialize(s); T y; y.deserialize(s); bool ok = (bool)s; s.peek(); return ok && s.eof() ? dump(y) : J("stream"); }
    template <typename T> static J json(const J& a) { return J(mk<T>(a)); }
    template <typename T> static J read(const J& a) { return dump(a.get<T>()); }
    J op(const J& o) override {
        const std::string n = o[0], t = o.size() > 1 && o[1].is_string() ? o[1].get<std::string>() : "";
#define ALL_T(X) if (t == "bus") X(util::bus_stats_t) if (t == "cmd") X(command_stats_t) if (t == "cyc") X(cycles_t) if (t == "prepos") X(prepos_t) if (t == "cs") X(CycleStats)
#define SIM_T(X) if (t == "sim") X(SimulationStats)
#define TOG_T(X) if (t == "tog") X(TogglingStats)
        if (n == "json") {
#define X(T) return json<T>(o[2]);
            ALL_T(X) SIM_T(X) TOG_T(X)
#undef X
            J j;
            if (t == "einfo") mk<energy_info_t>(o[2]).to_json(j);
            if (t == "energy") loadE(o[2]).to_json(j);
            if (t == "ifinfo") mk<interface_energy_info_t>(o[2]).to_json(j);
            return j;
        }
        if (n == "read") {
#define X(T) return read<T>(o[2]);
            ALL_T(X) SIM_T(X) TOG_T(X)
#undef X
        }
        if (n == "add") {
#define X(T) return add<T>(o[2], o[3]);
            ALL_T(X) SIM_T(X)
            if (t == "einfo") X(energy_info_t)
            if (t == "side") { J a = add<interface_energy_t>(o[2], o[3]), b = dump(mk<interface_energy_t>(o[2]) + mk<interface_energy_t>(o[3])); return a == b ? a : J::array({a, b}); }
            if (t == "ifinfo") { J a = add<interface_energy_info_t>(o[2], o[3]), b = dump(mk<interface_energy_info_t>(o[2]) + mk<interface_energy_info_t>(o[3])); return a == b ? a : J::array({a, b}); }
#undef X
        }
        if (n == "eq") {
#define X(T) return eq<T>(o[2], o[3]);
            ALL_T(X) SIM_T(X)
#undef X
        }
        if (n == "ser") {
#define X(T) return ser<T>(o[2]);
            ALL_T(X)
#undef X
        }
        if (n == "mul") { auto b = mk<util::bus_stats_t>(o[1]); uint64_t k = o[2]; J x = dump(b * k), y = dump(k * b), z = dump(b *= k); return x == y && y == z ? x : J::array({x, y, z}); }
        if (n == "total") {
            if (t == "einfo") return mk<energy_info_t>(o[2]).total();
            if (t == "energy") return loadE(o[2]).total();
            if (t == "ifinfo") return mk<interface_energy_info_t>(o[2]).total();
        }
        if (n == "agg") return dump(loadE(o[1]).aggregated_bank_energy());
        return "unknown op";
    }
};

// ------------------------------------------------------------------ command words from descriptions
struct Encode : Machine {
    using P = pattern_descriptor::t;
    using L = PatternEncoderBitSpec;
    using H = PatternHandler<CmdType>;
    std::unique_ptr<H> h;
    static P desc(const J& d) {
        const std::string k = d[0];
        int i = d[1];
        using namespace pattern_descriptor;
        static const std::map<std::string, std::vector<P>> all = {
            {"L", {pattern_descriptor::L}}, {"H", {pattern_descriptor::H}}, {"V", {V}}, {"X", {X}}, {"AP", {AP}}, {"BL", {BL}}, {"CID", {CID0, CID1, CID2, CID3}},
            {"BG", {BG0, BG1, BG2}}, {"BA", {BA0, BA1, BA2, BA3, BA4, BA5, BA6, BA7, BA8}},
            {"C", {C0, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16}},
            {"R", {R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13, R14, R15, R16, R17}}};
        return all.at(k).at(i);
    }
    static std::vector<P> pat(const J& a) { std::vector<P> v; for (auto& d : a) v.push_back(desc(d)); return v; }
    static L level(const J& l) { return l == "L" ? L::L : l == "H" ? L::H : L::LAST_BIT; }
    static J show(L l) { return l == L::L ? "L" : l == L::H ? "H" : l == L::LAST_BIT ? "LAST" : "none"; }
    static TargetCoordinate at(const J& o, int k) { return {o[k].get<size_t>(), o[k + 1].get<size_t>(), 0, o[k + 2].get<size_t>(), o[k + 3].get<size_t>()}; }
    static J bits(uint64_t w, size_t n) {
        if (n < 64 && (w >> n)) return "bits above the description";
        J a = J::array();
        while (n--) a.push_back(int((w >> n) & 1));
        return a;
    }
    template <typename F> static auto byName(const std::string& n, F&& f) {
        if (n == "ACT") return f(std::integral_constant<CmdType, CmdType::ACT>{});
        if (n == "RD") return f(std::integral_constant<CmdType, CmdType::RD>{});
        if (n == "PRE") return f(std::integral_constant<CmdType, CmdType::PRE>{});
        return f(std::integral_constant<CmdType, CmdType::NOP>{});
    }
    J op(const J& o) override {
        const std::string n = o[0];
        if (n == "new") {
            PatternEncoderOverrides s;
            for (auto& e : o[1]) s.updateSettings({{desc(e[0]), level(e[1])}});
            uint64_t w = 0;
            for (auto& b : o[2]) w = w << 1 | uint64_t(b.get<int>());
            h = std::make_unique<H>(s, w);
            return J();
        }
        if (n == "reg") {
            auto p = pat(o[2]);
            return byName(o[1], [&](auto c) -> J {
                h->template registerPattern<decltype(c)::value>(p);
                return h->getPattern(c.value) == p ? J() : J{{"exc", "not kept"}};
            });
        }
        if (n == "enc") { auto p = pat(o[1]); return bits(h->getCoordinatePattern(at(o, 2), p), p.size()); }
        if (n == "word") return byName(o[1], [&](auto c) -> J {
            uint64_t w;
            try { w = h->getCommandPattern(c.value, at(o, 2)); } catch (const std::exception&) { return "none"; }
            return bits(w, h->getPattern(c.value).size());
        });
        auto& s = h->getEncoder().settings;
        if (n == "set") { s.updateSettings({{desc(o[1]), level(o[2])}}); return J(); }
        if (n == "unset") return s.removeSetting(desc(o[1])) ? 1 : 0;
        if (n == "level") {
            J l = show(s.getSetting(desc(o[1])));
            return s.hasSetting(desc(o[1])) == (l != "none") ? l : "has and get differ";
        }
        if (n == "ser") {
            std::stringstream a;
            h->serialize(a);
            s = PatternEncoderOverrides{{pattern_descriptor::V, L::H}, {pattern_descriptor::C3, L::L}, {pattern_descriptor::CID2, L::LAST_BIT}};
            h->deserialize(a);
            bool whole = bool(a) && a.peek() == EOF;
            return whole ? 1 : 0;
        }
        return "unknown op";
    }
};

// ------------------------------------------------------------------ an inversion unit on its own
struct DbiUnit { virtual ~DbiUnit() = default; virtual J op(const J& o) = 0; };
template <size_t SUB, util::PinState IDLE, typename Alg> struct DbiT : DbiUnit {
    using D = util::DBI<uint8_t, SUB, IDLE, Alg>;
    std::unique_ptr<D> d; J calls = J::array(); std::optional<size_t> w; size_t bl; bool on;
    std::unique_ptr<D> fresh() {
        return std::make_unique<D>(w, bl, [this](timestamp_t l, timestamp_t t, size_t i, bool s, bool r) { calls.push_back(J::array({l, t, i, s ? 1 : 0, r ? 1 : 0})); }, on);
    }
    explicit DbiT(const J& o) : bl(o[5]), on(o[6].get<int>() != 0) { if (o[4].get<size_t>()) w = o[4].get<size_t>(); d = fresh(); }
    static J bits(const uint8_t* p, size_t n) { J r = J::array(); for (size_t i = 0; i < n; i++) r.push_back((p[i / 8] >> (i % 8)) & 1); return r; }
    J op(const J& o) override {
        const std::string n = o[0];
        calls = J::array();
        if (n == "den") { d->enable(o[1].get<int>() != 0); return nullptr; }
        if (n == "dup") {
            std::vector<uint8_t> x((o[2].size() + 7) / 8, 0);
            for (size_t i = 0; i < o[2].size(); i++) if (o[2][i].get<int>()) x[i / 8] |= (uint8_t)(1u << (i % 8));
            const auto keep = x;
            auto p = d->updateDBI(o[1].get<uint64_t>(), o[2].size(), x.data(), o[3].get<int>() != 0);
            if (x != keep) return "the data given was changed";
            return J::array({p ? bits(*p, o[2].size()) : J::array(), calls});
        }
        if (n == "drst") { d->dispatchResetCallback(o[1].get<uint64_t>()); return calls; }
        if (n == "dser") { std::stringstream s; d->serialize(s); d = fresh(); d->deserialize(s); s.peek(); return s.eof() ? 1 : 0; }
        if (n == "dinv") { auto [p, k] = d->getInvertedData(); return d->getInvertedDataSize() == k ? bits(p, 8 * k) : J("sizes differ"); }
        if (n == "dst") {
            auto e = [&](bool r) { auto x = d->getLastBurstEnd(r); return x ? (int64_t)*x : -1; };
            auto c = d->getChunksPerWidth();
            return J::array({d->isEnabled() ? 1 : 0, c ? (int64_t)*c : -1, e(true), e(false), d->getInversionSizeRead(), d->getInversionSizeWrite()});
        }
        return "unknown op";
    }
};
struct Dbi : Machine {
    std::unique_ptr<DbiUnit> u;
    template <size_t SUB, util::PinState P> static std::unique_ptr<DbiUnit> alg(const J& o) {
        if (o[1].get<int>()) return std::make_unique<DbiT<SUB, P, util::DynamicDBI<4 * SUB>>>(o);
        return std::make_unique<DbiT<SUB, P, util::StaticDBI>>(o);
    }
    template <size_t SUB> static std::unique_ptr<DbiUnit> idle(const J& o) {
        if (o[3] == "L") return alg<SUB, util::PinState::L>(o);
        if (o[3] == "H") return alg<SUB, util::PinState::H>(o);
        return alg<SUB, util::PinState::Z>(o);
    }
    J op(const J& o) override {
        if (o[0] == "dbi") { if (o[2].get<int>() == 1) u = idle<1>(o); else u = idle<2>(o); return nullptr; }
        return u->op(o);
    }
};

static std::unique_ptr<Machine> make(const J& h) {
    const std::string k = h.at("kind");
    uint64_t T0 = h.value("T0", (uint64_t)0);
    if (k == "bits") return std::make_unique<Bits<1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 63, 64, 65>>();
    if (k == "sub8") return std::make_unique<Sub<8>>();
    if (k == "sub13") return std::make_unique<Sub<13>>();
    if (k == "sub64") return std::make_unique<Sub<64>>();
    if (k == "sub70") return std::make_unique<Sub<70>>();
    if (k == "interval") return std::make_unique<Interval>(T0);
    if (k == "queue") return std::make_unique<Queue>(T0);
    if (k == "names") return std::make_unique<Names>();
    if (k == "dyn") return std::make_unique<DynM>();
    if (k == "stat0") return std::make_unique<StatM<>>();
    if (k == "stat1") return std::make_unique<StatM<S1>>();
    if (k == "stat2") return std::make_unique<StatM<S0, S1, S2>>();
    if (k == "stat3") return std::make_unique<StatM<S4, S2, S0>>();
    if (k == "stat4") return std::make_unique<StatM<S3, S1, S4, S0, S2>>();
    if (k == "settings") return std::make_unique<Settings>();
    if (k == "encode") return std::make_unique<Encode>();
    if (k == "lines") return std::make_unique<Lines>(T0);
    if (k == "dbi") return std::make_unique<Dbi>();
    if (k == "records") return std::make_unique<Records>();
    throw std::runtime_error("kind");
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        J h = J::parse(line), r = {{"id", h["id"]}}, out = J::array();
        try {
            auto m = make(h);
            for (auto& o : h.at("ops")) {
                try { out.push_back(m->op(o)); } catch (const std::exception& e) { out.push_back(J{{"exc", e.what()}}); }
            }
            r["out"] = out;
        } catch (const std::exception& e) { r["err"] = e.what(); }
        std::cout << r.dump() << "\n";
    }
    std::cout.flush();
}
