// P20: the result object.
//
// "history": all sequences of operations on two results, for contents of many
//   kinds (trivial, counting, move-only, throwing, void; trivial and counting
//   errors), against a model (either a number or an error) after every step.
//   Contents know their own address and are counted, so that an object that is
//   built twice, destroyed twice, never destroyed or copied bytewise shows.  For
//   throwing contents, the fault point (which construction or assignment throws)
//   is part of the enumeration.
// "scan": scan results, for every argument count and type order, and through
//   copies, moves, swaps, conversions and accessors; initial values given.
#include "sources.h"
#include <scn/xchar.h>
#include <new>
#include <utility>
using mc::Run;
using src::Exact;
using src::Out;

// ---- instrumented contents ----
static long live;          // objects alive
static long broken;        // an object used that isn't alive at its address
static long fuse = -1;     // constructions/assignments left until one throws
struct Boom {};
static void tick()
{
    if (fuse >= 0 && fuse-- == 0) throw Boom{};
}
template <int Kind>
struct Cell;  // Kind bits: 1 copyable, 2 may throw when copied, 4 may throw when moved, 8 may throw when made from int
template <int K>
struct CellBase {
    const void* self;
    int v;
    explicit CellBase(int x) : self(this), v(x) { ++live; }
    CellBase(const CellBase& o) : self(this), v(o.get()) { ++live; }
    ~CellBase()
    {
        if (self != this) ++broken;
        self = nullptr;
        --live;
    }
    int get() const
    {
        if (self != this) ++broken;
        return v;
    }
    void set(int x)
    {
        if (self != this) ++broken;
        v = x;
    }
};
template <int K>
struct Cell : CellBase<K> {
    static constexpr bool copy = K & 1, tc = K & 2, tm = K & 4, ti = K & 8;
    Cell() noexcept : CellBase<K>(0) {}
    // (the storage has been written to when these throw)
    Cell(int x) noexcept(!ti) : CellBase<K>(x)
    {
        if (ti) tick();
    }
    Cell(const Cell& o) noexcept(!tc) : CellBase<K>(o.get())
    {
        if (tc) tick();
    }
    Cell(Cell&& o) noexcept(!tm) : CellBase<K>(o.get())
    {
        if (tm) tick();
        o.set(-1);
    }
    Cell& operator=(const Cell& o) noexcept(!tc)
    {
        if (tc) tick();
        this->set(o.get());
        return *this;
    }
    Cell& operator=(Cell&& o) noexcept(!tm)
    {
        if (tm) tick();
        int x = o.get();
        if (&o != this) o.set(-1);
        this->set(x);
        return *this;
    }
};
template <int K>
struct MoveCell : CellBase<K> {
    MoveCell() noexcept : CellBase<K>(0) {}
    MoveCell(int x) noexcept : CellBase<K>(x) {}
    MoveCell(MoveCell&& o) noexcept : CellBase<K>(o.get()) { o.set(-1); }
    MoveCell& operator=(MoveCell&& o) noexcept
    {
        int x = o.get();
        if (&o != this) o.set(-1);
        this->set(x);
        return *this;
    }
};
struct NoDefault : CellBase<100> {  // no default constructor
    NoDefault(int x) noexcept : CellBase<100>(x) {}
    NoDefault(const NoDefault& o) noexcept : CellBase<100>(o) {}
    NoDefault(NoDefault&& o) noexcept : CellBase<100>(o.get()) { o.set(-1); }
    NoDefault& operator=(const NoDefault& o) noexcept
    {
        set(o.get());
        return *this;
    }
    NoDefault& operator=(NoDefault&& o) noexcept
    {
        int x = o.get();
        if (&o != this) o.set(-1);
        set(x);
        return *this;
    }
};
// another content that converts
struct Source {
    int v;
    Source(int x) : v(x) {}
    template <int K>
    operator Cell<K>() const noexcept(!(K & 8)) { return Cell<K>(v); }
    template <int K>
    operator MoveCell<K>() const noexcept { return MoveCell<K>(v); }
    operator NoDefault() const noexcept { return NoDefault(v); }
    operator int() const noexcept { return v; }
};
// one that converts only explicitly
struct Hidden {
    int v;
    Hidden(int x) : v(x) {}
    template <int K>
    explicit operator Cell<K>() const noexcept(!(K & 8)) { return Cell<K>(v); }
    template <int K>
    explicit operator MoveCell<K>() const noexcept { return MoveCell<K>(v); }
    explicit operator NoDefault() const noexcept { return NoDefault(v); }
    explicit operator int() const noexcept { return v; }
};
static int num(int v) { return v; }
template <int K>
static int num(const CellBase<K>& c) { return c.get(); }
static int num(const std::string& s) { return s.empty() ? -1 : int(s.size()) * 1000 + s[0]; }

template <typename E>
static E mkerr(int k);
template <>
scn::scan_error mkerr<scn::scan_error>(int k) { return {static_cast<decltype(scn::scan_error::end_of_input)>(k), "m"}; }
template <>
Cell<1> mkerr<Cell<1>>(int k) { return Cell<1>(k); }
static int errnum(const scn::scan_error& e) { return int(e.code()); }
static int errnum(const Cell<1>& e) { return e.get(); }

template <typename T>
static T mk(int k)
{
    return T(k);
}
template <>
std::string mk<std::string>(int k) { return std::string(size_t(k), char('a' + k)); }

// ---- the model ----
struct M {
    bool ok = true;
    int v = 0;  // value or error; -1: moved from
};

enum Op {
    COPY_AB, MOVE_AB, COPY_BA, MOVE_BA, SELF, SWAP, VAL_A, LVAL_A, ERR_A, LERR_A, VAL_B, ERR_B, EMPL_A, CCTOR_A, MCTOR_A, CONV_A, CONVERR_A, CONVL_A,
    TRANS_A, TRANSM_A, AND_OK_A, AND_ERR_A, ORELSE_A, TERR_A, VOID_A, VALUE_OR_A, ERROR_OR_A, STEAL_A,
    XCONV_A, XCONVL_A, XCONVERR_A, VALUE_ORM_A, ERROR_ORM_A, CONST_A, RV_A, TERRV_A, INPLACE_A, NOPS
};
static const char* opn[] = {"A=B", "A=move(B)", "B=A", "B=move(A)", "A=A", "swap", "A=value", "A=lvalue", "A=unexpected", "A=unexpected&", "B=value", "B=unexpected", "A.emplace", "A=X(A)", "A=X(move(A))", "A=X(expected<Source>)", "A=X(expected<Source> error)", "A=X(const expected<Source>&)",
    "A.transform", "move(A).transform", "A.and_then(ok)", "A.and_then(error)", "A.or_else", "A.transform_error", "A.transform(void)", "value_or", "error_or", "T t=move(*A)",
    "A=X(explicit expected<Hidden>)", "A=X(explicit const expected<Hidden>&)", "A=X(explicit expected<Hidden> error)", "move(A).value_or", "move(A).error_or", "const access", "rvalue access", "transform_error(void)", "A=X(in_place)"};

template <typename X>
struct Traits {
    using T = typename X::value_type;
    using E = typename X::error_type;
    static constexpr bool copyable = std::is_copy_constructible_v<X>;
    static constexpr bool is_void = std::is_void_v<T>;
};

// what X's content is after having been moved from
template <typename X>
static constexpr bool moves_leave = !std::is_void_v<typename X::value_type> && std::is_class_v<typename X::value_type>;

template <typename X>
static std::string state(const X& x)
{
    if (!x.has_value()) return "E" + std::to_string(errnum(x.error()));
    if constexpr (std::is_void_v<typename X::value_type>) return "V";
    else return "V" + std::to_string(num(*x));
}
template <typename X>
static std::string state(const M& m)
{
    if (!m.ok) return "E" + std::to_string(m.v);
    if constexpr (std::is_void_v<typename X::value_type>) return "V";
    else if constexpr (std::is_same_v<typename X::value_type, std::string>) return "V" + std::to_string(m.v < 0 ? -1 : num(mk<std::string>(m.v)));
    else return "V" + std::to_string(m.v);
}
static std::string side;  // a difference seen by an operation itself

template <typename X>
static bool apply(int op, X& a, X& b, M& ma, M& mb, int k)
{
    using T = typename X::value_type;
    using E = typename X::error_type;
    constexpr bool cp = Traits<X>::copyable, vd = Traits<X>::is_void, cls = moves_leave<X>;
    constexpr bool ecls = std::is_same_v<E, Cell<1>>;
    auto moved = [&](M& m) {
        if (m.ok ? cls : ecls) m.v = -1;
    };
    int e = k % 10;
    // the model is only changed when the operation didn't throw
    switch (op) {
        case COPY_AB:
            if constexpr (cp) { a = b; ma = mb; return true; }
            return false;
        case MOVE_AB: a = std::move(b); ma = mb; moved(mb); return true;
        case COPY_BA:
            if constexpr (cp) { b = a; mb = ma; return true; }
            return false;
        case MOVE_BA: b = std::move(a); mb = ma; moved(ma); return true;
        case SELF:
            if constexpr (cp) { const X& r = a; a = r; return true; }
            return false;
        case SWAP: {
            std::swap(a, b);
            std::swap(ma, mb);
            return true;
        }
        case VAL_A:
            if constexpr (!vd) { a = mk<T>(k); ma = {true, k}; return true; }
            return false;
        case LVAL_A:
            if constexpr (!vd && cp) { const T t = mk<T>(k); a = t; ma = {true, k}; return true; }
            return false;
        case VAL_B:
            if constexpr (!vd) { b = mk<T>(k + 1); mb = {true, k + 1}; return true; }
            return false;
        case ERR_A: a = scn::unexpected<E>(mkerr<E>(e)); ma = {false, e}; return true;
        case LERR_A: { const scn::unexpected<E> u(mkerr<E>(e)); a = u; ma = {false, e}; return true; }
        case ERR_B: b = scn::unexpected<E>(mkerr<E>(e)); mb = {false, e}; return true;
        case EMPL_A:
            if constexpr (vd) { return false; }
            else if constexpr (std::is_same_v<T, std::string>) a.emplace(size_t(k), char('a' + k));
            else {
                auto& r = a.emplace(k);
                if (&r != &*a) side = "emplace returned another object";
            }
            ma = {true, k};
            return true;
        case CCTOR_A:
            if constexpr (cp) {
                X t(a);
                if (state(t) != state<X>(ma)) side = "copy is " + state(t);
                a = std::move(t);
                return true;
            }
            return false;
        case MCTOR_A: {
            X t(std::move(a));
            M m = ma;
            moved(ma);
            if (state(t) != state<X>(m)) side = "moved is " + state(t);
            a = std::move(t);
            ma = m;
            return true;
        }
        case CONV_A:
            if constexpr (!vd && !std::is_same_v<T, std::string>) {
                scn::expected<Source, E> s(Source(k + 2));
                X t(std::move(s));
                a = std::move(t);
                ma = {true, k + 2};
                return true;
            }
            return false;
        case CONVL_A:
            if constexpr (!vd && !std::is_same_v<T, std::string>) {
                const scn::expected<Source, E> s(Source(k + 2));
                X t(s);
                a = std::move(t);
                ma = {true, k + 2};
                return true;
            }
            return false;
        case CONVERR_A:
            if constexpr (!vd && !std::is_same_v<T, std::string>) {
                scn::expected<Source, E> s(scn::unexpected<E>(mkerr<E>(e)));
                X t(s);
                a = std::move(t);
                ma = {false, e};
                return true;
            }
            return false;
        case TRANS_A:
            if constexpr (!vd) {
                int calls = 0;
                auto r = a.transform([&](const T& t) { ++calls; return long(num(t)) + 7; });
                if (r.has_value() != ma.ok || calls != int(ma.ok)) side = "transform";
                else if (ma.ok ? *r != (ma.v < 0 ? -1 : num(mk<T>(ma.v))) + 7 : errnum(r.error()) != ma.v) side = "transform value";
                return true;
            }
            return false;
        case TRANSM_A:
            if constexpr (!vd && cp) {
                M m = ma;
                int calls = 0;
                auto r = std::move(a).transform([&](auto&& t) -> T { ++calls; return T(std::move(t)); });
                moved(ma);
                if (r.has_value() != m.ok || calls != int(m.ok)) side = "transform";
                else if (state(r) != state<X>(m)) side = "transform gave " + state(r);
                a = X(std::move(r));
                ma = m;
                return true;
            }
            return false;
        case AND_OK_A: {
            int calls = 0;
            if constexpr (vd) {
                auto r = a.and_then([&] { ++calls; return scn::expected<int, E>(5); });
                if (r.has_value() != ma.ok || calls != int(ma.ok) || (ma.ok ? *r != 5 : errnum(r.error()) != ma.v)) side = "and_then";
            }
            else {
                auto r = a.and_then([&](const T& t) { ++calls; return scn::expected<int, E>(num(t)); });
                if (r.has_value() != ma.ok || calls != int(ma.ok) || (ma.ok ? *r != (ma.v < 0 ? -1 : num(mk<T>(ma.v))) : errnum(r.error()) != ma.v)) side = "and_then";
            }
            return true;
        }
        case AND_ERR_A:
            if constexpr (!vd && cp) {
                M m = ma;
                X r = std::move(a).and_then([&](auto&&) -> X { return X(scn::unexpected<E>(mkerr<E>(3))); });
                M mr = m.ok ? M{false, 3} : m;
                if (!m.ok) moved(ma);
                if (state(r) != state<X>(mr)) side = "and_then gave " + state(r);
                a = std::move(r);
                ma = mr;
                return true;
            }
            return false;
        case ORELSE_A:
            if constexpr (!vd && cp) {
                M m = ma;
                int calls = 0;
                X r = std::move(a).or_else([&](const E& er) -> X { ++calls; if (errnum(er) != m.v) side = "or_else error"; return X(mk<T>(9)); });
                M mr = m.ok ? m : M{true, 9};
                if (m.ok) moved(ma); else moved(ma);
                if (calls != int(!m.ok)) side = "or_else calls";
                if (state(r) != state<X>(mr)) side = "or_else gave " + state(r);
                a = std::move(r);
                ma = mr;
                return true;
            }
            return false;
        case TERR_A: {
            if constexpr (cp) {
                int calls = 0;
                auto r = a.transform_error([&](const E& x) { ++calls; return Cell<1>(errnum(x) + 100); });
                if (r.has_value() != ma.ok || calls != int(!ma.ok)) side = "transform_error";
                else if (!ma.ok && r.error().get() != ma.v + 100) side = "transform_error value";
                if constexpr (!vd)
                    if (ma.ok && num(*r) != num(*a)) side = "transform_error kept value";
                return true;
            }
            return false;
        }
        case VOID_A:
            if constexpr (!vd) {
                int calls = 0;
                auto r = a.transform([&](const T&) { ++calls; });
                if (r.has_value() != ma.ok || calls != int(ma.ok) || (!ma.ok && errnum(r.error()) != ma.v)) side = "transform to void";
                return true;
            }
            return false;
        case VALUE_OR_A:
            if constexpr (!vd && cp) {
                T t = a.value_or(mk<T>(8));
                int want = ma.ok ? (ma.v < 0 ? -1 : num(mk<T>(ma.v))) : num(mk<T>(8));
                if (num(t) != want) side = "value_or " + std::to_string(num(t));
                return true;
            }
            return false;
        case ERROR_OR_A: {
            E x = a.error_or(mkerr<E>(4));
            if (errnum(x) != (ma.ok ? 4 : ma.v)) side = "error_or";
            return true;
        }
        case XCONV_A:
            if constexpr (!vd && std::is_constructible_v<T, Hidden> && !std::is_same_v<T, std::string>) {
                scn::expected<Hidden, E> s(Hidden(k + 3));
                static_assert(!std::is_convertible_v<decltype(s)&&, X>);
                X t(std::move(s));
                a = std::move(t);
                ma = {true, k + 3};
                return true;
            }
            return false;
        case XCONVL_A:
            if constexpr (!vd && std::is_constructible_v<T, Hidden> && !std::is_same_v<T, std::string>) {
                const scn::expected<Hidden, E> s(Hidden(k + 3));
                static_assert(!std::is_convertible_v<decltype(s)&, X>);
                X t(s);
                a = std::move(t);
                ma = {true, k + 3};
                return true;
            }
            return false;
        case XCONVERR_A:
            if constexpr (!vd && std::is_constructible_v<T, Hidden> && !std::is_same_v<T, std::string>) {
                const scn::expected<Hidden, E> s(scn::unexpected<E>(mkerr<E>(e)));
                X t(s), u{scn::expected<Hidden, E>(s)};
                if (state(u) != state(t)) side = "explicit conversions differ";
                X w{scn::expected<Source, E>(scn::unexpected<E>(mkerr<E>(e)))};
                if (state(w) != state(t)) side = "conversions differ";
                a = std::move(t);
                ma = {false, e};
                return true;
            }
            return false;
        case VALUE_ORM_A:
            if constexpr (!vd) {
                T t = std::move(a).value_or(mk<T>(8));
                int want = ma.ok ? (ma.v < 0 ? -1 : num(mk<T>(ma.v))) : num(mk<T>(8));
                if (num(t) != want) side = "move(A).value_or " + std::to_string(num(t));
                if (ma.ok) moved(ma);
                return true;
            }
            return false;
        case ERROR_ORM_A: {
            E x = std::move(a).error_or(mkerr<E>(4));
            if (errnum(x) != (ma.ok ? 4 : ma.v)) side = "move(A).error_or";
            if (!ma.ok) moved(ma);
            return true;
        }
        case CONST_A: {
            const X& c = a;
            if (bool(c) != ma.ok) side = "operator bool";
            int calls = 0;
            if constexpr (vd) {
                auto r = c.and_then([&] { ++calls; return scn::expected<int, E>(5); });
                auto t = c.transform([&] { ++calls; return 6; });
                auto v = c.transform([&] { ++calls; });
                if (r.has_value() != ma.ok || t.has_value() != ma.ok || v.has_value() != ma.ok || calls != 3 * ma.ok) side = "const access of void";
                else if (ma.ok ? *r != 5 || *t != 6 : errnum(r.error()) != ma.v || errnum(t.error()) != ma.v || errnum(v.error()) != ma.v) side = "const access of void: value";
            }
            else {
                auto r = c.and_then([&](const T& t) { ++calls; return scn::expected<int, E>(num(t)); });
                auto t = c.transform([&](const T& t) { ++calls; return num(t) + 1; });
                auto v = c.transform([&](const T&) { ++calls; });
                if (r.has_value() != ma.ok || t.has_value() != ma.ok || v.has_value() != ma.ok || calls != 3 * ma.ok) side = "const access";
                else if (ma.ok) {
                    int w = ma.v < 0 ? -1 : num(mk<T>(ma.v));
                    if (*r != w || *t != w + 1 || num(c.value()) != w || num(*c) != w || num(*c.operator->()) != w || &*c != &c.value() || &c.value() != &a.value() || a.operator->() != &*a) side = "const access: value";
                }
                else if (errnum(r.error()) != ma.v || errnum(t.error()) != ma.v || errnum(v.error()) != ma.v) side = "const access: error";
                if constexpr (cp) {
                    int oc = 0;
                    auto o = c.or_else([&](const E&) { ++oc; return X(scn::unexpected<E>(mkerr<E>(6))); });
                    auto te = c.transform_error([&](const E& x) { ++oc; return long(errnum(x)); });
                    if (oc != 2 * !ma.ok) side = "const or_else calls";
                    else if (ma.ok ? !o || !te || num(*o) != num(*c) || num(*te) != num(*c) : o || te || errnum(o.error()) != 6 || te.error() != ma.v) side = "const or_else";
                }
            }
            if (!ma.ok && (errnum(c.error()) != ma.v || errnum(a.error()) != ma.v || &c.error() != &a.error())) side = "error()";
            return true;
        }
        case RV_A: {
            // rvalue accessors give the same objects, and moving happens only by their use
            if (ma.ok) {
                if constexpr (!vd) {
                    T&& r1 = std::move(a).value();
                    T&& r2 = *std::move(a);
                    const T&& r3 = std::move(std::as_const(a)).value();
                    const T&& r4 = *std::move(std::as_const(a));
                    if (&r1 != &a.value() || &r2 != &r1 || &r3 != &r1 || &r4 != &r1) side = "rvalue access gives another object";
                }
            }
            else {
                E&& r1 = std::move(a).error();
                const E&& r2 = std::move(std::as_const(a)).error();
                if (&r1 != &a.error() || &r2 != &r1) side = "rvalue error gives another object";
            }
            return true;
        }
        case TERRV_A:
            if constexpr (cp) {
                int calls = 0, seen = -7;
                auto r = a.transform_error([&](const E& x) { ++calls; seen = errnum(x); });
                if (r.has_value() != ma.ok || calls != int(!ma.ok) || (!ma.ok && seen != ma.v)) side = "transform_error to nothing";
                if constexpr (!vd)
                    if (ma.ok && num(*r) != num(*a)) side = "transform_error to nothing: kept value";
                return true;
            }
            return false;
        case INPLACE_A:
            if constexpr (!vd && !std::is_same_v<T, std::string>) {
                X t(std::in_place, k + 4), u(scn::unexpect, mkerr<E>(e));
                if (state(u) != state<X>(M{false, e})) side = "unexpect is " + state(u);
                a = std::move(t);
                ma = {true, k + 4};
                return true;
            }
            return false;
        case STEAL_A:
            if constexpr (!vd) {
                if (!ma.ok) return false;
                T t = *std::move(a);
                if (num(t) != (ma.v < 0 ? -1 : num(mk<T>(ma.v)))) side = "stolen value";
                moved(ma);
                return true;
            }
            return false;
    }
    return false;
}

// after a throw the result must hold its old state, or (where an object's own
// assignment or a temporary threw) any state without breaking the accounting
template <typename X>
static void histories(const char* name, int depth, int kinds, bool throwing)
{
    auto& R = Run::get();
    using T = typename X::value_type;
    using E = typename X::error_type;
    std::vector<int> ops;
    for (int i = 0; i < NOPS; ++i) ops.push_back(i);
    for (int init = 0; init < 4; ++init)
        mc::for_seqs(ops, 1, depth, [&](const std::vector<int>& p) {
            for (long fz = throwing ? 0 : -1; fz < (throwing ? 4 : 0); ++fz) {
                if (!R.take([&] {
                        std::string s = std::string(name) + " init " + std::to_string(init) + " fuse " + std::to_string(fz);
                        for (int o : p) s += std::string("; ") + opn[o];
                        return s;
                    }))
                    continue;
                long l0 = live;
                broken = 0;
                side.clear();
                std::string err;
                size_t step = 0;
                {
                    fuse = -1;
                    auto make = [&](bool ok, int k) {
                        if constexpr (std::is_void_v<T>) return ok ? X() : X(scn::unexpected<E>(mkerr<E>(k)));
                        else return ok ? X(mk<T>(k)) : X(scn::unexpected<E>(mkerr<E>(k)));
                    };
                    X a = make(init & 1, 1), b = make(init & 2, 2);
                    M ma{bool(init & 1), 1}, mb{bool(init & 2), 2};
                    bool skip = false;
                    for (step = 0; step < p.size() && err.empty(); ++step) {
                        bool last = step + 1 == p.size();
                        fuse = last ? fz : -1;
                        bool threw = false, had = a.has_value();
                        // nothing can keep a value whose moves throw when its
                        // replacement throws, too: not judged
                        if (fuse >= 0 && p[step] == EMPL_A && had && !std::is_nothrow_move_constructible_v<T>) break;
                        M oa = ma, ob = mb;
                        try {
                            if (!apply(p[step], a, b, ma, mb, int(step) + 3)) {
                                skip = true;
                                break;
                            }
                        }
                        catch (const Boom&) {
                            threw = true;
                        }
                        fuse = -1;
                        ++R.calls;
                        ++R.checks;
                        (void)had;
                        if (threw && !throwing) err = "threw";
                        if (threw) {
                            // plain assignments and emplace: an error stays that error, and a
                            // value is either kept or assigned to
                            int o = p[step];
                            bool plain = o == COPY_AB || o == VAL_A || o == LVAL_A || o == EMPL_A;
                            if ((plain || o == MOVE_AB) && !oa.ok && state(a) != state<X>(oa)) err = "after the exception A is " + state(a) + ", was " + state<X>(oa);
                            if (plain && state(b) != state<X>(ob)) err = "after the exception B is " + state(b) + ", was " + state<X>(ob);
                            if (plain && oa.ok && !a.has_value()) err = "value lost by an exception";
                            state(a);
                            state(b);
                        }
                        else {
                            if (!side.empty()) err = side;
                            else if (state(a) != state<X>(ma)) err = "A is " + state(a) + ", should be " + state<X>(ma);
                            else if (state(b) != state<X>(mb)) err = "B is " + state(b) + ", should be " + state<X>(mb);
                        }
                        if (err.empty() && broken) err = "object used outside its lifetime";
                        long held = 0;
                        if constexpr (std::is_class_v<T> && !std::is_same_v<T, std::string>) held += a.has_value() + b.has_value();
                        if constexpr (std::is_same_v<E, Cell<1>>) held += !a.has_value() + !b.has_value();
                        if (err.empty() && live - l0 != held) err = std::to_string(live - l0) + " objects alive, " + std::to_string(held) + " held";
                        if (last) R.outcome(std::string(name) + state(a) + state(b) + std::to_string(p[step]));
                        if (threw) break;
                    }
                    (void)skip;  // not applicable: the shorter history was judged
                }
                if (err.empty() && broken) err = "object used outside its lifetime at the end";
                if (err.empty() && live != l0) err = std::to_string(live - l0) + " objects left alive";
                if (!err.empty()) {
                    std::string key = name;
                    for (int o : p) key += std::string(";") + opn[o];
                    R.fail(key + "|" + std::to_string(init) + "," + std::to_string(fz), err);
                    live = l0;
                }
            }
        });
    (void)kinds;
}

#define RF(x) scn::runtime_format(std::string_view(x))
// ---- scan results ----
struct Seen {  // scanner that reports the initial value it was given
    int initial = -5, read = 0;
    Seen() = default;
    Seen(int i) : initial(i) {}
};
template <>
struct scn::scanner<Seen, char> : scn::scanner<int, char> {
    template <typename Ctx>
    auto scan(Seen& s, Ctx& ctx) const
    {
        return scn::scanner<int, char>::scan(s.read, ctx);
    }
};
static std::string rp(const Seen& s) { return "seen" + std::to_string(s.initial) + ":" + std::to_string(s.read); }
template <typename T>
static std::string rp(const T& v) { return src::repr(v); }

// the i-th argument's type and text
template <size_t I>
struct ArgOf {
    using type = std::tuple_element_t<I % 9, std::tuple<int, std::string, double, char, unsigned long long, bool, short, std::string_view, Seen>>;
};
static std::string text_of(size_t i)
{
    switch (i % 9) {
        case 0: return std::to_string(-int(i) - 1);
        case 1: return "s" + std::to_string(i);
        case 2: return std::to_string(i) + ".5";
        case 3: return std::string(1, char('A' + i % 26));
        case 4: return std::to_string(10000000000000000000ull + i);
        case 5: return i % 2 ? "true" : "false";
        case 6: return std::to_string(i + 100);
        case 7: return "v" + std::to_string(i);
        default: return std::to_string(i + 7);
    }
}
static std::string want_of(size_t i, bool init)
{
    std::string t = text_of(i);
    switch (i % 9) {
        case 1: case 7: return "\"" + t + "\"";
        case 2: return src::repr(double(i) + 0.5);
        case 3: return std::to_string(int(t[0]));
        case 8: return "seen" + std::to_string(init ? int(i) * 3 + 1 : -5) + ":" + t;
        default: return t;
    }
}
template <size_t I>
static typename ArgOf<I>::type init_of()
{
    using T = typename ArgOf<I>::type;
    if constexpr (std::is_same_v<T, Seen>) return Seen(int(I) * 3 + 1);
    else if constexpr (std::is_same_v<T, std::string>) return "initial value of some length";
    else if constexpr (std::is_same_v<T, std::string_view>) return "view";
    else return T(1);
}
template <typename Tup>
static std::string show(const Tup& t)
{
    std::string s;
    std::apply([&](const auto&... v) { ((s += rp(v) + ","), ...); }, t);
    return s;
}
// Offset Off rotates which type comes first
template <size_t Off, size_t... I>
static void args_n(std::index_sequence<I...>, size_t bad)
{
    auto& R = Run::get();
    constexpr size_t N = sizeof...(I);
    std::string in, fmt, mfmt, want, wanti;
    for (size_t i = 0; i < N; ++i) {
        fmt += i ? " {}" : "{}";
        mfmt += (i ? " {" : "{") + std::to_string(i) + "}";
        in += (i ? " " : "") + (i == bad ? std::string() : text_of(i + Off));
        if (i == bad) break;
        want += want_of(i + Off, false) + ",";
        wanti += want_of(i + Off, true) + ",";
    }
    if (bad < N)
        for (size_t i = bad + 1; i < N; ++i) fmt += " {}", mfmt += " {" + std::to_string(i) + "}";
    in += bad < N ? "" : "|rest";
    // char arguments take whatever comes: make the text end there for a failure
    bool ok = bad >= N;
    if (!R.take([&] { return "args " + std::to_string(N) + " offset " + std::to_string(Off) + " bad " + std::to_string(long(bad)); })) return;
    // the last field before "|rest" may be a string that takes it, too
    auto fix = [&](std::string w) {
        size_t l = N + Off - 1;
        if (ok && N && (l % 9 == 1 || l % 9 == 7)) w.insert(w.size() - 2, "|rest");
        return w;
    };
    size_t l = N + Off - 1;
    std::string rest = ok && N && (l % 9 == 1 || l % 9 == 7) ? "" : ok ? "|rest" : "";
    auto check = [&](const char* what, auto&& r, const std::string& w) {
        ++R.calls;
        ++R.checks;
        std::string key = "args|" + std::to_string(N) + "," + std::to_string(Off) + "," + std::to_string(long(bad)) + "|" + what;
        if (r.has_value() != ok) {
            R.fail(key, r.has_value() ? "succeeded" : std::string("failed: ") + r.error().msg());
            return;
        }
        if (!ok) return;
        if (show(r->values()) != w) R.fail(key, "values " + show(r->values()) + " expected " + w);
        std::string left(r->begin(), r->end());
        if (left != rest) R.fail(key, "rest \"" + left + "\"");
        // through copies, moves and assignments
        auto copy = r;
        if (show(copy->values()) != w || std::string(copy->begin(), copy->end()) != rest) R.fail(key, "copy differs");
        auto moved = std::move(copy);
        if (show(moved->values()) != w) R.fail(key, "moved result differs");
        auto t = std::move(moved->values());
        if (show(t) != w) R.fail(key, "moved values differ");
        if constexpr (N == 1) {
            if (rp(r->value()) + "," != w) R.fail(key, "value() differs");
        }
        auto res = *r;
        auto res2 = std::move(res);
        if (show(res2.values()) != w) R.fail(key, "moved scan_result differs");
        if (show(r->values()) != w) R.fail(key, "original changed");
        R.outcome(w);
    };
    Exact<char> ex(in);
    auto sv = ex.view();
    check("plain", scn::scan<typename ArgOf<I + Off>::type...>(sv, RF(fmt)), fix(want));
    check("manual", scn::scan<typename ArgOf<I + Off>::type...>(sv, RF(mfmt)), fix(want));
    if constexpr (N > 0) check("initial", scn::scan<typename ArgOf<I + Off>::type...>(sv, RF(fmt), {init_of<I + Off>()...}), fix(wanti));
    check("locale", scn::scan<typename ArgOf<I + Off>::type...>(std::locale::classic(), sv, RF(fmt)), fix(want));
    // reading into given objects
    std::tuple<typename ArgOf<I + Off>::type...> objs{init_of<I + Off>()...};
    auto args = scn::make_scan_args(objs);
    auto r = scn::vscan(sv, std::string_view(fmt), args);
    ++R.calls;
    ++R.checks;
    std::string key = "args|" + std::to_string(N) + "," + std::to_string(Off) + "," + std::to_string(long(bad)) + "|vscan";
    if (r.has_value() != ok) R.fail(key, "success differs");
    else if (ok && show(objs) != fix(wanti)) R.fail(key, "values " + show(objs) + " expected " + fix(wanti));
    else if (ok && std::string(r->begin(), r->end()) != rest) R.fail(key, "rest differs");
}
template <size_t Off, size_t... N>
static void args_off(std::index_sequence<N...>, size_t bad)
{
    (args_n<Off>(std::make_index_sequence<N>{}, bad), ...);
}
template <size_t... Off>
static void args_all(std::index_sequence<Off...>)
{
    for (long bad = -1; bad < 13; ++bad) (args_off<Off>(std::make_index_sequence<14>{}, size_t(bad)), ...);
    for (long bad = -1; bad < 26; ++bad) {
        args_off<0>(std::index_sequence<14, 15, 16, 17, 20, 24>{}, size_t(bad));
        args_off<4>(std::index_sequence<14, 18, 22, 26>{}, size_t(bad));
    }
}

// dangling and FILE results, conversions
static void single(const std::string& in)
{
    auto& R = Run::get();
    if (!R.take([&] { return "single \"" + mc::esc(in) + "\""; })) return;
    auto bad = [&](const char* what, const std::string& d) { R.fail(std::string("single|") + what + "|" + mc::esc(in), d); };
    Exact<char> ex(in);
    auto sv = ex.view();
    auto base = scn::scan<int>(sv, RF("{}"));
    R.calls += 8;
    ++R.checks;
    // an rvalue string leaves no range
    auto dg = scn::scan<int>(std::string(in), RF("{}"));
    static_assert(std::is_same_v<decltype(dg->range()), scn::ranges::dangling>);
    if (base.has_value() != dg.has_value() || (base ? base->value() != dg->value() : base.error().code() != dg.error().code())) bad("dangling", "result differs");
    // literal array: the terminator isn't part of it
    if (in.find('\0') == std::string::npos) {
        char arr[32] = {};
        std::copy(in.begin(), in.end(), arr);
        std::string_view av(arr, in.size());
        auto ra = scn::scan<int>(av, RF("{}"));
        if (base.has_value() != ra.has_value()) bad("array", "result differs");
    }
    // FILE: file() is kept by copies and moves
    src::CookieFile cf(in, 0);
    auto fr = scn::scan<int>(cf.f, RF("{}"));
    if (base.has_value() != fr.has_value()) bad("FILE", "success differs");
    else if (fr) {
        auto c = fr;
        auto m = std::move(c);
        if (m->file() != cf.f || m->value() != base->value()) bad("FILE", "copied result differs");
    }
    // assignments between results
    auto other = scn::scan<int>(std::string_view("77 z"), RF("{}"));
    auto x = other;
    x = base;
    if (x.has_value() != base.has_value() || (base ? x->value() != base->value() || x->begin() != base->begin() : x.error().code() != base.error().code())) bad("assign", "result differs");
    auto y = base;
    std::swap(x, other);
    if (x->value() != 77 || other.has_value() != base.has_value() || (base && other->value() != base->value())) bad("swap", "result differs");
    y = std::move(x);
    if (!y || y->value() != 77 || *y->begin() != ' ') bad("move assign", "result differs");
    // conversions between kinds of results
    if (base) {
        using CR = scn::ranges::subrange<const char*>;
        using MR = scn::ranges::subrange<char*>;
        std::string buf = in + "#";
        MR mr(buf.data() + (base->begin() - sv.begin()), buf.data() + in.size());
        auto differs = [&](const auto& r) { return r.value() != base->value() || r.begin() != mr.begin() || r.end() != mr.end() || r.range().begin() != mr.begin(); };
        scn::scan_result<MR, int> m(mr, std::tuple<int>(base->value()));
        scn::scan_result<CR, int> c1(m), c2{scn::scan_result<MR, int>(m)}, c3, c4;
        c3 = m;
        c4 = scn::scan_result<MR, int>(m);
        if (differs(m) || differs(c1) || differs(c2)) bad("convert", "result differs");
        if (differs(c3) || differs(c4)) bad("convert assign", "result differs");
        scn::scan_result<scn::ranges::dangling, int> d1(m), d2, d3;
        d2 = m;
        d3 = scn::scan_result<MR, int>(m);
        if (d1.value() != base->value() || d2.value() != base->value() || d3.value() != base->value()) bad("convert to dangling", "value differs");
        scn::scan_result<MR, std::string> ms(mr, std::tuple<std::string>("a string that is long enough to move " + in));
        scn::scan_result<CR, std::string> s1(ms), s2, s3;
        s2 = ms;
        if (s1.value() != ms.value() || s2.value() != ms.value() || ms.value().empty()) bad("convert string", "value differs");
        std::string keep = ms.value();
        s3 = std::move(ms);
        scn::scan_result<MR, std::string> mt(mr, std::tuple<std::string>(keep));
        scn::scan_result<CR, std::string> s4(std::move(mt));
        if (s3.value() != keep || s4.value() != keep || s3.begin() != mr.begin() || s4.end() != mr.end()) bad("convert string by move", "value differs");
        std::string v1 = std::move(s3).value(), v2 = std::move(std::as_const(s4)).value();
        auto v3 = std::move(s4).values();
        if (v1 != keep || v2 != keep || std::get<0>(v3) != keep || s4.begin() != mr.begin()) bad("value() of an rvalue", "value differs");
        scn::scan_expected<scn::scan_result<MR, int>> em(m);
        scn::scan_expected<scn::scan_result<CR, int>> e1(em), e2(std::move(em));
        if (!e1 || !e2 || differs(*e1) || differs(*e2)) bad("convert expected", "result differs");
        c3.set_range(MR(mr.end(), mr.end()));
        if (c3.begin() != mr.end() || c3.value() != base->value()) bad("set_range", "result differs");
    }
    else {
        using CR = scn::ranges::subrange<const char*>;
        using MR = scn::ranges::subrange<char*>;
        scn::scan_expected<scn::scan_result<MR, int>> em(scn::unexpected(base.error()));
        scn::scan_expected<scn::scan_result<CR, int>> e1(em), e2(std::move(em));
        if (e1 || e2 || e1.error().code() != base.error().code() || e2.error().code() != base.error().code()) bad("convert expected", "error differs");
    }
    // monadic use keeps value, range and error
    auto t = base.transform([](const auto& r) { return std::pair(r.value(), r.begin()); });
    if (t.has_value() != base.has_value() || (base ? t->first != base->value() || t->second != base->begin() : (t.error().code() != base.error().code() || t.error().msg() != base.error().msg()))) bad("transform", "differs");
    auto chained = base.and_then([&](const auto& r) { return scn::scan<int>(r.range(), RF("{}")); });
    bool want2 = false;
    if (base) want2 = scn::scan<int>(std::string_view(base->begin(), size_t(sv.end() - base->begin())), RF("{}")).has_value();
    if (chained.has_value() != want2) bad("and_then", "differs");
    if (scn::scan_error e{scn::scan_error::invalid_fill, "m"}; !base) {
        auto o = base.error_or(e);
        if (o.code() != base.error().code()) bad("error_or", "differs");
        auto c = base.error();
        if (c.code() != base.error().code() || c.msg() != base.error().msg()) bad("error copy", "differs");
        if (c == e ? c.code() != e.code() : c.code() == e.code()) bad("error ==", "differs");
        bool same = c.code() == e.code();
        if ((c != e) == same || (c == e.code()) != same || (c != e.code()) == same || (e.code() == c) != same || (e.code() != c) == same) bad("error !=", "differs");
    }
    R.outcome(base ? std::to_string(base->value()) : base.error().msg());
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    bool th = R.thorough;
    using scn::expected;
    using scn::scan_error;
    int d = 4;
    if (R.group("history int")) {
        histories<scn::expected<int, scan_error>>("int", d, 0, false);
        histories<scn::expected<int, Cell<1>>>("int/counted error", d, 0, false);
    }
    if (R.group("history counted")) {
        histories<expected<Cell<1>, scan_error>>("counted", d, 0, false);
        histories<expected<Cell<1>, Cell<1>>>("counted/counted error", d, 0, false);
    }
    if (R.group("history string")) histories<expected<std::string, scan_error>>("string", d, 0, false);
    if (R.group("history move-only")) histories<expected<MoveCell<0>, scan_error>>("move-only", d, 0, false);
    if (R.group("history no default")) histories<expected<NoDefault, scan_error>>("no default constructor", d, 0, false);
    if (R.group("history void")) {
        histories<expected<void, scan_error>>("void", d, 0, false);
        histories<expected<void, Cell<1>>>("void/counted error", d, 0, false);
    }
    d = th ? 4 : 3;
    if (R.group("history throwing")) {
        histories<expected<Cell<1 | 2>, scan_error>>("throwing copy", d, 0, true);
        histories<expected<Cell<1 | 2 | 4>, scan_error>>("throwing copy and move", d, 0, true);
        histories<expected<Cell<1 | 2 | 8>, scan_error>>("throwing copy and value", d, 0, true);
        histories<expected<Cell<1 | 2 | 4 | 8>, scan_error>>("throwing copy, move and value", d, 0, true);
        histories<expected<Cell<1 | 2>, Cell<1>>>("throwing copy/counted error", d, 0, true);
        histories<expected<Cell<1 | 2 | 4 | 8>, Cell<1>>>("throwing copy, move and value/counted error", d, 0, true);
    }
    if (R.group("arguments")) args_all(std::make_index_sequence<9>{});
    if (R.group("single")) mc::for_strings({"1", "-", " ", "a", "99999999999", "0", "\n"}, 0, th ? 5 : 4, single);
    return R.finish();
}
