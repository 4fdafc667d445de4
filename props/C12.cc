#include "common.h"
#include "pymatching/sparse_blossom/flooder_matcher_interop/varying.h"
#include "pymatching/sparse_blossom/tracker/cyclic.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C12";
const char *pbt::RULE =
    "cyclic integers of 8/16/32 bits against modular arithmetic in 128-bit integers; varying values (32/64 bit) through random "
    "sequences of slope changes and offsets against a (value, slope) model. Non-trivial: every case (a pair of times or a slope history)";
typedef __int128 i128;
typedef int64_t i64;
template <typename T>
static void cyc(Gen &g, Ctx &c) {
    i128 N = (i128)1 << (sizeof(T) * 8), H = N / 2;
    // a, b on the integers
    i64 a = (i64)g.choice((uint64_t)1 << 40) - ((i64)1 << 39);
    i64 diff;
    switch (g.choice(4)) {
        case 0: diff = (i64)g.choice(4); break;
        case 1: diff = (i64)H - (i64)g.choice(4); break;
        default: diff = (i64)g.choice((uint64_t)H + 1);
    }
    if (g.chance(1, 2)) diff = -diff;
    i64 b = a + diff;
    pm::cyclic<T> A((i64)a), B((i64)b);
    c.desc << "cyclic" << sizeof(T) * 8 << " a=" << a << " b=" << b;
    bool tie = (i128)(diff < 0 ? -diff : diff) == H;
    if (!tie) {
        CHECK((A < B) == (a < b), "<");
        CHECK((A > B) == (a > b), ">");
        CHECK((A <= B) == (a <= b), "<=");
        CHECK((A >= B) == (a >= b), ">=");
        CHECK(A.widen_from_nearby_reference((i64)b) == a, "widening " << +A.value << " near " << b << " gives " << A.widen_from_nearby_reference((i64)b));
    } else {
        CHECK(!(A < B) && !(A > B), "values half a cycle apart must not be ordered");
        i64 w = A.widen_from_nearby_reference((i64)b);
        CHECK(w == b + (i64)H || w == b - (i64)H, "widening a tie gives " << w);
    }
    CHECK((A == B) == (diff == 0) && (A != B) == (diff != 0), "==/!=");
    CHECK((A + B) == pm::cyclic<T>((i64)(a + b)), "+");
    CHECK((A - B) == pm::cyclic<T>((i64)(a - b)), "-");
    auto C = A;
    C += (i64)diff;
    CHECK(C == B, "+=");
    C -= (i64)diff;
    CHECK(C == A, "-=");
    ++C;
    CHECK(C == pm::cyclic<T>((i64)(a + 1)), "++");
    --C;
    C--;
    CHECK(C == pm::cyclic<T>((i64)(a - 1)), "--");
    CHECK(C++ == pm::cyclic<T>((i64)(a - 1)) && C == A, "post++");
    CHECK(A == (T)a && !(A != (T)a), "comparison with a plain value");
    c.nontrivial = true;
    if (c.want_labels) c.label(tie ? "half a cycle apart" : diff == 0 ? "equal" : "cyclic");
}
template <typename T>
static void vary(Gen &g, Ctx &c) {
    int bits = sizeof(T) == 4 ? 24 : 45;
    auto any = [&](int b) { i64 m = (i64)1 << g.choice(b); return (i64)g.choice(2 * (uint64_t)m + 1) - m; };
    i64 t = (i64)g.choice((uint64_t)1 << g.choice(bits));
    i64 val = any(bits);
    int slope = (int)g.choice(3) - 1;
    pm::Varying<T> v;
    switch (g.choice(4)) {
        case 0: v = pm::Varying<T>::from_base_and_growth((T)(val - slope * t), (int8_t)slope); break;
        case 1: slope = 1; v = pm::Varying<T>::growing_value_at_time((T)val, (T)t); break;
        case 2: slope = -1; v = pm::Varying<T>::shrinking_value_at_time((T)val, (T)t); break;
        default:
            if (g.chance(1, 2)) { slope = 0; v = pm::Varying<T>::frozen((T)val); }
            else { slope = 1; val = 0; v = pm::Varying<T>::growing_varying_with_zero_distance_at_time((T)t); }
    }
    c.desc << "varying" << sizeof(T) * 8 << " value " << val << " at " << t << " slope " << slope << ":";
    int steps = (int)g.range(0, 8);
    for (int s = 0; s <= steps; s++) {
        CHECK((i64)v.get_distance_at_time((T)t) == val, "value " << v.get_distance_at_time((T)t) << " at " << t << ", expected " << val << " (" << v.str() << ")");
        CHECK(v.is_growing() == (slope == 1) && v.is_shrinking() == (slope == -1) && v.is_frozen() == (slope == 0), "slope flags of " << v.str());
        CHECK((i64)v.y_intercept() == val - slope * t, "intercept " << v.y_intercept());
        if (slope == 1) {
            CHECK((i64)v.time_of_x_intercept() == t - val && (i64)v.time_of_x_intercept_for_growing() == t - val, "zero crossing");
            CHECK((i64)v.get_growing_distance_at_time((T)t) == val, "growing distance");
        }
        if (slope == -1) {
            CHECK((i64)v.time_of_x_intercept() == t + val && (i64)v.time_of_x_intercept_for_shrinking() == t + val, "zero crossing");
            CHECK((i64)v.get_shrinking_distance_at_time((T)t) == val, "shrinking distance");
        }
        if (slope == 0) {
            bool threw = false;
            try { v.time_of_x_intercept(); } catch (const std::invalid_argument &) { threw = true; }
            CHECK(threw, "frozen value has a zero crossing");
        }
        // Collision with another growing or frozen value over a gap of even parity.
        if (slope >= 0) {
            i64 oval = (i64)g.choice((uint64_t)1 << (bits - 2));
            int osl = slope == 0 ? 1 : (int)g.choice(2);
            i64 w = val + oval + 2 * (i64)g.choice((uint64_t)1 << (bits - 2));
            pm::Varying<T> ov = osl ? pm::Varying<T>::growing_value_at_time((T)oval, (T)t) : pm::Varying<T>::frozen((T)oval);
            i64 wait = (w - val - oval) / (slope + osl);
            i64 got = (i64)v.time_of_x_intercept_when_added_to(ov - (T)w);
            CHECK(got == t + wait, "collision at " << got << ", expected " << t + wait);
            CHECK(v.colliding_with(ov), "approaching values not colliding");
            if (slope + osl == 1) CHECK((i64)v.time_of_x_intercept_when_added_to_giving_unit_slope(ov - (T)w) == t + wait, "unit-slope collision");
        } else {
            CHECK(!v.colliding_with(pm::Varying<T>::growing_value_at_time((T)5, (T)t)), "shrinking value collides");
        }
        if (s == steps) break;
        switch (g.choice(5)) {
            case 0: { i64 off = any(16); c.desc << " +" << off; if (g.chance(1, 2)) v = v + (T)off; else v += (T)off; val += off; break; }
            case 1: { i64 off = any(16); c.desc << " -" << off; if (g.chance(1, 2)) v = v - (T)off; else v -= (T)off; val -= off; break; }
            default: {
                i64 dt = (i64)g.choice((uint64_t)1 << g.choice(16));
                t += dt;
                val += slope * dt;
                int ns = (int)g.choice(3) - 1;
                c.desc << " at " << t << " slope " << ns;
                v = ns == 1 ? v.then_growing_at_time((T)t) : ns == -1 ? v.then_shrinking_at_time((T)t) : v.then_frozen_at_time((T)t);
                slope = ns;
            }
        }
    }
    c.nontrivial = true;
    if (c.want_labels) c.label("slope history");
}
void pbt::property(Gen &g, Ctx &c) {
    switch (g.choice(6)) {
        case 0: cyc<uint8_t>(g, c); break;
        case 1: cyc<uint16_t>(g, c); break;
        case 2: cyc<uint32_t>(g, c); break;
        case 3: vary<int32_t>(g, c); break;
        default: vary<int64_t>(g, c);
    }
}
