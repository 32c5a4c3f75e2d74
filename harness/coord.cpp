// C01, C02: Coordinate
#include "sx.h"
#include "types/coordinate/coordinate.hpp"
#include <cmath>
static const int64_t HALF = 180000000, PER = 360000001, MAXLON = HALF + PER, MAXLAT = 90000000;

static Coordinate anyCoord(const char *a, const char *b, int64_t ml, int64_t mb) {
    return Coordinate((int32_t)sx_int(a, -ml, ml), (int32_t)sx_int(b, -mb, mb));
}
static int64_t lon(const Coordinate &c) { return c.get_longitude_microdegrees(); }
static int64_t lat(const Coordinate &c) { return c.get_latitude_microdegrees(); }

// exactness of the vector operations
extern "C" void c02_arith() {
    int64_t x = sx_int("x", -MAXLON, MAXLON), y = sx_int("y", -MAXLAT, MAXLAT), z = sx_int("z", -MAXLON, MAXLON), w = sx_int("w", -MAXLAT, MAXLAT);
    Coordinate a((int32_t)x, (int32_t)y), b((int32_t)z, (int32_t)w);
    sx_assert(lon(a) == x && lat(a) == y, "constructor keeps microdegrees");
    sx_assert(a.get_longitude_microdegrees_long() == x && a.get_latitude_microdegrees_long() == y, "long getters");
    Coordinate s = a + b, d = a - b, n = -a;
    sx_assert(lon(s) == x + z && lat(s) == y + w, "sum is exact");
    sx_assert(lon(d) == x - z && lat(d) == y - w, "difference is exact");
    sx_assert(lon(n) == -x && lat(n) == -y, "negation is exact");
    bool eq = a == b, ne = a != b;
    sx_assert(eq == (x == z && y == w), "equality is equality of both components");
    sx_assert(ne == !eq, "inequality is the negation of equality");
    sx_out("slon", lon(s)); sx_out("slat", lat(s)); sx_out("dlon", lon(d)); sx_out("dlat", lat(d)); sx_out("eq", eq);
    sx_reach("end");
}
extern "C" void c02_products() {
    // differences of positions on the map and its copies
    int64_t x = sx_int("x", -2 * MAXLON, 2 * MAXLON), y = sx_int("y", -2 * MAXLAT, 2 * MAXLAT), z = sx_int("z", -2 * MAXLON, 2 * MAXLON), w = sx_int("w", -2 * MAXLAT, 2 * MAXLAT);
    Coordinate a((int32_t)x, (int32_t)y), b((int32_t)z, (int32_t)w);
    sx_i128 X = x, Y = y, Zz = z, W = w;
    sx_assert((sx_i128)a.dot_product_microdegrees(b) == X * Zz + Y * W, "dot product is exact");
    sx_assert((sx_i128)a.cross_product_magnitude_microdegrees(b) == X * W - Zz * Y, "cross product is exact");
    sx_assert((sx_i128)a.magnitude_squared_microdegrees() == X * X + Y * Y, "squared magnitude is exact");
    sx_out("dot", a.dot_product_microdegrees(b)); sx_out("cross", a.cross_product_magnitude_microdegrees(b)); sx_out("mag", a.magnitude_squared_microdegrees());
    sx_reach("end");
}
extern "C" void c02_hash() {
    sx_cfg("real_hash", 1);
    int64_t x = sx_int("x", -MAXLON, MAXLON), y = sx_int("y", -MAXLAT, MAXLAT), z = sx_int("z", -MAXLON, MAXLON), w = sx_int("w", -MAXLAT, MAXLAT);
    Coordinate a((int32_t)x, (int32_t)y), b((int32_t)z, (int32_t)w);
    if (a == b) sx_assert(std::hash<Coordinate>()(a) == std::hash<Coordinate>()(b), "equal coordinates have equal hashes");
    sx_reach("end");
}
// multiplication by k * 2^-30, |k * 2^-30| <= 4
extern "C" void c02_scale() {
    int64_t x = sx_int("x", -500000000, 500000000), y = sx_int("y", -2 * MAXLAT, 2 * MAXLAT);
    int64_t one = 1ll << 30;
    double s = sx_dyadic("s", -4 * one, 4 * one, 30);
    int64_t k = (int64_t)(s * one);
    Coordinate a((int32_t)x, (int32_t)y);
    Coordinate m = a * s;
    // |2 m 2^30 - 2 x k| <= 2^30 (1 + tiny)
    sx_i128 ex = 2 * ((sx_i128)lon(m) * one - (sx_i128)x * k), ey = 2 * ((sx_i128)lat(m) * one - (sx_i128)y * k);
    sx_i128 lim = one + one / 1000;
    sx_assert(ex <= lim && -ex <= lim, "scaled longitude is rounded to half a microdegree");
    sx_assert(ey <= lim && -ey <= lim, "scaled latitude is rounded to half a microdegree");
    sx_out("mlon", lon(m)); sx_out("mlat", lat(m));
    sx_reach("end");
}
// C01
extern "C" void c01_roundtrip() {
    int64_t x = sx_int("x", -MAXLON, MAXLON), y = sx_int("y", -MAXLAT, MAXLAT);
    Coordinate a((int32_t)x, (int32_t)y);
    Coordinate b(a.get_longitude(), a.get_latitude());
    sx_out("lon", lon(b)); sx_out("lat", lat(b));
    // known finding: the conversion truncates, which can lose one microdegree towards zero; anything else is a violation
    int64_t tx = (int32_t)(1e6 * (1e-6 * (double)x)), ty = (int32_t)(1e6 * (1e-6 * (double)y));
    sx_assert(lon(b) == x || (lon(b) == tx && tx - x <= 1 && x - tx <= 1), "longitude read as degrees and built again is the same, truncation of the last microdegree aside");
    sx_assert(lat(b) == y || (lat(b) == ty && ty - y <= 1 && y - ty <= 1), "latitude read as degrees and built again is the same, truncation of the last microdegree aside");
    sx_reach("mid");
    sx_assert(lon(b) == x, "longitude read as degrees and built again loses the last microdegree to truncation");
    sx_assert(lat(b) == y, "latitude read as degrees and built again loses the last microdegree to truncation");
    sx_reach("end");
}
extern "C" void c01_degrees() {
    // degrees k * 2^-26: finer than a microdegree, within the map and its copies
    const int64_t one = 1ll << 26;
    double dx = sx_dyadic("dx", -541 * one, 541 * one, 26), dy = sx_dyadic("dy", -90 * one, 90 * one, 26);
    int64_t kx = (int64_t)(dx * one), ky = (int64_t)(dy * one);
    Coordinate a(dx, dy);
    sx_out("lon", lon(a)); sx_out("lat", lat(a));
    sx_i128 ex = (sx_i128)lon(a) * one - (sx_i128)kx * 1000000, ey = (sx_i128)lat(a) * one - (sx_i128)ky * 1000000;
    sx_i128 lim = one + 64;
    sx_assert(ex <= lim && -ex <= lim, "longitude is stored to within a microdegree");
    sx_assert(ey <= lim && -ey <= lim, "latitude is stored to within a microdegree");
    sx_reach("end");
}
