// C15: memory archives. Whatever is written is read back; an archive that runs out of data or space fails, stays failed and touches nothing else.
#include "vc.hpp"
#include <cstring>
#include <cstdlib>
#include <edyn/serialization/memory_archive.hpp>
#include <edyn/serialization/math_s11n.hpp>
#include <edyn/serialization/s11n_util.hpp>
#include <edyn/math/coordinate_axis.hpp>

enum class hue : uint8_t { red, green, blue = 200 };
namespace edyn { template<typename A> void serialize(A &a, hue &h) { serialize_enum(a, h); } }

static uint64_t big(const char *n) { return vc_int(n, 0, UINT64_MAX); }

struct sample {
    bool b; char c; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; scalar s; double d; vector3 v;
};
static sample any_sample() {
    sample x;
    x.b = vc_bool("b"); x.c = char(vc_int("c", 0, 127)); x.u8 = uint8_t(vc_int("u8", 0, 255));
    x.i16 = int16_t(vc_int("i16", 0, 32767)); x.u16 = uint16_t(vc_int("u16", 0, 65535));
    x.i32 = int32_t(vc_int("i32", 0, INT32_MAX)); x.u32 = uint32_t(vc_int("u32", 0, UINT32_MAX));
    x.i64 = int64_t(vc_int("i64", 0, INT64_MAX)); x.u64 = big("u64");
    x.s = any("s"); x.d = any("d"); x.v = any_vec3("v");
    return x;
}
template<typename A> void run(A &a, sample &x) { a(x.b, x.c, x.u8, x.i16); a(x.u16); a(x.i32, x.u32); a(x.i64, x.u64); a(x.s); a(x.d, x.v); }
constexpr size_t sample_size = 1 + 1 + 1 + 2 + 2 + 4 + 4 + 8 + 8 + sizeof(scalar) + sizeof(double) + 3 * sizeof(scalar);

VC_CONTRACT(round_trip) {
    auto x = any_sample();
    std::vector<uint8_t> buf;
    auto out = memory_output_archive(buf);
    run(out, x);
    vc_cover("written");
    vc_check(buf.size() == sample_size, "every value takes exactly its size");
    auto in = memory_input_archive(buf.data(), buf.size());
    vc_check(!in.eof(), "not at the end before reading");
    sample y {};
    run(in, y);
    vc_check(!in.failed(), "reading what was written does not fail");
    vc_check(in.eof(), "everything is consumed");
    vc_check(x.b == y.b, "bool read back"); vc_check(x.c == y.c, "char read back"); vc_check(x.u8 == y.u8, "uint8 read back");
    vc_check(x.i16 == y.i16, "int16 read back"); vc_check(x.u16 == y.u16, "uint16 read back"); vc_check(x.i32 == y.i32, "int32 read back");
    vc_check(x.u32 == y.u32, "uint32 read back"); vc_check(x.i64 == y.i64, "int64 read back"); vc_check(x.u64 == y.u64, "uint64 read back");
    vc_check(x.s == y.s, "scalar read back"); vc_check(x.d == y.d, "double read back"); vc_check(eq3(x.v, y.v), "vector3 read back");
}

// reading beyond the end fails, stays failed, leaves the targets alone and never reads outside of the buffer
VC_CONTRACT(truncated_input) {
    uint32_t a = uint32_t(vc_int("a", 0, UINT32_MAX)); uint16_t b = uint16_t(vc_int("b", 0, 65535)); uint64_t c = big("c"); uint8_t d = uint8_t(vc_int("d", 0, 255));
    std::vector<uint8_t> buf;
    auto out = memory_output_archive(buf);
    out(a, b, c, d);
    vc_check(buf.size() == 15, "size of the written data");
    vc_cover("cut");
    for (size_t n = 0; n <= 15; ++n) {
    auto *cut = static_cast<uint8_t *>(std::malloc(n + (n == 0)));
    std::memcpy(cut, buf.data(), n);
    auto in = memory_input_archive(cut, n);
    uint32_t ra = 1; uint16_t rb = 2; uint64_t rc = 3; uint8_t rd = 4;
    in(ra);
    vc_check(in.failed() == (n < 4), "first read fails exactly when it does not fit");
    vc_check(ra == (n < 4 ? 1 : a), "first value or untouched");
    in(rb);
    vc_check(in.failed() == (n < 6), "second read fails exactly when it does not fit");
    vc_check(rb == (n < 6 ? 2 : b), "second value or untouched");
    in(rc);
    vc_check(in.failed() == (n < 14), "third read fails exactly when it does not fit");
    vc_check(rc == (n < 14 ? 3 : c), "third value or untouched");
    in(rd);
    vc_check(in.failed() == (n < 15), "a failed archive stays failed even if the next value would fit");
    vc_check(rd == (n < 15 ? 4 : d), "fourth value or untouched");
    vc_check(vc_implies(!in.failed(), in.eof()), "eof exactly at the end");
    vc_check(vc_implies(in.failed() && n != 0 && n != 4 && n != 6 && n != 14, !in.eof()), "a failed read does not consume");
    std::free(cut);
    }
}

// the fixed size archive writes the same bytes as the growing one, fails exactly when they do not fit and never writes past the end
VC_CONTRACT(fixed_output) {
    uint16_t a = uint16_t(vc_int("a", 0, 65535)); uint64_t b = big("b"); uint8_t c = uint8_t(vc_int("c", 0, 255));
    vc_cover("open");
    for (size_t n = 0; n <= 12; ++n) {
    auto *mem = static_cast<uint8_t *>(std::malloc(n + (n == 0)));
    for (size_t i = 0; i < n; ++i) mem[i] = 0x5a;
    auto out = fixed_memory_output_archive(mem, n);
    vc_check(!out.failed(), "starts without failure");
    out(a);
    vc_check(out.failed() == (n < 2), "first write fails exactly when it does not fit");
    out(b);
    vc_check(out.failed() == (n < 10), "second write fails exactly when it does not fit");
    out(c);
    vc_check(out.failed() == (n < 11), "a failed archive stays failed even if the next value would fit");
    size_t used = n >= 11 ? 11 : n >= 10 ? 10 : n >= 2 ? 2 : 0;
    auto in = memory_input_archive(mem, used);
    uint16_t ra = 0; uint64_t rb = 0; uint8_t rc = 0;
    if (used >= 2) { in(ra); vc_check(ra == a, "first value stored"); }
    if (used >= 10) { in(rb); vc_check(rb == b, "second value stored"); }
    if (used >= 11) { in(rc); vc_check(rc == c, "third value stored"); }
    vc_check(!in.failed() && in.eof(), "stored values take exactly their size");
    for (size_t i = used; i < n; ++i) vc_check(mem[i] == 0x5a, "bytes past the written values are untouched");
    std::free(mem);
    }
}

VC_CONTRACT(fixed_same_bytes) {
    auto x = any_sample();
    std::vector<uint8_t> buf;
    auto grow = memory_output_archive(buf);
    run(grow, x);
    uint8_t mem[sample_size];
    auto out = fixed_memory_output_archive(mem, sizeof mem);
    run(out, x);
    vc_cover("written");
    vc_check(!out.failed(), "fits");
    auto in = memory_input_archive(mem, sizeof mem);
    auto in2 = memory_input_archive(buf.data(), buf.size());
    sample y {}, z {};
    run(in, y); run(in2, z);
    vc_check(in.eof() && in2.eof(), "same length");
    vc_check(y.b == z.b && y.c == z.c && y.u8 == z.u8, "same bytes"); vc_check(y.i16 == z.i16 && y.u16 == z.u16, "same 16 bit values");
    vc_check(y.i32 == z.i32 && y.u32 == z.u32, "same 32 bit values"); vc_check(y.i64 == z.i64 && y.u64 == z.u64, "same 64 bit values");
    vc_check(y.s == z.s && y.d == z.d && eq3(y.v, z.v), "same floating point values");
    vc_check(y.u32 == x.u32 && y.u64 == x.u64 && y.s == x.s, "same as the original");
}

// a growing archive appends to what the buffer already holds; const objects can be written
VC_CONTRACT(appends) {
    const uint32_t a = uint32_t(vc_int("a", 0, UINT32_MAX)), b = uint32_t(vc_int("b", 0, UINT32_MAX));
    const vector3 v = any_vec3("v");
    std::vector<uint8_t> buf;
    { auto out = memory_output_archive(buf); out(a); out(v); }
    { auto out = memory_output_archive(buf); out(b); }
    vc_cover("written");
    auto in = memory_input_archive(buf.data(), buf.size());
    uint32_t ra = 0, rb = 0; vector3 rv {};
    in(ra, rv, rb);
    vc_check(!in.failed() && in.eof(), "sizes add up");
    vc_check(ra == a && rb == b, "integers");
    vc_check(eq3(v, rv), "vector");
}

VC_CONTRACT(math_types) {
    vector3 v = any_vec3("v"); quaternion q = any_raw_quat("q"); matrix3x3 m;
    for (int i = 0; i < 3; ++i) m.row[i] = any_vec3(i == 0 ? "m0" : i == 1 ? "m1" : "m2");
    std::vector<uint8_t> buf;
    auto out = memory_output_archive(buf);
    out(v, q);
    vc_cover("written");
    auto in = memory_input_archive(buf.data(), buf.size());
    vector3 rv {}; quaternion rq {};
    in(rv, rq);
    vc_check(!in.failed() && in.eof(), "everything is consumed");
    vc_check(eq3(v, rv), "vector3");
    vc_check(all(vc_eq(q.x, rq.x), vc_eq(q.y, rq.y), vc_eq(q.z, rq.z), vc_eq(q.w, rq.w)), "quaternion");
}

VC_CONTRACT(enums_and_pointers) {
    auto h = hue(vc_int("h", 0, 255)), h2 = hue::red;
    auto ax = coordinate_axis(vc_int("ax", 0, 2)), ax2 = coordinate_axis::x;
    int x = 0; int *p = vc_bool("null") ? nullptr : &x, *p2 = &x;
    std::vector<uint8_t> buf;
    auto out = memory_output_archive(buf);
    out(h, ax);
    serialize_pointer(out, &p);
    vc_cover("written");
    vc_check(buf.size() == sizeof(h) + sizeof(ax) + sizeof(p), "enums take the size of their underlying type");
    auto in = memory_input_archive(buf.data(), buf.size());
    in(h2, ax2);
    serialize_pointer(in, &p2);
    vc_check(!in.failed() && in.eof(), "everything is consumed");
    vc_check(h == h2, "enum read back"); vc_check(ax == ax2, "axis read back"); vc_check(p == p2, "pointer read back");
}
