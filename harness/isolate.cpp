// G01: what one instance computes depends only on how it was set up and fed:
// not on the bytes its memory held before, not on other instances used in
// between, and not on other threads using other instances at the same time.
#include "fis_ref.hpp"
#include <iostream>
#include <thread>
#include <atomic>
#include <sstream>
#include <include/tdl.hpp>
#include <include/crc.hpp>
#include <include/bitfield.hpp>
#include <include/smoother.hpp>
#include <include/rms.hpp>
#include <include/ltisys.hpp>
#include <include/pid.hpp>
#include <include/interp1.hpp>
#include <include/fp16.hpp>
#include <include/ffmath.hpp>
#include <include/algorithm.hpp>
#include <include/mat.hpp>
#if defined(BUILD_MSAN)
#include <sanitizer/msan_interface.h>
#endif
using namespace vh;
using namespace qlibs;
// what was observed; under MSan every value must be initialised
struct Obs : std::vector<float> { 
    static void init(float x) {
#if defined(BUILD_MSAN)
        __msan_check_mem_is_initialized(&x, sizeof x);
#endif
    }
    void add(float x) { init(x); std::vector<float>::push_back(x); }
    void add(const float *a, size_t n) { for (size_t i = 0; i < n; ++i) add(a[i]); } };
typedef std::function<void(Obs &)> Step;   // one operation: appends what it observed
// memory of exactly n elements holding arbitrary previous bytes (uninitialised under MSan)
template <class T> static std::shared_ptr<T> mem(size_t n, unsigned char fill) { T *p = (T *)malloc(n * sizeof(T)); 
#if !defined(BUILD_MSAN)
    std::memset((void *)p, fill, n * sizeof(T));
#endif
    return std::shared_ptr<T>(p, [](T *q) { free((void *)q); }); }
template <class T> static std::shared_ptr<T> obj(unsigned char fill) { void *p = aligned_alloc(64, (sizeof(T) + 63) / 64 * 64);
#if !defined(BUILD_MSAN)
    std::memset(p, fill, sizeof(T));
#endif
    return std::shared_ptr<T>(new (p) T(), [](T *q) { q->~T(); free((void *)q); }); }
typedef std::shared_ptr<Rng> PR;
static float in(PR &r) { return r->f(-5, 5); }
template <class S, class Setup> static Step smoothProg(PR r, unsigned char fill, Setup set) { auto o = obj<S>(fill); auto keep = set(*o); auto n = std::make_shared<int>(0); return [=](Obs &v) mutable { v.add(o->smooth(in(r))); if (++*n % 37 == 0) o->reset(); (void)keep; }; }
// every ffmath function and every CRC preset, by number
static const float POLX[] = {0, 4, 3, -2, -4}, POLY[] = {-4, -1, 3, 4, 0};
static const size_t NFF = 87;
static float ffAny(size_t k, float a, float b, float c, float u, size_t n, size_t m) { (void)m; switch (k) { case 0: return (float)(ffmath::sign(a)); case 1: return (float)(ffmath::absf(a)); case 2: return (float)(ffmath::recip(a)); case 3: return (float)(ffmath::sqrt(a)); case 4: return (float)(ffmath::rSqrt(a)); case 5: return (float)(ffmath::cbrt(a)); case 6: return (float)(ffmath::rCbrt(a)); case 7: return (float)(ffmath::rounding(a)); case 8: return (float)(ffmath::floor(a)); case 9: return (float)(ffmath::ceil(a)); case 10: return (float)(ffmath::trunc(a)); case 11: return (float)(ffmath::frac(a)); case 12: return (float)(ffmath::sin(a)); case 13: return (float)(ffmath::cos(a)); case 14: return (float)(ffmath::tan(a)); case 15: return (float)(ffmath::atan(a)); case 16: return (float)(ffmath::exp2(a)); case 17: return (float)(ffmath::exp(a)); case 18: return (float)(ffmath::expm1(a)); case 19: return (float)(ffmath::sinh(a)); case 20: return (float)(ffmath::cosh(a)); case 21: return (float)(ffmath::tanh(a)); case 22: return (float)(ffmath::asinh(a)); case 23: return (float)(ffmath::wrapToPi(a)); case 24: return (float)(ffmath::wrapTo2Pi(a)); case 25: return (float)(ffmath::wrapTo180(a)); case 26: return (float)(ffmath::wrapTo360(a)); case 27: return (float)(ffmath::erf(a)); case 28: return (float)(ffmath::erfc(a)); case 29: return (float)(ffmath::tgamma(a)); case 30: return (float)(ffmath::lgamma(a)); case 31: return (float)(ffmath::expint(a)); case 32: return (float)(ffmath::log2(b)); case 33: return (float)(ffmath::log(b)); case 34: return (float)(ffmath::log1p(b)); case 35: return (float)(ffmath::log10(b)); case 36: return (float)(ffmath::acosh(b + 1)); case 37: return (float)(ffmath::factorial(b)); case 38: return (float)(ffmath::riemann_zeta(b + 1)); case 39: return (float)(ffmath::asin(u)); case 40: return (float)(ffmath::acos(u)); case 41: return (float)(ffmath::atanh(u)); case 42: return (float)(ffmath::comp_ellint_1(u)); case 43: return (float)(ffmath::comp_ellint_2(u)); case 44: return (float)(ffmath::isEqual(a, c)); case 45: return (float)(ffmath::getInf()); case 46: return (float)(ffmath::getNan()); case 47: return (float)(ffmath::isNan(a) + 2 * ffmath::isInf(a) + 4 * ffmath::isFinite(a) + 8 * ffmath::isNormal(a)); case 48: return (float)(ffmath::copysign(a, c)); case 49: return (float)(ffmath::rem(a, c)); case 50: return (float)(ffmath::mod(a, c)); case 51: return (float)(ffmath::atan2(a, c)); case 52: return (float)(ffmath::exp10(c)); case 53: return (float)(ffmath::pow(b, c)); case 54: return (float)(ffmath::midpoint(a, c)); case 55: return (float)(ffmath::lerp(a, c, u)); case 56: return (float)(ffmath::map(a, -5, 5, c, u)); case 57: return (float)(ffmath::normalize(a, -6, 6)); case 58: return (float)((ffmath::inRangeCoerce(a, u, u + 1) ? 100 : 0) + a); case 59: return (float)(ffmath::inPolygon(a, c, POLX, POLY, 5)); case 60: return (float)(ffmath::inCircle(a, c, u, u, 3)); case 61: return (float)([&] { int32_t e = 0; float q = ffmath::rexp(a, &e); return q + (float)e; }()); case 62: return (float)(ffmath::ldexp(a, (int32_t)n - 4)); case 63: return (float)(ffmath::hypot(a, c)); case 64: return (float)(ffmath::nextAfter(a, c)); case 65: return (float)(ffmath::beta(b, 1 + std::fabs(c))); case 66: return (float)(ffmath::comp_ellint_3(u, .5f * u)); case 67: return (float)(ffmath::ellint_1(u, c)); case 68: return (float)(ffmath::ellint_2(u, c)); case 69: return (float)(ffmath::ellint_3(u, .5f * u, c)); case 70: return (float)(ffmath::hermite(n, c)); case 71: return (float)(ffmath::laguerre(n, b)); case 72: return (float)(ffmath::legendre(n, u)); case 73: return (float)(ffmath::sph_bessel(n, b)); case 74: return (float)(ffmath::sph_neumann(n, b)); case 75: return (float)(ffmath::cyl_bessel_i(.5f * (float)n, b)); case 76: return (float)(ffmath::cyl_bessel_j(.5f * (float)n, b)); case 77: return (float)(ffmath::cyl_bessel_k(.5f * (float)n, b)); case 78: return (float)(ffmath::cyl_neumann(.5f * (float)n, b)); case 79: return (float)(ffmath::sph_legendre(n, m, c)); case 80: return (float)(ffmath::assoc_laguerre(n, m, b)); case 81: return (float)(ffmath::assoc_legendre(n, m, u)); case 82: return (float)(ffmath::riemann_zeta(a)); case 83: return (float)(ffmath::cyl_bessel_j(.5f * (float)n, 1500 + 10 * b)); case 84: return (float)(ffmath::cyl_neumann(.5f * (float)n, 1500 + 10 * b)); case 85: return (float)(ffmath::expint(-100 - b)); case 86: return (float)(ffmath::assoc_laguerre(20000000 + n, m, b)); default: return 0; } }
static const size_t NCRC = 42;
static uint32_t crcAny(size_t k, const uint8_t *d, size_t n) { switch (k) { case 0: return crc::crc8(d, n); case 1: return crc::crc8_CDMA2000(d, n); case 2: return crc::crc8_DARC(d, n); case 3: return crc::crc8_DVS_S2(d, n); case 4: return crc::crc8_EBU(d, n); case 5: return crc::crc8_I_CODE(d, n); case 6: return crc::crc8_ITU(d, n); case 7: return crc::crc8_MAXIM(d, n); case 8: return crc::crc8_ROHC(d, n); case 9: return crc::crc8_WCDMA(d, n); case 10: return crc::crc16_CCITT_FALSE(d, n); case 11: return crc::crc16_ARC(d, n); case 12: return crc::crc16_AUG_CCITT(d, n); case 13: return crc::crc16_BUYPASS(d, n); case 14: return crc::crc16_CDMA2000(d, n); case 15: return crc::crc16_DDS_110(d, n); case 16: return crc::crc16_DECT_R(d, n); case 17: return crc::crc16_DECT_X(d, n); case 18: return crc::crc16_DNP(d, n); case 19: return crc::crc16_EN_13757(d, n); case 20: return crc::crc16_GENIBUS(d, n); case 21: return crc::crc16_MAXIM(d, n); case 22: return crc::crc16_MCRF4XX(d, n); case 23: return crc::crc16_RIELLO(d, n); case 24: return crc::crc16_T10_DIF(d, n); case 25: return crc::crc16_TELEDISK(d, n); case 26: return crc::crc16_TMS37157(d, n); case 27: return crc::crc16_USB(d, n); case 28: return crc::crc16_A(d, n); case 29: return crc::crc16_KERMIT(d, n); case 30: return crc::crc16_MODBUS(d, n); case 31: return crc::crc16_X_25(d, n); case 32: return crc::crc16_XMODEM(d, n); case 33: return crc::crc32(d, n); case 34: return crc::crc32_BZIP2(d, n); case 35: return crc::crc32_C(d, n); case 36: return crc::crc32_D(d, n); case 37: return crc::crc32_JAMCRC(d, n); case 38: return crc::crc32_MPEG2(d, n); case 39: return crc::crc32_POSIX(d, n); case 40: return crc::crc32_Q(d, n); case 41: return crc::crc32_XFER(d, n); default: return 0; } }
// (the C++ standard library is not instrumented for MSan)
static void shown(fp16 &a, Obs &v) {
#if !defined(BUILD_MSAN)
    std::ostringstream os; os.precision(4); os << a; for (char ch : os.str()) v.add(ch);
#else
    v.add((float)a.raw());
#endif
}
typedef Step (*Maker)(PR, unsigned char);
struct Kind { const char *n; Maker mk; };
static const Kind K[] = {
    {"tdl", [](PR r, unsigned char f) -> Step { size_t n = 1 + r->below(9); auto w = mem<float>(n, f); auto o = obj<tdl>(f); o->setup(w.get(), n, in(r)); return [=](Obs &v) mutable { (*o)(in(r)); v.add(o->getOldest()); v.add(o->getRecent()); v.add(o->getAtIndex(r->below(n))); v.add((*o)[(int)r->below(n)]); if (r->chance(.02)) o->flush(in(r)); (void)w; }; }},
    {"LPF1", [](PR r, unsigned char f) -> Step { return smoothProg<smootherLPF1>(r, f, [=](smootherLPF1 &o) { o.setup(r->f(.1, .9)); return 0; }); }},
    {"LPF2", [](PR r, unsigned char f) -> Step { return smoothProg<smootherLPF2>(r, f, [=](smootherLPF2 &o) { o.setup(r->f(.1, .9)); return 0; }); }},
    {"MWM1", [](PR r, unsigned char f) -> Step { return smoothProg<smootherMWM1>(r, f, [=](smootherMWM1 &o) { size_t n = 2 + r->below(7); auto w = mem<float>(n, f); o.setup(w.get(), n); return w; }); }},
    {"MWM2", [](PR r, unsigned char f) -> Step { return smoothProg<smootherMWM2>(r, f, [=](smootherMWM2 &o) { size_t n = 2 + r->below(7); auto w = mem<float>(n, f); o.setup(w.get(), n); return w; }); }},
    {"MOR1", [](PR r, unsigned char f) -> Step { return smoothProg<smootherMOR1>(r, f, [=](smootherMOR1 &o) { size_t n = 2 + r->below(7); auto w = mem<float>(n, f); o.setup(w.get(), n, r->f(.1, .9)); return w; }); }},
    {"MOR2", [](PR r, unsigned char f) -> Step { return smoothProg<smootherMOR2>(r, f, [=](smootherMOR2 &o) { size_t n = 2 + r->below(7); auto w = mem<float>(n, f); o.setup(w.get(), n, r->f(.1, .9)); return w; }); }},
    {"GMWF", [](PR r, unsigned char f) -> Step { return smoothProg<smootherGMWF>(r, f, [=](smootherGMWF &o) { size_t n = 3 + r->below(7); auto w = mem<float>(2 * n, f); o.setup(r->f(.5, 3), r->f(0, (double)n), w.get(), w.get() + n, n); return w; }); }},
    {"EXPW", [](PR r, unsigned char f) -> Step { return smoothProg<smootherEXPW>(r, f, [=](smootherEXPW &o) { o.setup(r->f(.1, .9)); return 0; }); }},
    {"KLMN", [](PR r, unsigned char f) -> Step { return smoothProg<smootherKLMN>(r, f, [=](smootherKLMN &o) { o.setup(r->f(.01, 2), r->f(.01, 2), r->f(.1, 50)); return 0; }); }},
    {"DESF", [](PR r, unsigned char f) -> Step { return smoothProg<smootherDESF>(r, f, [=](smootherDESF &o) { o.setup(r->f(.1, .9), r->f(.1, .9), r->below(4)); return 0; }); }},
    {"ALNF", [](PR r, unsigned char f) -> Step { return smoothProg<smootherALNF>(r, f, [=](smootherALNF &o) { size_t n = 2 + r->below(7); auto w = mem<float>(3 * n, f); if (r->chance(.5)) o.setup(r->f(.01, .5), r->f(.1, .8), n, w.get(), w.get() + n, w.get() + 2 * n); else o.setup(r->f(.01, .5), 0.f, n, w.get(), w.get() + n); return w; }); }},
    {"rms", [](PR r, unsigned char f) -> Step { size_t n = 2 + r->below(9); auto w = mem<float>(n, f); auto o = obj<rms>(f); o->setup(w.get(), n); if (r->chance(.5)) o->setParams(r->f(.1, .99), r->f(.1, .99)); return [=](Obs &v) mutable { v.add(o->update(in(r))); (void)w; }; }},
    {"nState", [](PR r, unsigned char f) -> Step { auto o = obj<nState>(f); if (r->chance(.5)) o->init(in(r), in(r), in(r)); o->setIntegrationMethod((integrationMethod)r->below(4)); o->setDerivationMethod((derivationMethod)r->below(3)); bool d = r->chance(.5); return [=](Obs &v) mutable { v.add(d ? o->derive(in(r), .1f, r->chance(.8)) : o->integrate(in(r), .1f, r->chance(.8))); v.add((*o)()); }; }},
    {"discreteSystem", [](PR r, unsigned char f) -> Step { auto w = mem<float>(16, f); float *p = w.get(); p[0] = r->f(.2, 1); p[1] = in(r); p[2] = r->f(1, 2); p[3] = r->f(-.4, .4); p[4] = r->f(-.2, .2); auto o = std::make_shared<discreteSystem>(p, p + 2, p + 5, 2, 3); o->setInitStates(); if (r->chance(.5)) o->setDelay(p + 9, 4, in(r)); o->setSaturation(-50, 50); return [=](Obs &v) mutable { v.add(o->excite(in(r))); (void)w; }; }},
    {"continuousSystem", [](PR r, unsigned char f) -> Step { auto w = mem<float>(12, f); float *p = w.get(); p[0] = 0; p[1] = r->f(.5, 2); p[2] = in(r); p[3] = 1; p[4] = r->f(1, 3); p[5] = r->f(1, 3); struct St { nState x[2]; }; auto s = obj<St>(f); auto o = std::make_shared<continuousSystem>(p, p + 3, s->x, 2, .01f); o->setInitStates(); o->setIntegrationMethod((integrationMethod)r->below(3)); if (r->chance(.5)) o->setDelay(p + 6, 5, in(r)); return [=](Obs &v) mutable { v.add(o->excite(in(r))); (void)w; (void)s; }; }},
    {"pidController", [](PR r, unsigned char f) -> Step { auto o = obj<pidController>(f); auto at = obj<pidAutoTuning>(f); auto ref = mem<float>(1, f); *ref = in(r); o->setup(r->f(.1, 2), r->f(.1, 2), r->f(0, .5), .1f); o->setSaturation(-10, 10); if (r->chance(.3)) o->setSeries(); if (r->chance(.3)) o->setDerivativeFilter(r->f(.1, .9)); if (r->chance(.4)) { o->bindAutoTuning(*at); o->enableAutoTuning(40); } if (r->chance(.3)) o->setModelReferenceControl(*ref, .1f, .01f); auto y = std::make_shared<float>(0.f); return [=](Obs &v) mutable { float u = o->control(in(r), *y); *y = .8f * *y + .1f * u; *ref = .9f * *ref; v.add(u); auto g = o->getGains(); v.add(g.Kc); v.add(g.Ki); v.add(g.Kd); if (r->chance(.01)) o->reset(); if (r->chance(.02)) { o->setManualInput(in(r)); o->setMode(r->chance(.5) ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC); } (void)at; }; }},
    {"fis", [](PR r, unsigned char f) -> Step { auto W = std::make_shared<World>(anyWorld(*r, (fs::type)r->below(3))); auto L = std::make_shared<Live>(*W, f); return [=](Obs &v) mutable { std::vector<float> x; for (int i = 0; i < W->ni; ++i) x.push_back(r->f(W->imin[(size_t)i], W->imax[(size_t)i])); for (int i = 0; i < W->ni; ++i) L->s.setInput((fs::tag)i, x[(size_t)i]); bool ok = L->s.fuzzify() && L->s.inference() && L->s.deFuzzify(); v.add(ok); for (int i = 0; i < W->no; ++i) { float y = 0; L->s.getOutput((fs::tag)i, y); v.add(y); } }; }},
    {"interp1", [](PR r, unsigned char f) -> Step { size_t n = 4 + r->below(6); auto w = mem<float>(2 * n, f); float x = 0; for (size_t i = 0; i < n; ++i) { x += r->f(.2, 2); w.get()[i] = x; w.get()[n + i] = in(r); } auto o = std::make_shared<interp1>(w.get(), w.get() + n, n); return [=](Obs &v) mutable { o->setMethod((interp1Method)r->below(INTERP1_MAX)); v.add(o->get(r->f(w.get()[0] + .01, w.get()[n - 1] - .01))); }; }},
    {"crc", [](PR r, unsigned char) -> Step { return [=](Obs &v) mutable { uint8_t d[24]; size_t n = 1 + r->below(24); for (auto &b : d) b = (uint8_t)r->u64(); uint32_t c = crc::generic((crcMode)r->below(3), d, n, r->u32(), r->u32(), r->chance(.5), r->chance(.5), r->u32()); v.add((float)(c & 0xffff)); v.add((float)(c >> 16)); }; }},
    {"bitfield", [](PR r, unsigned char f) -> Step { auto w = mem<uint32_t>(8, f); auto o = obj<bitfield>(f); o->setup(w.get(), 32); o->clearAll(); return [=](Obs &v) mutable { size_t i = r->below(200), n = 1 + r->below(32); o->writeUINTn(i, n, r->u32()); v.add((float)(o->readUINTn(r->below(200), n) & 0xffff)); o->setBit(r->below(256)); o->toggleBit(r->below(256)); v.add(o->readBit(r->below(256))); (void)w; }; }},
    {"fp16", [](PR r, unsigned char) -> Step { return [=](Obs &v) mutable { fp16 a = fp16::from(in(r)), b = fp16::from(in(r)); fp16 t[] = {a + b, a * b, a / b, fp16::sqrt(a), fp16::exp(a), fp16::log(a), fp16::sin(a), fp16::atan2(a, b), fp16::pow(a, b), fp16::tanh(a)}; for (auto &x : t) v.add((float)x.raw()); char s[16]; fp16::toASCII(a, s, 4); v.add((float)s[1]); }; }},
    {"ffmath", [](PR r, unsigned char) -> Step { return [=](Obs &v) mutable { float a = in(r), b = std::fabs(in(r)) + .1f; float t[] = {ffmath::sin(a), ffmath::exp(a), ffmath::log(b), ffmath::tgamma(b), ffmath::lgamma(b), ffmath::cyl_bessel_j(1.5f, b), ffmath::cyl_neumann(.5f, b), ffmath::expint(a), ffmath::ellint_1(.5f, a), ffmath::comp_ellint_3(.3f, .2f), ffmath::hermite(5, a), ffmath::legendre(6, .2f * a), ffmath::sph_bessel(3, b), ffmath::riemann_zeta(20 + b), ffmath::factorial(b), ffmath::beta(b, 2), ffmath::hypot(a, b)}; v.add(t, sizeof t / sizeof *t); }; }},
    {"sort", [](PR r, unsigned char f) -> Step { return [=](Obs &v) mutable { auto w = mem<float>(48, f); auto &a = *(float(*)[48])w.get(); for (auto &x : a) x = (float)r->range(-9, 9); if (r->chance(.5)) algorithm::sort(a); else algorithm::sort(a, (size_t)0, (size_t)47, (bool (*)(const float &, const float &))[](const float &p, const float &q) { return p > q; }); algorithm::rotate(a, (int)r->range(-50, 50)); v.add(a, 48); }; }},
    {"mat", [](PR r, unsigned char f) -> Step { return [=](Obs &v) mutable { mat<3, 3> a, b; { auto raw = mem<mat<3, 3>>(4, f); mat<3, 3> *q = raw.get(); new (q) mat<3, 3>; new (q + 1) mat<3, 3>(MAT_IDENTITY, in(r)); new (q + 2) mat<3, 3>(MAT_ALL, in(r)); new (q + 3) mat<3, 3>(MAT_MAGIC); for (size_t k = 0; k < 36; ++k) v.add(q[k / 9](k % 9)); } for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) { a(i, j) = in(r); b(i, j) = in(r); } mat<3, 3> c = a * b + !a; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) v.add(c(i, j)); mat<3, 3> d = a.inv(); v.add(d(1, 2)); }; }},
    {"transportDelay", [](PR r, unsigned char f) -> Step { auto o = obj<transportDelay<7>>(f); return [=](Obs &v) mutable { v.add((*o)(in(r))); }; }},
    {"ffmath_all", [](PR r, unsigned char) -> Step { return [=](Obs &v) mutable { for (int k = 0; k < 6; ++k) { float a = r->chance(.8) ? in(r) : r->f(-90, 90), b = std::fabs(a) + .05f, c = in(r), u = r->f(-.99, .99); size_t n = r->below(r->chance(.8) ? 9 : 40), m = r->below(n + 1); v.add(ffAny(r->below(NFF), a, b, c, u, n, m)); } }; }},
    {"fp16_all", [](PR r, unsigned char) -> Step { return [=](Obs &v) mutable { for (int k = 0; k < 6; ++k) { fp16 a = fp16::from(r->chance(.8) ? in(r) : r->f(-20000, 20000)), b = fp16::from((double)in(r)), c = a; switch (r->below(36)) {
        case 0: c = fp16::floor(a); break; case 1: c = fp16::ceil(a); break; case 2: c = fp16::rounding(a); break; case 3: c = fp16::absolute(a); break; case 4: c = fp16::sqrt(a); break; case 5: c = fp16::exp(b); break; case 6: c = fp16::log(a); break; case 7: c = fp16::log2(a); break; case 8: c = fp16::radToDeg(b); break; case 9: c = fp16::degToRad(a); break; case 10: c = fp16::wrapToPi(a); break; case 11: c = fp16::wrapTo180(a); break;
        case 12: c = fp16::sin(a); break; case 13: c = fp16::cos(a); break; case 14: c = fp16::tan(a); break; case 15: c = fp16::atan2(a, b); break; case 16: c = fp16::atan(a); break; case 17: c = fp16::asin(b); break; case 18: c = fp16::acos(b); break; case 19: c = fp16::cosh(b); break; case 20: c = fp16::sinh(b); break; case 21: c = fp16::tanh(b); break; case 22: c = fp16::pow(a, b); break; case 23: c = a - b; break; case 24: c = -a; break; case 25: c += b; c -= a; c *= b; break; case 26: c /= b; break; case 27: ++c; c--; --c; c++; break;
        case 28: c = (int)r->range(-30000, 30000); break; case 29: c = in(r); break; case 30: c = (double)in(r); break; case 31: v.add((float)fp16::toInt(a)); v.add(fp16::toFloat(a)); v.add((float)fp16::toDouble(a)); break; case 32: v.add((a > b) + 2 * (a >= b) + 4 * (a < b) + 8 * (a <= b) + 16 * (a == b) + 32 * (a != b)); break; case 33: shown(a, v); break; case 34: { char s[16]; fp16::toASCII(a, s, (int)r->below(6)); for (char *q = s; *q; ++q) v.add(*q); break; } default: c = a / b + a * b; v.add(c.isOverflow()); v.add(c.isExpMax()); } v.add((float)(c.raw() & 0xffff)); v.add((float)(c.raw() >> 16)); } }; }},
    {"crc_presets", [](PR r, unsigned char) -> Step { return [=](Obs &v) mutable { uint8_t d[24]; size_t n = 1 + r->below(24); for (auto &b : d) b = (uint8_t)r->u64(); for (int k = 0; k < 4; ++k) { uint32_t c = crcAny(r->below(NCRC), d, n); v.add((float)(c & 0xffff)); v.add((float)(c >> 16)); } }; }},
    {"bitfield_all", [](PR r, unsigned char f) -> Step { auto w = mem<uint32_t>(8, f); auto o = obj<bitfield>(f); o->setup(w.get(), 32); o->setAll(); return [=](Obs &v) mutable { o->clearBit(r->below(256)); o->writeBit(r->below(256), r->chance(.5)); o->writeFloat(r->below(220), in(r)); v.add(o->readFloat(r->below(220))); uint8_t d[32] = {0}; v.add(o->dump(d, 32) == d); for (auto x : d) v.add(x); if (r->chance(.05)) o->clearAll(); if (r->chance(.05)) o->setAll(); (void)w; }; }},
    {"pid_setters", [](PR r, unsigned char f) -> Step { auto o = obj<pidController>(f); auto at = obj<pidAutoTuning>(f); auto ref = mem<float>(1, f); *ref = in(r); auto y = std::make_shared<float>(0.f); pidGains g; g.Kc = r->f(.1, 2); g.Ki = r->f(.1, 2); g.Kd = r->f(0, .5); o->setup(g, .1f); o->setSaturation(-10, 10); return [=](Obs &v) mutable { pidGains h; h.Kc = r->f(.1, 2); h.Ki = r->f(.1, 2); h.Kd = r->f(0, .5); switch (r->below(24)) { case 0: v.add(o->setGains(h)); break; case 1: v.add(o->setParams(h.Kc, h.Ki, h.Kd)); break; case 2: v.add(o->setDerivativeFilterTimeConstant(r->f(.01, 2))); break; case 3: v.add(o->setModelReferenceControl(*ref, .1f, .01f)); break; case 4: v.add(o->removeModelReferenceControl()); break; case 5: v.add(o->bindAutoTuning(*at)); break; case 6: v.add(o->unbindAutoTuning()); break;
        case 7: v.add(o->enableAutoTuning(5)); break; case 8: v.add(o->setAutoTuningParameters(r->f(.1, .9), r->f(.1, .9), r->f(.9, .99))); break; case 9: v.add(o->setAutoTuningControllerType((pidType)r->below(3))); break; case 10: v.add(o->setDirection(r->chance(.5) ? pidDirection::PID_FORWARD : pidDirection::PID_BACKWARD)); break; case 11: v.add(o->setExtraGains(r->f(0, 1), r->f(0, 1))); break; case 12: v.add(o->setEpsilon(r->f(0, .1))); break; case 13: v.add(o->setReferenceWeighting(r->f(0, 1), r->f(0, 1))); break; case 14: o->setDerivationMethod((derivationMethod)r->below(3)); o->setIntegrationMethod((integrationMethod)r->below(3)); break; case 15: v.add(o->reset()); break; default:; } float u = o->control(in(r), *y); *y = .8f * *y + .1f * u; *ref = .9f * *ref; v.add(u); v.add(o->isAutoTuningComplete()); auto q = o->getGains(); v.add(q.Kc); v.add(q.Ki); v.add(q.Kd); (void)at; }; }},
    {"fis_stored", [](PR r, unsigned char f) -> Step { auto W = std::make_shared<World>(anyWorld(*r, (fs::type)r->below(3))); auto L = std::make_shared<Live>(*W, f, W->type == fs::Mamdani); return [=](Obs &v) mutable { for (int i = 0; i < W->ni; ++i) { L->s << (fs::tag)i; L->s << r->f(W->imin[(size_t)i], W->imax[(size_t)i]); } bool ok = L->s.fuzzify() && L->s.inference() && L->s.deFuzzify(); v.add(ok); for (int i = 0; i < W->no; ++i) v.add(L->s[(fs::tag)i]); if (ok) for (auto &b : L->reg) for (size_t i = 0; i < L->s.getNumberOfPoints(); ++i) v.add(b->p[i]); }; }},
    {"algorithm", [](PR r, unsigned char) -> Step { return [=](Obs &v) mutable { int a[20]; for (auto &x : a) x = (int)r->range(-9, 9); size_t i = r->below(20), j = i + r->below(20 - i); int key = (int)r->range(-9, 9), nw = (int)r->range(-9, 9); bool (*odd)(const int) = [](const int x) { return (x & 1) != 0; }; bool (*neg)(const int &) = [](const int &x) { return x < 0; }; auto at = [&](int *q) { v.add(q ? (float)(q - a) : -1.f); }; at(algorithm::find(a, key, i, j)); at(algorithm::find_if(a, odd, i, j)); v.add(algorithm::any_of(a, odd, i, j)); v.add(algorithm::all_of(a, odd, i, j)); v.add((float)algorithm::count_if(a, odd, i, j)); algorithm::replace(a, key, nw, i, j); algorithm::replace_if(a, neg, nw, i, j); algorithm::for_each(a, (void (*)(int &))[](int &x) { x += 3; }, i, j); algorithm::reverse(a, i, j); algorithm::swap(a[i], a[j]); for (int x : a) v.add((float)x); algorithm::fill(a, nw, i, j); algorithm::sort(a, i, j); for (int x : a) v.add((float)x); }; }},
    {"mat_ops", [](PR r, unsigned char) -> Step { return [=](Obs &v) mutable { mat<2, 3> a, b; mat<3, 4> c; mat<3, 3> s; for (size_t i = 0; i < 6; ++i) { a(i) = in(r); b(i) = in(r); } for (size_t i = 0; i < 12; ++i) c(i) = in(r); for (size_t i = 0; i < 9; ++i) s(i) = in(r); float k = r->f(.5, 3); auto put = [&](const float *p, size_t n) { v.add(p, n); }; auto d = a + b - (a * k) / (k + 1) + k * b - (-a); d += b; d -= a; d *= k; d /= 3.f; d += 1.f; d -= k; ++d; d--; --d; d++; d = d + k; d = d - 1.f; d = k + d; d = k - d; put(&d(0), 6); auto e = d * c; put(&e(0), 8); auto t = !d; put(&t(0), 6); s *= s; put(&s(0), 9); auto q = s.inv(); put(&q(0), 9); put(s[1], 3); }; }},
    {"numa_ops", [](PR r, unsigned char f) -> Step { auto o = obj<nState>(f); o->init(in(r), in(r), in(r)); return [=](Obs &v) mutable { float k = r->f(.5, 3); o->integrate(in(r), .1f); v.add(*o * k); v.add(*o / k); v.add(*o + k); v.add(*o - k); v.add(k * *o); v.add(k / *o); v.add(k + *o); v.add(k - *o); v.add((float)delayFromTime(r->f(.1, 5), .05f)); }; }},
    {"interp1_data", [](PR r, unsigned char f) -> Step { size_t n = 4 + r->below(6); auto w = mem<float>(2 * n, f); auto w2 = mem<float>(2 * n, f); for (float *p : {w.get(), w2.get()}) { float x = 0; for (size_t i = 0; i < n; ++i) { x += r->f(.2, 2); p[i] = x; p[n + i] = in(r); } } auto o = std::make_shared<interp1>(w.get(), w.get() + n, n); auto cur = std::make_shared<float *>(w.get()); return [=](Obs &v) mutable { if (r->chance(.2)) { *cur = *cur == w.get() ? w2.get() : w.get(); v.add(o->setData(*cur, *cur + n, n)); } o->setMethod((interp1Method)r->below(INTERP1_MAX)); v.add(o->get(r->f((*cur)[0] - .5f, (*cur)[n - 1] + .5f))); }; }},
};
static const size_t NK = sizeof K / sizeof *K;
static uint64_t thash(const Obs &v) { uint64_t h = 77; for (float x : v) h = sig2(h, std::isnan(x) ? 0x7fc00000 : fb(x)); return h; }
struct Run { size_t k; uint64_t seed; int steps; };
static Obs solo(const Run &q, unsigned char fill) { Obs v; Step s = K[q.k].mk(std::make_shared<Rng>(q.seed), fill); for (int i = 0; i < q.steps; ++i) s(v); return v; }
static void differ(const Run &q, const Obs &a, const Obs &b, const char *why) { if (thash(a) == thash(b) && a.size() == b.size()) return; size_t i = 0; while (i < a.size() && i < b.size() && (a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) ++i; fail("%s %s: observation %zu is %.9g alone and %.9g here", K[q.k].n, why, i, i < a.size() ? a[i] : NAN, i < b.size() ? b[i] : NAN); }
#if !defined(BUILD_TSAN)
// (1) previous memory contents; under MSan every observation must be initialised
MONITOR(memory, 4000, 60000) { Run q{idx % NK, rng.u64(), 20 + (int)rng.below(80)}; note("%s", K[q.k].n); auto a = solo(q, 0x00);
#if !defined(BUILD_MSAN)
    static const unsigned char fills[] = {0xFF, 0x7F, 0x3F, 0xC1}; auto b = solo(q, fills[rng.below(4)]); differ(q, a, b, "depends on previous memory contents");
#endif
    ev(K[q.k].n); evaln(a.size()); seen(sig2(thash(a), q.k)); eg("%s: %zu observations over %d operations", K[q.k].n, a.size(), q.steps); }
// (2) other instances used in between
MONITOR(interleaved, 1500, 30000) { size_t n = 2 + rng.below(5); bool same = rng.chance(.5); size_t k0 = rng.below(NK); std::vector<Run> q; for (size_t i = 0; i < n; ++i) q.push_back({same ? k0 : rng.below(NK), rng.u64(), 20 + (int)rng.below(40)}); std::vector<Obs> alone, got(n); for (auto &x : q) alone.push_back(solo(x, 0)); std::vector<Step> s; std::vector<int> left; for (auto &x : q) { note("%s", K[x.k].n); s.push_back(K[x.k].mk(std::make_shared<Rng>(x.seed), 0)); left.push_back(x.steps); }
    size_t open = n, sw = 0; uint64_t order = 0; while (open) { size_t i = rng.below(n); if (!left[i]) continue; s[i](got[i]); ++sw; order = order * 7 + i; if (!--left[i]) --open; } for (size_t i = 0; i < n; ++i) differ(q[i], alone[i], got[i], "is disturbed by another instance"); ev(same ? "same_class_instances" : "mixed_instances", n); ev("operations_interleaved", sw); evaln(n); seen(sig2(order, q[0].seed)); }
#endif
#if !defined(BUILD_MSAN)
// (3) other threads using their own instances
MONITOR(threads, 900, 9000) { size_t T = 4; std::vector<std::vector<Run>> plan(T); std::vector<std::vector<Obs>> alone(T), got(T); bool same = (idx / NK) % 3 != 2; size_t k0 = idx % NK; for (size_t t = 0; t < T; ++t) for (int i = 0; i < 6; ++i) { plan[t].push_back({same ? k0 : rng.below(NK), rng.u64(), 30}); alone[t].push_back(solo(plan[t].back(), 0)); got[t].emplace_back(); } note("threads %s", same ? K[k0].n : "mixed");
    std::atomic<int> ready(0); std::atomic<bool> bad(false); std::vector<std::thread> th; for (size_t t = 0; t < T; ++t) th.emplace_back([&, t] { ++ready; while (ready < (int)T) std::this_thread::yield(); try { for (size_t i = 0; i < plan[t].size(); ++i) got[t][i] = solo(plan[t][i], 0); } catch (...) { bad = true; } }); for (auto &x : th) x.join(); VH_CHECK(!bad, "a call failed only when threads run concurrently"); for (size_t t = 0; t < T; ++t) for (size_t i = 0; i < plan[t].size(); ++i) differ(plan[t][i], alone[t][i], got[t][i], "is disturbed by another thread"); ev("concurrent_runs", T * 6); evaln(T * 6); seen(sig2(k0, plan[0][0].seed)); }
#endif
VH_MAIN
