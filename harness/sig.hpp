// Test signals: mixtures of the shapes that expose state-handling mistakes.
#ifndef SIG_HPP
#define SIG_HPP
#include "vh.hpp"
namespace vh {
// mostly the usual amplitude, sometimes one many decades away from it
inline double wide(Rng &r, double a, double decades = 8) { return r.chance(0.25) ? a * std::pow(10., r.uni(-decades, decades)) : a; }
struct Signal {
    int kind; double amp, off, per, slope; float hold; int left; bool whole; Rng *r; size_t t = 0; double walk = 0;
    Signal(Rng &rng, double maxAmp) : r(&rng) { kind = (int)rng.below(8); amp = rng.chance(0.3) ? maxAmp : std::exp(rng.uni(std::log(maxAmp * 1e-3), std::log(maxAmp))); off = rng.chance(0.4) ? 0 : rng.uni(-amp, amp); per = rng.uni(2, 60); slope = rng.uni(-1, 1) * amp / 50; hold = 0; left = 0; whole = rng.chance(.1); }
    float next() {
        double v = 0; size_t k = t++;
        switch (kind) {
            case 0: v = off + amp * r->uni(-1, 1); break;                       // noise
            case 1: v = off + amp * std::sin(6.283185307179586 * (double)k / per); break;
            case 2: v = k < (size_t)per ? off : amp; break;                     // step
            case 3: v = (k == (size_t)per / 2) ? amp : 0; break;                // impulse
            case 4: v = off + slope * (double)k; break;                         // ramp
            case 5: v = amp; break;                                             // constant
            case 6: if (left <= 0) { hold = (float)(amp * r->uni(-1, 1)); left = 1 + (int)r->below(15); } --left; v = hold; break;
            default: walk += amp * 0.1 * r->uni(-1, 1); v = walk; break;        // random walk
        }
        if (r->chance(0.01)) v = 0;
        return whole ? (float)std::round(v) : (float)v; // some signals of whole numbers
    }
};
}
#endif
