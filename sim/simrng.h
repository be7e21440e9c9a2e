#pragma once
#include <cstdint>
namespace sim {
struct Rng {                       // splitmix64: the only randomness
    uint64_t s;
    explicit Rng(uint64_t seed=1) : s(seed*0x9E3779B97F4A7C15ull+0x1234567) {}
    uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}
    uint64_t below(uint64_t n){ return n? next()%n : 0; }
    double   unit(){ return (next()>>11)*(1.0/9007199254740992.0); }
    bool     chance(double p){ return unit()<p; }
    double   range(double a,double b){ return a+(b-a)*unit(); }
};
}
