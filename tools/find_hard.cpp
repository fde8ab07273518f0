// Searches messages whose encoding on secp256r1 has to try many x-coordinates (at least argv[1] failures).
#include <gmpxx.h>
#include <cstdio>
#include <thread>
#include <mutex>
#include <vector>
int main(int argc, char** argv)
{
    int want = atoi(argv[1]); long maxm = atol(argv[2]);
    mpz_class p("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", 16), b("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", 16);
    std::mutex mu; std::vector<std::thread> th;
    for (int w = 0; w < 8; w++) th.emplace_back([=, &mu] {
        mpz_class base = mpz_class("123456789abcdef0123456789abcdef0123456789abcdef", 16);
        for (long i = w; i < maxm; i += 8) {
            mpz_class m = base * (i % 3) + i, x, r; mpz_mul_2exp(x.get_mpz_t(), m.get_mpz_t(), 10);
            int f = 0;
            for (;; f++, x += 1) { r = ((x * x - 3) * x + b) % p; if (r < 0) r += p; if (mpz_legendre(r.get_mpz_t(), p.get_mpz_t()) >= 0) break; }
            if (f >= want) { std::lock_guard<std::mutex> g(mu); printf("\"%s\", // %d failures\n", m.get_str(16).c_str(), f); fflush(stdout); }
        }
    });
    for (auto& t : th) t.join();
}
