// C38 for the byte and checksum functions.
#include "twin.hpp"
#include <string.h>
#include "crc.hpp"
PART(c38_bytes)
{
    for (size_t len = 0; len <= (R.thorough() ? 600u : 200u); len++) {
        if (!mine()) continue;
        for (int k = 0; k < 4; k++) {
            at("length %ld kind %ld", len, (long)k);
            twins(1, [&](Tw& t) {
                std::vector<uint8_t> v(len); for (size_t i = 0; i < len; i++) v[i] = k == 0 ? mix(len * 1000 + i) : k == 1 ? 0xff : k == 2 ? i : 0x80; if (k == 3 && len) v[0] = 0;
                mpz_class z = t("setRawMpz", [&](std::vector<uint8_t>& v) { return utils::setRawMpz(v.data(), v.size()); }, v);
                auto raw = [&](const mpz_class& z) { return t("getRawMpz", [&](mpz_class& z) { uint8_t* p = nullptr; size_t n = utils::getRawMpz(&p, z); std::vector<uint8_t> o(p, p + n); free(p); return o; }, z); };
                raw(z); for (size_t off = 0; off < 9 && off <= len; off++) t("calculate_crc32c", [&](std::vector<uint8_t>& v) { return calculate_crc32c(0, v.data() + off, v.size() - off); }, v);
                mpz_class f = t("appendCRC", [&](mpz_class& z) { return mpz_class(appendCRC(z)); }, z); t("validateCRC", [&](mpz_class& z) { return (bool)validateCRC(z); }, f); t("removeCRC", [&](mpz_class& z) { return mpz_class(removeCRC(z)); }, f); raw(f);
                t("validateCRC", [&](mpz_class& z) { return (bool)validateCRC(z); }, mpz_class(f + 1));
            });
        }
    }
    sample("byte strings of every length through the byte, integer and checksum functions");
}
