// The third order mixing and demixing matrices libopus publishes (Q15, [in * 16 + out]).
#ifndef VERIF_REF_TOA_H_
#define VERIF_REF_TOA_H_
#include <cstdint>
namespace ref {
inline constexpr int16_t kToaMix[256] = {8208, 0, -881, 14369, 0, 0, -8192, -4163, 13218, 0, 0, 0, 11095, -8836, -6218, 14833, 8208, -10161, 881, 10161, -13218, -2944, -8192, 2944, 0, -10488, -6218, 6248, -11095, -6248, 0, -10488, 8208, 10161, 881, -10161, -13218, 2944, -8192, -2944, 0, 10488, -6218, -6248, -11095, 6248, 0, 10488, 8176, 5566, -11552, 5566, 9681, -11205, 8192, -11205, 0, 4920, -15158, 9756, -3334, 9756, 0, -4920, 8176, 7871, 11552, 0, 0, 15846, 8192, 0, -9681, -6958, 0, 13797, 3334, 0, -15158, 0, 8176, 0, 11552, 7871, 0, 0, 8192, 15846, 9681, 0, 0, 0, 3334, 13797, 15158, 6958, 8176, 5566, -11552, -5566, -9681, -11205, 8192, 11205, 0, 4920, 15158, 9756, -3334, -9756, 0, 4920, 8208, 14369, -881, 0, 0, -4163, -8192, 0, -13218, -14833, 0, -8836, 11095, 0, 6218, 0, 8208, 10161, 881, 10161, 13218, 2944, -8192, 2944, 0, 10488, 6218, -6248, -11095, -6248, 0, -10488, 8208, -14369, -881, 0, 0, 4163, -8192, 0, -13218, 14833, 0, 8836, 11095, 0, 6218, 0, 8208, 0, -881, -14369, 0, 0, -8192, 4163, 13218, 0, 0, 0, 11095, 8836, -6218, -14833, 8176, -5566, -11552, 5566, -9681, 11205, 8192, -11205, 0, -4920, 15158, -9756, -3334, 9756, 0, -4920, 8176, 0, 11552, -7871, 0, 0, 8192, -15846, 9681, 0, 0, 0, 3334, -13797, 15158, -6958, 8176, -7871, 11552, 0, 0, -15846, 8192, 0, -9681, 6958, 0, -13797, 3334, 0, -15158, 0, 8176, -5566, -11552, -5566, 9681, 11205, 8192, 11205, 0, -4920, -15158, -9756, -3334, -9756, 0, 4920, 8208, -10161, 881, -10161, 13218, -2944, -8192, -2944, 0, -10488, 6218, 6248, -11095, 6248, 0, 10488};
inline constexpr int16_t kToaDemix[256] = {8192, 8192, 8192, 8192, 8192, 8192, 8192, 8192, 8192, 8192, 8192, 8192, 8192, 8192, 8192, 8192, 0, -9779, 9779, 6263, 8857, 0, 6263, 13829, 9779, -13829, 0, -6263, 0, -8857, -6263, -9779, -3413, 3413, 3413, -11359, 11359, 11359, -11359, -3413, 3413, -3413, -3413, -11359, 11359, 11359, -11359, 3413, 13829, 9779, -9779, 6263, 0, 8857, -6263, 0, 9779, 0, -13829, 6263, -8857, 0, -6263, -9779, 0, -15617, -15617, 6406, 0, 0, -6406, 0, 15617, 0, 0, -6406, 0, 0, 6406, 15617, 0, -5003, 5003, -10664, 15081, 0, -10664, -7075, 5003, 7075, 0, 10664, 0, -15081, 10664, -5003, -8176, -8176, -8176, 8208, 8208, 8208, 8208, -8176, -8176, -8176, -8176, 8208, 8208, 8208, 8208, -8176, -7075, 5003, -5003, -10664, 0, 15081, 10664, 0, 5003, 0, 7075, -10664, -15081, 0, 10664, -5003, 15617, 0, 0, 0, -6406, 6406, 0, -15617, 0, -15617, 15617, 0, 6406, -6406, 0, 0, 0, -11393, 11393, 2993, -4233, 0, 2993, -16112, 11393, 16112, 0, -2993, 0, 4233, -2993, -11393, 0, -9974, -9974, -13617, 0, 0, 13617, 0, 9974, 0, 0, 13617, 0, 0, -13617, 9974, 0, 5579, -5579, 10185, 14403, 0, 10185, -7890, -5579, 7890, 0, -10185, 0, -14403, -10185, 5579, 11826, -11826, -11826, -901, 901, 901, -901, 11826, -11826, 11826, 11826, -901, 901, 901, -901, -11826, -7890, -5579, 5579, 10185, 0, 14403, -10185, 0, -5579, 0, 7890, 10185, -14403, 0, -10185, 5579, -9974, 0, 0, 0, -13617, 13617, 0, 9974, 0, 9974, -9974, 0, 13617, -13617, 0, 0, 16112, -11393, 11393, -2993, 0, 4233, 2993, 0, -11393, 0, -16112, -2993, -4233, 0, 2993, 11393};
}  // namespace ref
#endif
