#include <cstdio>
#include <fstream>
#include <iterator>
#include <vector>
#include "iamf/include/iamf_tools/iamf_decoder_factory.h"
#include "iamf/include/iamf_tools/iamf_encoder_factory.h"
#include "iamf/cli/probe.h"
using namespace iamf_tools;
int main(int c, char** v) {
  for (int i = 1; i < c; ++i) {
    std::ifstream f(v[i], std::ios::binary);
    std::vector<uint8_t> d((std::istreambuf_iterator<char>(f)), {});
    api::IamfDecoderFactory::Settings s;
    auto dec = api::IamfDecoderFactory::Create(s);
    auto st = dec->Decode(d.data(), d.size());
    printf("%s: %zu bytes status %s\n", v[i], d.size(), st.error_message.c_str());
    std::vector<uint8_t> o(1 << 20);
    size_t tot = 0, n = 0;
    { auto st = dec->SignalEndOfDecoding(); }
    while (dec->IsTemporalUnitAvailable()) {
      size_t w = 0;
      auto st = dec->GetOutputTemporalUnit(o.data(), o.size(), w);
      if (!st.ok()) { printf("err %s\n", st.error_message.c_str()); break; }
      tot += w; n++;
    }
    printf("  units %zu bytes %zu\n", n, tot);
  }
  auto e = api::IamfEncoderFactory::CreateIamfEncoder("");
  printf("enc %s\n", e.status().ToString().c_str());
}
