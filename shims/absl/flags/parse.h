#ifndef VERIF_SHIM_FLAGS_PARSE_H_
#define VERIF_SHIM_FLAGS_PARSE_H_
#include "absl/flags/flag.h"
namespace absl {
inline std::vector<char*> ParseCommandLine(int argc, char** argv) {
  std::vector<char*> rest;
  if (argc > 0) rest.push_back(argv[0]);
  bool pos = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (pos || a.size() < 2 || a[0] != '-') { rest.push_back(argv[i]); continue; }
    if (a == "--") { pos = true; continue; }
    std::string n = a.substr(a[1] == '-' ? 2 : 1), v;
    bool has = false;
    if (auto e = n.find('='); e != n.npos) { v = n.substr(e + 1); n = n.substr(0, e); has = true; }
    auto& m = verif_internal::Flags();
    auto it = m.find(n);
    if (it == m.end() && !has && n.rfind("no", 0) == 0 && m.count(n.substr(2)) && m[n.substr(2)].is_bool) { it = m.find(n.substr(2)); v = "false"; has = true; }
    if (it == m.end()) { fprintf(stderr, "ERROR: Unknown command line flag '%s'\n", n.c_str()); exit(1); }
    if (!has) { if (it->second.is_bool) v = "true"; else if (i + 1 < argc) v = argv[++i]; else { fprintf(stderr, "ERROR: Missing the value for the flag '%s'\n", n.c_str()); exit(1); } }
    std::string err;
    if (!it->second.parse(v, &err)) { fprintf(stderr, "ERROR: Illegal value '%s' specified for flag '%s'; %s\n", v.c_str(), n.c_str(), err.c_str()); exit(1); }
  }
  return rest;
}
}  // namespace absl
#endif
