// C08 and C09 for every calculator class: see calckit.h.
#include "calc_base.h"
#ifndef NO_MODELS
#include "calc_model.h"
#endif
int main(int argc, char **argv) {
  using namespace ck;
  std::vector<Kind> kinds = baseKinds();
#ifndef NO_MODELS
  for (auto &k : modelKinds())
    kinds.push_back(k);
#endif
  std::vector<mc::Scenario> all;
  for (auto &k : kinds) {
    string id;
    for (char ch : k.name)
      id += isalnum((unsigned char)ch) ? (char)tolower(ch) : '_';
    while (!id.empty() && id.back() == '_')
      id.pop_back();
    all.push_back({"c09_fit_" + id, [k] { fit(k); }, "all options, dimensions and data of " + k.name + ", exactly sized memory"});
    if (!k.fixed)
      all.push_back({"c09_reject_" + id, [k] { reject(k); }, "all pairs of declared and given dimensions of " + k.name});
    all.push_back({"c08_memory_" + id, [k] { reuse(k, 1); }, "all options, dimensions, data and memory contents of " + k.name});
    all.push_back({"c08_pairs_" + id, [k] { reuse(k, 2); }, "all pairs of calculations with one " + k.name + " and all memory contents"});
    all.push_back({"c08_triples_" + id, [k] { reuse(k, 3); }, "all triples of calculations with one " + k.name + " and all memory contents", true});
  }
  return mc::harness_main(argc, argv, all);
}
