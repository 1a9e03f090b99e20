// The queries of the C interface, on all indices around the valid ones.
#pragma once

namespace vh {

inline Json AllStats(conex::Program* p, double scale) {
  int n = p->Status().num_iterations;
  std::string all;
  std::vector<int> at;
  for (int i = -n - 3; i <= n + 3; i++) at.push_back(i);
  for (int i : {-1000, 1000, -2147483647 - 1, 2147483647}) at.push_back(i);
  for (int i : at) {
    CONEX_IterationStats st{-5, -77};
    CONEX_GetIterationStats(p, &st, i);
    Json j;
    j.i("i", i).b("touched", st.mu != -5 || st.iteration_number != -77).i("it", st.iteration_number);
    j.i("kk", st.mu > 0 ? 1 / std::sqrt(st.mu) : -1, scale);
    all += (all.empty() ? "{" : ",{") + j.s + "}";
  }
  return Json().i("num", n).raw("all", "[" + all + "]");
}

}  // namespace vh
