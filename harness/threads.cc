// Runs the scenarios of a file in several threads at once, each thread with modelers of its own.
// Built with the thread sanitizer: modelers share nothing, so no race is reported and all threads get the
// same answers. Prints "DIFF name" if they do not.
#include "common.h"
#include <memory>
#include <thread>
using namespace vf;

using Calls = std::vector<std::vector<std::string>>;

static std::string Run(const Calls& calls) {
  StrokeModeler m;
  std::vector<Result> r;
  Json j;
  j.Open();
  for (const auto& tok : calls) {
    r.clear();
    switch (tok[0][0]) {
      case 'P': j.KStr("st", Status(m.Reset(ParseParams(tok, 1)))); break;
      case 'R': j.KStr("st", Status(m.Reset())); break;
      case 'I': j.KStr("st", Status(m.Update(ParseInput(tok, 1), r))); LogResults(j, r, 0); break;
      case 'Q': j.KStr("st", Status(m.Predict(r))); LogResults(j, r, 0); break;
      case 'S': m.Save(); break;
      case 'T': m.Restore(); break;
    }
  }
  return j.s;
}

int main(int argc, char** argv) {
  std::FILE* in = std::fopen(argv[1], "r");
  if (!in) return 3;
  std::vector<std::string> names;
  std::vector<Calls> scens;
  char* line = nullptr;
  size_t cap = 0;
  ssize_t len;
  while ((len = getline(&line, &cap, in)) > 0) {
    auto tok = Split(std::string(line, len));
    if (tok.empty() || tok[0][0] == '#') continue;
    if (tok[0][0] == 'N') {
      names.push_back(tok[1]);
      scens.emplace_back();
    } else {
      scens.back().push_back(tok);
    }
  }
  std::free(line);
  const size_t kThreads = 3, n = scens.size();
  std::vector<std::vector<std::string>> got(kThreads, std::vector<std::string>(n));
  std::vector<std::thread> ts;
  for (size_t t = 0; t < kThreads; ++t) {
    ts.emplace_back([&, t] {
      for (size_t k = 0; k < n; ++k) {
        const size_t i = (k + t * n / kThreads) % n;
        got[t][i] = Run(scens[i]);
      }
    });
  }
  for (auto& t : ts) t.join();
  for (size_t i = 0; i < n; ++i) {
    for (size_t t = 1; t < kThreads; ++t) {
      if (got[t][i] != got[0][i]) {
        std::printf("DIFF %s\n", names[i].c_str());
        return 5;
      }
    }
  }
  return 0;
}
