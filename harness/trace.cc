// Replays a scenario file into StrokeModelers and logs every call as one JSON line.
//
//   N name             new modeler
//   P key=value ...    Reset(params)
//   R                  Reset()
//   I e x y t pr ti or Update
//   Q                  Predict
//   S / T              Save / Restore
//   L                  (no call) log the allocated memory
//
// A third argument must not change the log: with "shadow" another modeler goes through the same calls
// some steps behind, and with "moving" the modeler is moved to another place every few calls.
//
// Logged for each call: arguments, status, results, and "pre": whether the part of the
// caller's vector that the call must not touch was left as it was.
#include "common.h"
#include <malloc.h>
#include <deque>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
using namespace vf;

// Counts the blocks and bytes that are allocated.
static long g_live = 0, g_bytes = 0;
void* operator new(std::size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++g_live;
  g_bytes += malloc_usable_size(p);
  return p;
}
void operator delete(void* p) noexcept {
  if (p) {
    --g_live;
    g_bytes -= malloc_usable_size(p);
  }
  std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }

// Moves a modeler, if its type can be moved, into a new one or over one that is in the middle of a stroke.
template <typename M>
static void Move(std::unique_ptr<M>& m, std::unique_ptr<M>& used, bool assign) {
  if constexpr (std::is_move_constructible_v<M>) {
    if (!assign) m = std::make_unique<M>(std::move(*m));
  }
  if constexpr (std::is_move_assignable_v<M>) {
    if (assign) {
      *used = std::move(*m);
      m = std::move(used);
      used = std::make_unique<M>();
    }
  }
}

// One call without logging.
static void Quiet(std::unique_ptr<StrokeModeler>& m, const std::vector<std::string>& tok) {
  std::vector<Result> r;
  switch (tok[0][0]) {
    case 'N': m = std::make_unique<StrokeModeler>(); break;
    case 'P': (void)m->Reset(ParseParams(tok, 1)); break;
    case 'R': (void)m->Reset(); break;
    case 'I': (void)m->Update(ParseInput(tok, 1), r); break;
    case 'Q': (void)m->Predict(r); break;
    case 'S': m->Save(); break;
    case 'T': m->Restore(); break;
  }
}

int main(int argc, char** argv) {
  std::FILE* in = argc > 1 ? std::fopen(argv[1], "r") : stdin;
  std::FILE* out = argc > 2 ? std::fopen(argv[2], "w") : stdout;
  if (!in || !out) return 3;
  std::setvbuf(out, nullptr, _IOLBF, 1 << 16);
  const bool shadow = argc > 3, moving = argc > 3 && argv[3][0] == 'm';
  std::unique_ptr<StrokeModeler> m, other = std::make_unique<StrokeModeler>();
  std::deque<std::vector<std::string>> lag;
  std::vector<Result> acc;      // the caller's accumulated results
  char* line = nullptr;
  size_t cap = 0;
  ssize_t len;
  long n = 0, live0 = -1;
  while ((len = getline(&line, &cap, in)) > 0) {
    auto tok = Split(std::string(line, len));
    if (tok.empty() || tok[0][0] == '#') continue;
    if (shadow) {
      lag.push_back(tok);
      if (lag.size() > 7) {
        Quiet(other, lag.front());
        lag.pop_front();
      }
    }
    if (moving && m && tok[0] != "N" && n % 3 == 0) Move(m, other, n % 6 == 0);
    Json j;
    j.Open();
    j.KStr("o", tok[0]);
    switch (tok[0][0]) {
      case 'N':
        m.reset();
        acc.clear();
        acc.shrink_to_fit();
        if (n > 0 && live0 < 0) live0 = g_live;   // after the first scenario
        m = std::make_unique<StrokeModeler>();
        j.KStr("n", tok[1]);
        break;
      case 'P': {
        StrokeModelParams p = ParseParams(tok, 1);
        LogParams(j, p);
        j.KStr("st", Status(m->Reset(p)));
        j.Key("v");
        j.Open();
        j.KStr("wob", Status(ValidateWobbleSmootherParams(p.wobble_smoother_params)));
        j.KStr("pos", Status(ValidatePositionModelerParams(p.position_modeler_params)));
        j.KStr("samp", Status(ValidateSamplingParams(p.sampling_params)));
        j.KStr("sty", Status(ValidateStylusStateModelerParams(p.stylus_state_modeler_params)));
        j.KStr("pred", Status(ValidatePredictionParams(p.prediction_params)));
        j.KStr("all", Status(ValidateStrokeModelParams(p)));
        j.Close();
        break;
      }
      case 'R':
        j.KStr("st", Status(m->Reset()));
        break;
      case 'I': {
        Input i = ParseInput(tok, 1);
        LogInput(j, i);
        if (acc.size() > 64) acc.erase(acc.begin(), acc.begin() + 60);
        std::vector<Result> before = acc;
        absl::Status s = m->Update(i, acc);
        bool pre = acc.size() >= before.size() && (s.ok() || acc.size() == before.size());
        for (size_t k = 0; pre && k < before.size(); ++k) pre = SameResult(before[k], acc[k]);
        j.KStr("st", Status(s));
        j.KBool("pre", pre);
        LogResults(j, acc, std::min(before.size(), acc.size()));
        break;
      }
      case 'Q': {
        std::vector<Result> r(3);
        r[1].pressure = 0.5f;
        absl::Status s = m->Predict(r);
        j.KStr("st", Status(s));
        j.KBool("pre", s.ok() || r.empty());
        LogResults(j, r, 0);
        break;
      }
      case 'S': m->Save(); break;
      case 'T': m->Restore(); break;
      case 'L':
        acc.clear();
        acc.shrink_to_fit();
        j.KInt("b", g_bytes);
        break;
      default: return 4;
    }
    j.Close();
    j.s += "\n";
    std::fwrite(j.s.data(), 1, j.s.size(), out);
    ++n;
  }
  m.reset();
  acc.clear();
  acc.shrink_to_fit();
  std::free(line);
  std::fprintf(out, "{\"o\":\"Z\",\"n\":\"%ld\",\"live\":%ld}\n", n, live0 < 0 ? 0 : g_live - live0);
  std::fclose(out);
  return 0;
}
