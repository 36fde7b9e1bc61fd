// Replays behaviours of spec/Lifecycle.tla and compares the modeler, after its whole history, with a
// new modeler that only had the canonical history the specification gives for each call.
//
//   N name
//   <op> <allowed statuses> <cfg> <n> <n input indices>
// where op is  I e x y t s bad | P k | B k | R | Q | S | T   (see Lifecycle.tla).
//
// Prints one line "BAD {json}" per disagreement and a last line "DONE {json}".
#include <algorithm>
#include <limits>
#include <memory>
#include <optional>
#include <set>
#include <unordered_map>

#include "common.h"
using namespace vf;

namespace {
const char* kValid[] = {
    "wob.on=1 wob.timeout=.1 wob.floor=2 wob.ceil=40 loop.on=0 M=.0006 K=40 rate=64 stop=.01 iters=8 maxout=6 sty.proj=0 "
    "sty.max=3 pred=end",
    "wob.on=0 loop.on=0 M=.0006 K=40 rate=64 stop=.01 iters=20 maxout=250 angle=.3 sty.proj=0 sty.max=10 pred=kal k.pn=.01 "
    "k.mn=.1 k.stable=2 k.times=5 k.vel=1 k.int=.1 k.des=4 k.dist=4 k.vmin=0 k.vmax=20 k.dev=20 k.base=.4",
    "wob.on=1 wob.timeout=.05 wob.floor=20 wob.ceil=80 loop.on=0 M=.001 K=30 rate=64 stop=.1 iters=20 maxout=9 sty.proj=1 "
    "sty.min=3 sty.dur=.05 pred=off",
    "wob.on=1 wob.timeout=.08 wob.floor=5 wob.ceil=90 loop.on=1 loop.lo=5 loop.hi=60 loop.slo=.9 loop.shi=.1 loop.win=.07 "
    "loop.n=3 M=.0006 K=40 rate=64 stop=.01 iters=20 maxout=40 sty.proj=1 sty.min=4 sty.dur=.06 pred=kal k.pn=.01 k.mn=.1 "
    "k.stable=3 k.times=20 k.vel=1 k.int=.1 k.des=3 k.dist=4 k.vmin=0 k.vmax=20 k.dev=20 k.base=.4",
    "wob.on=0 loop.on=1 loop.lo=0 loop.hi=40 loop.slo=1 loop.shi=.3 loop.win=.05 loop.n=2 M=.0006 K=40 rate=64 stop=.01 "
    "iters=20 maxout=6 sty.proj=1 sty.min=2 sty.dur=.03 pred=end",
    "wob.on=1 wob.timeout=.2 wob.floor=1 wob.ceil=1.5 loop.on=0 M=.0004 K=60 rate=64 stop=.001 iters=20 maxout=30 "
    "sty.proj=0 sty.max=2 pred=kal k.pn=.1 k.mn=.5 k.stable=4 k.times=3 k.vel=.1 k.int=.2 k.des=10 k.dist=8 k.vmin=1 "
    "k.vmax=10 k.dev=5 k.base=.1",
    "wob.on=0 loop.on=0 M=.0006 K=40 rate=64 stop=.01 iters=20 maxout=250 angle=.1 sty.proj=0 sty.max=5 pred=end",
    "wob.on=1 wob.timeout=.1 wob.floor=2 wob.ceil=40 loop.on=0 M=.0006 K=40 rate=64 stop=.01 iters=8 maxout=12 sty.proj=1 "
    "sty.min=1 sty.dur=.2 pred=kal k.pn=.01 k.mn=.1 k.stable=1 k.times=1 k.vel=1 k.int=.1 k.des=3 k.dist=4 k.vmin=0 "
    "k.vmax=20 k.dev=20 k.base=.9",
};
const char* kBad[] = {
    "wob.on=0 M=.1 K=1 rate=-1 stop=.1 iters=5 maxout=10 sty.max=5 pred=end",
    "wob.on=0 loop.on=1 loop.lo=0 loop.hi=40 loop.slo=1 loop.shi=.3 loop.win=.05 loop.n=2 M=.1 K=1 rate=64 stop=.1 iters=5 "
    "maxout=10 sty.proj=0 sty.max=5 pred=end",
    "wob.on=0 M=.1 K=1 rate=64 stop=.1 iters=5 maxout=10 sty.max=5 pred=kal k.pn=-1",
    "wob.on=1 wob.timeout=.1 wob.floor=2 wob.ceil=1 M=.1 K=1 rate=64 stop=.1 iters=5 maxout=10 sty.max=5 pred=end",
    "wob.on=0 M=.1 K=1 rate=64 stop=nan iters=5 maxout=10 sty.max=5 pred=off",
    "wob.on=1",
};
constexpr float kNone = -1;
constexpr float kNan = std::numeric_limits<float>::quiet_NaN();
constexpr float kInf = std::numeric_limits<float>::infinity();
// pressure, tilt, orientation; 0-9 known and ordinary, 14-16 with a NaN
const float kStylus[][3] = {
    {.5, .2, 1},      {.9, .4, 6.1},     {.1, 1.2, .2},      {0, 0, 0},      {1, .8, 3.1},      {.3, .1, 4.5},
    {.25, .7, 6.25},  {.75, 1.5, .01},   {.6, .05, 2.5},     {.35, .9, 5.5}, {kNone, .3, 2},    {.4, .5, -2},
    {.7, -.5, 1.5},   {kNone, kNone, kNone}, {kNan, .2, 1},  {.2, kNan, 3},  {.2, .6, kNan},    {-7, .1, 1},
    {.3, -1e-30f, 1}, {.4, .4, -kInf},   {kInf, .5, 1},      {2.5, 3, 7},    {1e30f, 1e-30f, 20}, {.5, -1, -1}};

struct Op {
  char kind;
  int k = 0;
  Input in;
  std::set<std::string> st;
  int cfg = 0;
  std::vector<int> base;
};

uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
uint64_t BitsF(float f) {
  if (std::isnan(f)) return 0x7fc00000;
  uint32_t b;
  std::memcpy(&b, &f, 4);
  return b;
}
uint64_t BitsD(double d) {
  if (std::isnan(d)) return 0x7ff8000000000000ull;
  uint64_t b;
  std::memcpy(&b, &d, 8);
  return b;
}
uint64_t HashResults(const std::vector<Result>& r, size_t from) {
  uint64_t h = Mix(17, r.size() - from);
  for (size_t i = from; i < r.size(); ++i) {
    for (float f : {r[i].position.x, r[i].position.y, r[i].velocity.x, r[i].velocity.y, r[i].acceleration.x,
                    r[i].acceleration.y, r[i].pressure, r[i].tilt, r[i].orientation})
      h = Mix(h, BitsF(f));
    h = Mix(h, BitsD(r[i].time.Value()));
  }
  return h;
}
uint64_t HashInput(const Input& i) {
  uint64_t h = Mix(5, static_cast<int>(i.event_type));
  for (float f : {i.position.x, i.position.y, i.pressure, i.tilt, i.orientation}) h = Mix(h, BitsF(f));
  return Mix(h, BitsD(i.time.Value()));
}

const StrokeModelParams& Params(bool bad, int k) {
  static std::map<std::pair<bool, int>, StrokeModelParams> cache;
  auto it = cache.find({bad, k});
  if (it == cache.end())
    it = cache.emplace(std::pair(bad, k), ParseParams(Split(bad ? kBad[k - 1] : kValid[k - 1]), 0)).first;
  return it->second;
}

// The outcome of one call.
struct Outcome {
  std::string st = "ok";
  uint64_t h = 0;
  size_t n = 0;
  std::string flags;      // broken promises that need no reference
};

Outcome Call(StrokeModeler& m, const Op& op, std::vector<Result>& acc) {
  Outcome o;
  switch (op.kind) {
    case 'P': o.st = Status(m.Reset(Params(false, op.k))); break;
    case 'B': o.st = Status(m.Reset(Params(true, op.k))); break;
    case 'R': o.st = Status(m.Reset()); break;
    case 'S': m.Save(); break;
    case 'T': m.Restore(); break;
    case 'I': {
      std::vector<Result> before = acc;
      absl::Status s = m.Update(op.in, acc);
      o.st = Status(s);
      bool pre = acc.size() >= before.size() && (s.ok() || acc.size() == before.size());
      for (size_t k = 0; pre && k < before.size(); ++k) pre = SameResult(before[k], acc[k]);
      if (!pre) o.flags += " pre";
      size_t from = std::min(before.size(), acc.size());
      o.n = acc.size() - from;
      o.h = HashResults(acc, from);
      if (s.ok() && o.n == 0) o.flags += " empty";
      if (s.ok() && op.in.event_type == Input::EventType::kDown) {
        Result want;
        want.position = op.in.position;
        want.velocity = {0, 0};
        want.acceleration = {0, 0};
        want.time = op.in.time;
        want.pressure = op.in.pressure;
        want.tilt = op.in.tilt;
        want.orientation = op.in.orientation;
        if (o.n != 1 || !SameResult(acc[from], want)) o.flags += " down";
      }
      break;
    }
    case 'Q': {
      std::vector<Result> r(acc.begin(), acc.begin() + std::min<size_t>(3, acc.size()));
      absl::Status s = m.Predict(r);
      o.st = Status(s);
      if (!s.ok() && !r.empty()) o.flags += " pre";
      o.n = r.size();
      o.h = HashResults(r, 0);
      break;
    }
  }
  return o;
}

// An unrelated modeler that is used in between.
struct Noise {
  StrokeModeler m;
  unsigned n = 0;
  double t = 0;
  std::vector<Result> r;
  void Step() {
    ++n;
    if (n % 37 == 1) { (void)m.Reset(Params(false, 1 + n % 8)); t = n % 5; }
    Input i;
    i.event_type = n % 37 == 2 ? Input::EventType::kDown : n % 37 == 30 ? Input::EventType::kUp : Input::EventType::kMove;
    i.position = {static_cast<float>(n % 11), static_cast<float>(n % 7)};
    t += (n % 3) / 64.;
    i.time = Time(t);
    i.pressure = .25f * (n % 4);
    i.tilt = n % 41 == 3 ? -1 : .3f;
    i.orientation = n % 6;
    r.clear();
    (void)m.Update(i, r);
    if (n % 3 == 0) (void)m.Predict(r);
    if (n % 5 == 0) m.Save();
    if (n % 13 == 0) m.Restore();
  }
};
}  // namespace

int main(int argc, char** argv) {
  std::FILE* in = std::fopen(argv[1], "r");
  if (!in) return 3;
  std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  std::unordered_map<uint64_t, Outcome> seen;
  Noise noise;
  std::unique_ptr<StrokeModeler> m;
  std::vector<Op> ops;
  std::vector<Result> acc;
  std::string name;
  long nops = 0, nseq = 0, nref = 0, nbad = 0, nres = 0;
  char* line = nullptr;
  size_t cap = 0;
  ssize_t len;
  while ((len = getline(&line, &cap, in)) > 0) {
    auto tok = Split(std::string(line, len));
    if (tok.empty() || tok[0][0] == '#') continue;
    if (tok[0] == "N") {
      name = tok[1];
      m = std::make_unique<StrokeModeler>();
      ops.clear();
      acc.clear();
      acc.shrink_to_fit();
      ++nseq;
      continue;
    }
    Op op;
    op.kind = tok[0][0];
    size_t k = 1;
    if (op.kind == 'I') {
      const std::string& e = tok[1];
      op.in.event_type = e == "D"   ? Input::EventType::kDown
                         : e == "M" ? Input::EventType::kMove
                         : e == "U" ? Input::EventType::kUp
                                    : static_cast<Input::EventType>(e == "X" ? 7 : e == "Y" ? 3 : -1);
      op.in.position = {I(tok[2]) / 64.f, I(tok[3]) / 64.f};
      op.in.time = Time(I(tok[4]) / 1048576.);
      const float* s = kStylus[I(tok[5])];
      op.in.pressure = s[0];
      op.in.tilt = s[1];
      op.in.orientation = s[2];
      const char where = tok[6][0], what = tok[6].size() > 1 ? tok[6][1] : 0;
      const float v = what == 'n' ? kNan : what == 'p' ? kInf : -kInf;
      if (where == 'x') op.in.position.x = v;
      if (where == 'y') op.in.position.y = v;
      if (where == 't') op.in.time = Time(v);
      k = 7;
    } else if (op.kind == 'P' || op.kind == 'B') {
      op.k = I(tok[1]);
      k = 2;
    }
    for (size_t a = 0; a <= tok[k].size();) {
      size_t b = std::min(tok[k].find(',', a), tok[k].size());
      op.st.insert(tok[k].substr(a, b - a));
      a = b + 1;
    }
    op.cfg = I(tok[k + 1]);
    int n = I(tok[k + 2]);
    for (int j = 0; j < n; ++j) op.base.push_back(I(tok[k + 3 + j]));
    ops.push_back(op);
    ++nops;

    if (acc.size() > 600) acc.erase(acc.begin(), acc.begin() + 500);
    Outcome got = Call(*m, op, acc);
    nres += got.n;
    noise.Step();

    std::string kinds = got.flags;
    if (!op.st.count(got.st)) kinds += " status";
    Outcome want = got;
    if (op.kind == 'I' || op.kind == 'Q' || op.kind == 'R' || op.kind == 'P' || op.kind == 'B') {
      uint64_t key = Mix(Mix(op.kind, op.k), op.cfg);
      for (int b : op.base) key = Mix(key, HashInput(ops[b - 1].in));
      if (op.kind == 'I') key = Mix(key, HashInput(op.in));
      auto it = seen.find(key);
      if (it == seen.end()) {
        // A new modeler with nothing but the canonical history.
        StrokeModeler ref;
        std::vector<Result> racc;
        std::string bad;
        if (op.cfg && !ref.Reset(Params(false, op.cfg)).ok()) bad = " refreset";
        for (int b : op.base)
          if (!ref.Update(ops[b - 1].in, racc).ok()) bad = " refinput";
        racc.clear();
        want = Call(ref, op, racc);
        want.flags = bad;
        seen.emplace(key, want);
        ++nref;
      } else {
        want = it->second;
      }
      kinds += want.flags;
      if (want.st != got.st) kinds += " refstatus";
      if (want.h != got.h || want.n != got.n) kinds += " diff";
    }
    if (!kinds.empty() && ++nbad <= 200) {
      std::printf("BAD {\"n\":\"%s\",\"k\":%zu,\"op\":\"%c\",\"e\":\"%s\",\"kinds\":\"%s\",\"got\":\"%s\",\"ref\":\"%s\",\"gotn\":%zu,\"refn\":%zu}\n",
                  name.c_str(), ops.size(), op.kind, op.kind == 'I' ? tok[1].c_str() : "", kinds.c_str() + 1, got.st.c_str(),
                  want.st.c_str(), got.n, want.n);
    }
  }
  m.reset();
  std::printf("DONE {\"ops\":%ld,\"seqs\":%ld,\"refs\":%ld,\"bad\":%ld,\"results\":%ld}\n", nops, nseq, nref, nbad, nres);
  return 0;
}
