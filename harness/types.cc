// Evaluates the operations of the public value types on given values; one JSON line per input line.
//
//   V ax ay bx by s     vectors
//   D a b s             durations and times
//   E e x y t pr ti or  e x y t pr ti or      two inputs
//   R px py vx vy ax ay t pr ti or  (twice)   two results
//   K                   default values
#include "common.h"
#include <sstream>
#include "absl/strings/str_format.h"
using namespace vf;

static std::string Esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    if (static_cast<unsigned char>(c) >= 32) o += c;
  }
  return o;
}
// The numbers occurring in a text.
static void Numbers(Json& j, const char* key, const std::string& s, size_t from = 0, size_t to = std::string::npos) {
  j.Key(key);
  j.s += "[";
  bool first = true;
  size_t i = from;
  while (i < s.size() && i < to) {
    bool inword = i > 0 && (std::isalnum(static_cast<unsigned char>(s[i - 1])) || s[i - 1] == '_');
    char* end = nullptr;
    double v = 0;
    if (!inword && !std::isspace(static_cast<unsigned char>(s[i]))) v = std::strtod(s.c_str() + i, &end);
    if (end && end != s.c_str() + i && !std::isalpha(static_cast<unsigned char>(*end))) {
      if (!first) j.s += ",";
      j.Num(v);
      first = false;
      i = end - s.c_str();
    } else {
      ++i;
    }
  }
  j.s += "]";
}
// The numbers that follow each label, up to the next letter of a label; nothing if a label does not occur.
static void Labels(Json& j, const std::string& s, const std::vector<std::string>& labels) {
  j.Key("lab");
  j.Open();
  for (const auto& l : labels) {
    size_t at = s.find(l + ":");
    if (at == std::string::npos) continue;
    size_t end = std::string::npos;
    for (const auto& k : labels) {
      size_t b = s.find(k + ":");
      if (b != std::string::npos && b > at && b < end) end = b;
    }
    Numbers(j, l.c_str(), s, at + l.size(), end);
  }
  j.Close();
}
template <typename T>
void Format(Json& j, const T& v) {
  std::string f = ToFormattedString(v);
  std::ostringstream os;
  os << v;
  j.KStr("fmt", Esc(f));
  j.KBool("stream", os.str() == f);
  j.KBool("absl", absl::StrFormat("%v", v) == f);
  Numbers(j, "nums", f);
}
template <typename T>
void Compare(Json& j, T a, T b) {
  j.KBool("eq", a == b);
  j.KBool("ne", a != b);
  j.KBool("lt", a < b);
  j.KBool("gt", a > b);
  j.KBool("le", a <= b);
  j.KBool("ge", a >= b);
}
static void Angle(Json& j, const char* k, Vec2 a, Vec2 b) {
  auto r = a.AbsoluteAngleTo(b);
  j.Key(k);
  j.Open();
  j.KStr("st", Status(r.status()));
  j.KNum("v", r.ok() ? *r : 0);
  j.Close();
}
static Result ParseResult(const std::vector<std::string>& t, size_t i) {
  Result r;
  r.position = {F(t[i]), F(t[i + 1])};
  r.velocity = {F(t[i + 2]), F(t[i + 3])};
  r.acceleration = {F(t[i + 4]), F(t[i + 5])};
  r.time = Time(D(t[i + 6]));
  r.pressure = F(t[i + 7]);
  r.tilt = F(t[i + 8]);
  r.orientation = F(t[i + 9]);
  return r;
}
static void InputFields(Json& j, const char* k, const Input& i) {
  j.Key(k);
  j.Open();
  j.KInt("e", static_cast<int>(i.event_type));
  j.V2("p", i.position);
  j.KNum("t", i.time.Value());
  j.KNum("pr", i.pressure);
  j.KNum("ti", i.tilt);
  j.KNum("or", i.orientation);
  j.Close();
}
static void ResultFields(Json& j, const char* k, const Result& r) {
  j.Key(k);
  j.Open();
  j.V2("p", r.position);
  j.V2("v", r.velocity);
  j.V2("a", r.acceleration);
  j.KNum("t", r.time.Value());
  j.KNum("pr", r.pressure);
  j.KNum("ti", r.tilt);
  j.KNum("or", r.orientation);
  j.Close();
}

int main(int argc, char** argv) {
  std::FILE* in = argc > 1 ? std::fopen(argv[1], "r") : stdin;
  std::FILE* out = argc > 2 ? std::fopen(argv[2], "w") : stdout;
  if (!in || !out) return 3;
  std::setvbuf(out, nullptr, _IOLBF, 1 << 16);
  char* line = nullptr;
  size_t cap = 0;
  ssize_t len;
  long n = 0;
  while ((len = getline(&line, &cap, in)) > 0) {
    auto tok = Split(std::string(line, len));
    if (tok.empty() || tok[0][0] == '#') continue;
    Json j;
    j.Open();
    j.KStr("o", tok[0]);
    switch (tok[0][0]) {
      case 'N': j.KStr("n", tok[1]); break;
      case 'V': {
        Vec2 a{F(tok[1]), F(tok[2])}, b{F(tok[3]), F(tok[4])}, c;
        float s = F(tok[5]);
        j.V2("a", a);
        j.V2("b", b);
        j.KNum("s", s);
        j.V2("add", a + b);
        j.V2("sub", a - b);
        j.V2("mul", s * a);
        j.V2("mulr", a * s);
        j.V2("div", a / s);
        // Compound forms: the value of the operand afterwards, and whether a reference to it came back.
        bool ref = true;
        c = a; ref &= &(c += b) == &c; j.V2("cadd", c);
        c = a; ref &= &(c -= b) == &c; j.V2("csub", c);
        c = a; ref &= &(c *= s) == &c; j.V2("cmul", c);
        c = a; ref &= &(c /= s) == &c; j.V2("cdiv", c);
        c = a; c += c; j.V2("cself", c);
        c = a; c -= c; j.V2("cselfsub", c);
        c = a; c *= c.x; j.V2("cselfmul", c);
        c = a; c /= c.x; j.V2("cselfdiv", c);
        j.KBool("ref", ref);
        j.KBool("eq", a == b);
        j.KBool("ne", a != b);
        j.KBool("eqs", a == a);
        j.KNum("dot", Vec2::DotProduct(a, b));
        j.KNum("mag", a.Magnitude());
        j.KBool("fin", a.IsFinite());
        Angle(j, "ang", a, b);
        Angle(j, "gna", b, a);
        Format(j, a);
        break;
      }
      case 'D': {
        double a = D(tok[1]), b = D(tok[2]), s = D(tok[3]);
        Duration x(a), y(b), z;
        Time t(a), u(b), w;
        j.KNum("a", a);
        j.KNum("b", b);
        j.KNum("s", s);
        j.KNum("val", x.Value());
        j.KNum("tval", t.Value());
        j.KNum("add", (x + y).Value());
        j.KNum("sub", (x - y).Value());
        j.KNum("mul", (x * s).Value());
        j.KNum("mulr", (s * x).Value());
        j.KNum("div", (x / s).Value());
        bool ref = true;
        z = x; ref &= &(z += y) == &z; j.KNum("cadd", z.Value());
        z = x; ref &= &(z -= y) == &z; j.KNum("csub", z.Value());
        z = x; ref &= &(z *= s) == &z; j.KNum("cmul", z.Value());
        z = x; ref &= &(z /= s) == &z; j.KNum("cdiv", z.Value());
        z = x; z += z; j.KNum("cself", z.Value());
        j.KNum("tadd", (t + y).Value());
        j.KNum("taddr", (y + t).Value());
        j.KNum("tsub", (t - y).Value());
        j.KNum("tdiff", (t - u).Value());
        w = t; ref &= &(w += y) == &w; j.KNum("ctadd", w.Value());
        w = t; ref &= &(w -= y) == &w; j.KNum("ctsub", w.Value());
        j.KBool("ref", ref);
        j.Key("dc"); j.Open(); Compare(j, x, y); j.Close();
        j.Key("tc"); j.Open(); Compare(j, t, u); j.Close();
        j.Key("df"); j.Open(); Format(j, x); j.Close();
        j.Key("tf"); j.Open(); Format(j, t); j.Close();
        break;
      }
      case 'E': {
        Input a = ParseInput(tok, 1), b = ParseInput(tok, 8);
        InputFields(j, "x", a);
        InputFields(j, "y", b);
        j.KBool("eq", a == b);
        j.KBool("ne", a != b);
        j.KStr("val", Status(ValidateInput(a)));
        Format(j, a);
        j.KStr("ef", Esc(ToFormattedString(a.event_type)));
        std::ostringstream os;
        os << a.event_type;
        j.KBool("es", os.str() == ToFormattedString(a.event_type));
        j.KBool("ein", ToFormattedString(a).find(ToFormattedString(a.event_type)) != std::string::npos);
        j.KBool("esame", ToFormattedString(a.event_type) == ToFormattedString(b.event_type));
        Labels(j, ToFormattedString(a), {"pos", "time", "pressure", "tilt", "orientation"});
        break;
      }
      case 'R': {
        Result a = ParseResult(tok, 1), b = ParseResult(tok, 11);
        ResultFields(j, "x", a);
        ResultFields(j, "y", b);
        j.KBool("eq", a == b);
        j.KBool("ne", a != b);
        Format(j, a);
        Labels(j, ToFormattedString(a), {"pos", "vel", "acc", "time", "pressure", "tilt", "orientation"});
        break;
      }
      case 'K': {
        Input i{};
        Result r;
        InputFields(j, "x", i);
        ResultFields(j, "y", r);
        j.V2("vec", Vec2());
        j.KNum("dur", Duration().Value());
        j.KNum("time", Time().Value());
        break;
      }
      default: return 4;
    }
    j.Close();
    j.s += "\n";
    std::fwrite(j.s.data(), 1, j.s.size(), out);
    ++n;
  }
  std::free(line);
  std::fprintf(out, "{\"o\":\"Z\",\"n\":\"%ld\"}\n", n);
  std::fclose(out);
  return 0;
}
