#include <signal.h>
#include <unistd.h>

#include <exception>
#include <iostream>

#include "core.hpp"

namespace mon {
std::map<std::string, CheckDef>& registry() {
  static std::map<std::string, CheckDef> r;
  return r;
}
}  // namespace mon
using namespace mon;

struct NullBuf : std::streambuf {  // no state: safe to write to from any thread
  int_type overflow(int_type c) override { return traits_type::not_eof(c); }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
static volatile long g_case = -1;
static char g_buf[128];
static int g_fd = 2;
static void onAlarm(int) {
  int n = snprintf(g_buf, sizeof g_buf, "HANG %ld\n", (long)g_case);
  (void)!write(g_fd, g_buf, n);
  _exit(77);
}

int main(int argc, char** argv) {
  Ctx c;
  long shard = 0, nshards = 1, only = -1, cases = -1, hang = 120;
  std::string marker, out;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--check") c.property = val();
    else if (a == "--seed") c.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--shard") shard = atol(val().c_str());
    else if (a == "--nshards") nshards = atol(val().c_str());
    else if (a == "--case") { only = atol(val().c_str()); c.verbose = true; }
    else if (a == "--cases") cases = atol(val().c_str());
    else if (a == "--marker") marker = val();
    else if (a == "--out") out = val();
    else if (a == "--hang") hang = atol(val().c_str());
    else if (a == "--list") { for (auto& kv : registry()) std::cout << kv.first << "\n"; return 0; }
  }
  auto it = registry().find(c.property);
  if (it == registry().end()) { fprintf(stderr, "no check %s\n", c.property.c_str()); return 3; }
  if (cases < 0) cases = c.thorough ? it->second.thorough : it->second.quick;
  // the library reports some refusals on stdout: keep ours clean
  NullBuf devnull;
  std::streambuf* old = std::cout.rdbuf(&devnull);
  signal(SIGALRM, onAlarm);
  FILE* mf = marker.empty() ? nullptr : fopen(marker.c_str(), "w");
  // each seed has streams of its own
  uint64_t stream = hashMix(hashStr(c.property), c.seed);
  if (c.seed != 1) stream = Rng(stream).next();
  for (long k = (only >= 0 ? only : shard); k < (only >= 0 ? only + 1 : cases); k += nshards) {
    g_case = k;
    if (mf) { rewind(mf); fprintf(mf, "%-12ld\n", k); fflush(mf); }
    c.caseId = k;
    c.caseFailed = false;
    c.caseDesc.clear();
    c.rng = Rng(hashMix(stream, (uint64_t)k));
    if (hang > 0) alarm((unsigned)hang);
    c.evaluations++;
    try {
      it->second.fn(c);
    } catch (const std::exception& e) {
      c.fail("unexpected-exception", std::string("exception: ") + e.what());
    } catch (...) {
      c.fail("unexpected-exception", "unknown exception");
    }
    alarm(0);
  }
  std::cout.rdbuf(old);
  std::ostringstream o;
  o.precision(17);
  o << "{\"evaluations\":" << c.evaluations << ",\"events\":{";
  bool f = true;
  for (auto& kv : c.events) { o << (f ? "" : ",") << "\"" << jsonEsc(kv.first) << "\":" << kv.second; f = false; }
  o << "},\"maxima\":{";
  f = true;
  for (auto& kv : c.maxima) {
    double v = kv.second;
    if (!(v == v) || v > 1e300) v = 1e300;
    o << (f ? "" : ",") << "\"" << jsonEsc(kv.first) << "\":" << v; f = false;
  }
  o << "},\"distinct\":[";
  f = true;
  for (uint64_t h : c.distinct) { o << (f ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; f = false; }
  o << "],\"samples\":[";
  f = true;
  for (auto& s : c.samples) { o << (f ? "" : ",") << "\"" << jsonEsc(s) << "\""; f = false; }
  o << "],\"violations\":[";
  f = true;
  for (auto& v : c.violations) {
    o << (f ? "" : ",") << "{\"case\":" << v.caseId << ",\"key\":\"" << jsonEsc(v.key) << "\",\"msg\":\"" << jsonEsc(v.msg) << "\"}";
    f = false;
  }
  o << "]}\n";
  if (out.empty()) std::cout << o.str();
  else {
    FILE* fo = fopen(out.c_str(), "w");
    if (!fo) return 4;
    fputs(o.str().c_str(), fo);
    fclose(fo);
  }
  return c.violations.empty() ? 0 : 1;
}
