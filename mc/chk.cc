// chk run <check> <tier> <libicbd.so> <scenario#> <workers> <outfile>
// chk count <check> <tier>
// chk replay <check> <tier> <libicbd.so> <scenario#> <tracefile>     (exit 1 if the violation is reproduced)
#include "sys.hh"
#include "explore.hh"
#include <map>
#include <cmath>
#include <fstream>
struct Reg { const char *id; ScenFn f; int order; };
static std::vector<Reg> &reg() { static std::vector<Reg> r; return r; }
Registrar::Registrar(const char *id, ScenFn f, int order) { reg().push_back({id, f, order}); }
static std::vector<Scenario> scenarios(const std::string &id, bool T) {
  std::vector<Reg> v; for (auto &r : reg()) if (id == r.id) v.push_back(r);
  std::stable_sort(v.begin(), v.end(), [](const Reg &a, const Reg &b) { return a.order < b.order; });
  std::vector<Scenario> o; for (auto &r : v) for (auto &s : r.f(T)) o.push_back(s);
  return o;
}
std::vector<Scenario> scenarios_of(const std::string &id, bool T) { return scenarios(id, T); }
static std::string jq(const std::string &s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
int main(int argc, char **argv) {
  if (argc < 4) return 3;
  std::string mode = argv[1], id = argv[2], tier = argv[3];
  std::vector<Scenario> sc = scenarios(id, tier == "thorough");
  if (sc.empty()) { fprintf(stderr, "no check %s\n", id.c_str()); return 3; }
  if (mode == "count") { printf("%zu\n", sc.size()); return 0; }
  if (!vos::load_image(argv[4])) return 3;
  vos::install_handlers();
  if (getenv("DEPTH_ADD")) for (auto &s : sc) if (s.depth) s.depth += atoi(getenv("DEPTH_ADD"));
  if (getenv("DEPTH_CAP")) for (auto &s : sc) if (s.depth > atoi(getenv("DEPTH_CAP"))) s.depth = atoi(getenv("DEPTH_CAP"));
  int k = atoi(argv[5]); if (k < 0 || k >= (int)sc.size()) return 3;
  std_env();
  std::unique_ptr<Sys> sys = sc[k].make();
  std::string e = sys->setup();
  if (getenv("TRANS_CAP") && sc[k].depth) while (sc[k].depth > 1 && pow(sys->nactions(), sc[k].depth) > atof(getenv("TRANS_CAP"))) sc[k].depth--;
  if (mode == "run") {
    int workers = atoi(argv[6]);
    ex::Result r;
    if (e.empty()) {
      ex::Explorer<Sys> x(*sys, sc[k].depth, workers, getenv("BUDGET") ? atof(getenv("BUDGET")) : sc[k].budget, sc[k].table_bits);
      if (sc[k].depth == 0) { x.unbounded = true; x.depth = 2; }
      r = x.run();
    } else { r.violated = true; r.msg = "in setup: " + e; r.trace = ""; }
    std::ofstream o(argv[7]);
    o << "{\"scenario\":" << jq(sc[k].name) << ",\"depth\":" << sc[k].depth << ",\"states\":" << r.states << ",\"transitions\":" << r.transitions << ",\"revisits\":" << r.pruned
      << ",\"paths\":" << r.paths << ",\"observations\":" << r.obs << ",\"actions\":" << sys->nactions() << ",\"maxdepth\":" << r.maxdepth << ",\"complete\":" << (r.complete ? "true" : "false") << ",\"violated\":" << (r.violated ? "true" : "false")
      << ",\"msg\":" << jq(r.msg) << ",\"trace\":" << jq(r.trace) << ",\"secs\":" << r.secs << ",\"sample\":" << jq(sys->sample()) << ",\"table_full\":" << r.table_full << "}\n";
    return 0;
  }
  if (mode == "replay") {
    if (!e.empty()) { printf("violation in setup of scenario %s: %s\n", sc[k].name.c_str(), e.c_str()); return 1; }
    std::map<std::string, int> idx; for (int a = 0; a < sys->nactions() + sys->nprobes(); a++) idx[sys->name(a)] = a;
    std::ifstream f(argv[6]); std::string line; int n = 0;
    printf("scenario: %s\n", sc[k].name.c_str());
    while (std::getline(f, line)) {
      if (line.empty()) continue;
      if (!idx.count(line)) { printf("unknown action %s\n", line.c_str()); return 3; }
      int a = idx[line];
      if (!sys->enabled(a)) { printf("action %s not enabled\n", line.c_str()); return 3; }
      printf("%3d  %s\n", ++n, line.c_str());
      std::string v = sys->step(a);
      if (!v.empty()) { printf("VIOLATED: %s\n", v.c_str()); return 1; }
    }
    printf("no violation on this trace\n");
    return 0;
  }
  return 3;
}
