// Histories: calls made one after the other and at the same time in one process.
// {"op":"history","lanes":[[n,...],...]}: every lane is a thread that makes calls number n of the pool (VF_POOL).
#include "hcommon.h"
#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <fstream>
#include <mutex>
#include <thread>
static std::string hashed(const std::string& s)
{
  unsigned long long h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return std::to_string(h);
}
// an answer as a list of places and what stands there; k: "n" number (exact), "t" anything else
static void flatten(const json& v, const std::string& path, json& into)
{
  if (v.is_object()) { into.push_back({ { "p", path }, { "k", "t" }, { "v", "{" + std::to_string(v.size()) } }); for (const auto& i : v.items()) flatten(i.value(), path + "." + i.key(), into); return; }
  if (v.is_array()) { into.push_back({ { "p", path }, { "k", "t" }, { "v", "[" + std::to_string(v.size()) } }); for (std::size_t i = 0; i < v.size(); ++i) flatten(v[i], path + "." + std::to_string(i), into); return; }
  const std::string s = v.is_string() ? v.get<std::string>() : v.dump();
  const std::size_t d = s.size() && s[0] == '-' ? 1 : 0;
  const bool number = s.compare(d, 2, "0x") == 0 && s.find_first_not_of("0123456789abcdefx.p+-", d) == std::string::npos && s.find('p') != std::string::npos;
  into.push_back({ { "p", path }, { "k", number ? "n" : "t" }, { "v", s } });
}
static Reg r1("history", [](const json& c) {
  std::map<int, json> pool;
  for (const auto& l : c["lanes"]) for (const auto& n : l) pool[n["n"].get<int>()] = json();
  std::ifstream in(std::getenv("VF_POOL"));
  std::string line;
  for (int k = 0; std::getline(in, line); ++k)
    if (pool.count(k)) pool[k] = json::parse(line);
  // the answers of the calls made alone
  std::map<int, json> alone;
  if (std::getenv("VF_ALONE"))
  {
    std::ifstream was(std::getenv("VF_ALONE"));
    for (int k = 0; std::getline(was, line); ++k)
      if (pool.count(k)) alone[k] = json::parse(line);
  }
  g_share = c["share"];
  std::mutex m;
  json ends = json::array();
  std::atomic<int> ready{ 0 };
  const int lanes = c["lanes"].size();
  auto lane = [&](int i) {
    t_lane = i;
    ++ready;
    while (ready < lanes) std::this_thread::yield();
    for (const auto& n : c["lanes"][i])
    {
      const json& call = pool[n["n"].get<int>()];
      json got = perform(call);
      got.erase("order");                // of blocks in memory: an observation of the harness, not part of the answer
      // (the kinematic calibration computes covariances in the order in which its blocks lie in memory)
      if (call["op"] == "kincal") got.erase("cov");
      const std::string s = got.dump(-1, ' ', true, json::error_handler_t::replace);
      std::lock_guard<std::mutex> l(m);
      json e{ { "lane", i + 1 }, { "n", n["n"] }, { "d", hashed(s) } };
      e["same"] = true;
      if (alone.empty()) { e["got"] = json::array(); flatten(got, "", e["got"]); }
      else
      {
        // letter for letter, or else both answers, for the specification to tell
        const json& w = alone.at(n["n"].get<int>());
        if (w["d"] != e["d"]) { e["same"] = false; e["was"] = w["got"]; e["got"] = json::array(); flatten(got, "", e["got"]); }
      }
      ends.push_back(e);
    }
  };
  std::vector<std::thread> t;
  for (int i = 1; i < lanes; ++i) t.emplace_back(lane, i);
  if (lanes) lane(0);
  for (auto& x : t) x.join();
  solveRecords().clear();
  return json{ { "ends", ends } };
});
