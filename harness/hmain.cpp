// Runs every case of a file in a child process of its own and writes one trace line per case.
#include "hcommon.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fcntl.h>
#include <fstream>
#include <mutex>
#include <iostream>
#include <poll.h>
#include <quadmath.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <typeinfo>
#include <cxxabi.h>
#include <chrono>

double num(const std::string& s)
{
  const auto k = s.find('/');
  if (k == std::string::npos) return std::strtod(s.c_str(), nullptr);
  const std::string n = s.substr(0, k), d = s.substr(k + 1);
  return static_cast<double>(strtoflt128(n.c_str(), nullptr) / strtoflt128(d.c_str(), nullptr));
}
double num(const json& j) { return j.is_string() ? num(j.get<std::string>()) : j.get<double>(); }
int integer(const json& j) { return j.is_string() ? std::stoi(j.get<std::string>()) : j.get<int>(); }
std::string out(double v)
{
  if (std::isnan(v)) return "nan";
  if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
  char b[64];
  std::snprintf(b, sizeof b, "%a", v);
  return b;
}
json out(const Eigen::MatrixXd& m)
{
  json r = json::array();
  for (int i = 0; i < m.rows(); ++i)
  {
    json row = json::array();
    for (int k = 0; k < m.cols(); ++k) row.push_back(out(m(i, k)));
    r.push_back(row);
  }
  return r;
}
json outv(const Eigen::VectorXd& v)
{
  json r = json::array();
  for (int i = 0; i < v.size(); ++i) r.push_back(out(v(i)));
  return r;
}
json out(const Iso& p)
{
  json r = json::array();
  for (int i = 0; i < 3; ++i)
    for (int k = 0; k < 4; ++k) r.push_back(out(p.matrix()(i, k)));
  return r;
}
Iso pose(const json& j)
{
  Eigen::Vector4d q;
  for (int i = 0; i < 4; ++i) q(i) = num(j["q"][i]);
  Eigen::Quaterniond u(q(0), q(1), q(2), q(3));
  u.normalize();
  Iso p = Iso::Identity();
  p.linear() = u.toRotationMatrix();
  p.translation() = vec3(j["t"]);
  return p;
}
Eigen::VectorXd vec(const json& j)
{
  Eigen::VectorXd v(j.size());
  for (std::size_t i = 0; i < j.size(); ++i) v(i) = num(j[i]);
  return v;
}
Eigen::Vector2d vec2(const json& j) { return Eigen::Vector2d(num(j[0]), num(j[1])); }
Eigen::Vector3d vec3(const json& j) { return Eigen::Vector3d(num(j[0]), num(j[1]), num(j[2])); }
rct_optimizations::CameraIntrinsics intr(const json& j)
{
  rct_optimizations::CameraIntrinsics k;
  k.fx() = num(j[0]); k.fy() = num(j[1]); k.cx() = num(j[2]); k.cy() = num(j[3]);
  return k;
}
rct_optimizations::Correspondence2D3D::Set corr2(const json& feats)
{
  rct_optimizations::Correspondence2D3D::Set s;
  for (const auto& f : feats) s.emplace_back(vec2(f["o"]), vec3(f["p"]));
  return s;
}
rct_optimizations::Correspondence3D3D::Set corr3(const json& feats)
{
  rct_optimizations::Correspondence3D3D::Set s;
  for (const auto& f : feats) s.emplace_back(vec3(f["o"]), vec3(f["p"]));
  return s;
}
json out(const rct_optimizations::CovarianceResult& c)
{
  json r;
  auto list = [](const std::vector<rct_optimizations::NamedParam>& v, bool pair) {
    json l = json::array();
    for (const auto& p : v)
      l.push_back({ { "a", p.names.first }, { "b", pair ? p.names.second : std::string() }, { "v", out(p.value) } });
    return l;
  };
  r["sd"] = list(c.standard_deviations, false);
  r["cov"] = list(c.covariances, true);
  r["corr"] = list(c.correlation_coeffs, true);
  r["covm"] = out(c.covariance_matrix);
  r["corrm"] = out(c.correlation_matrix);
  return r;
}

std::map<std::string, Op>& ops() { static std::map<std::string, Op> m; return m; }
Reg::Reg(const char* name, Op op) { ops()[name] = op; }

static std::string typeName(const std::exception& e)
{
  int st = 0;
  char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
  std::string r = n ? n : typeid(e).name();
  std::free(n);
  return r;
}

bool g_share = false;
thread_local int t_lane = 0;
std::shared_ptr<void> sharedObject(const std::string& key, const std::function<std::shared_ptr<void>()>& make)
{
  if (!g_share) return make();
  static std::mutex m;
  static std::map<std::string, std::shared_ptr<void>> known;
  std::lock_guard<std::mutex> l(m);
  auto& p = known[key];
  if (!p) p = make();
  return p;
}
json perform(const json& c)
{
  json o;
  solveRecords().clear();
  g_force_iterations = -1;
  g_force_from_blocks = 0;
  g_cut_sizes.clear();
  try
  {
    auto it = ops().find(c["op"].get<std::string>());
    if (it == ops().end()) { o["status"] = "noop"; return o; }
    o = it->second(c);
    if (!o.contains("status")) o["status"] = "ok";
  }
  catch (const std::exception& e)
  {
    o = json{ { "status", "throw" }, { "type", typeName(e) }, { "what", e.what() } };
  }
  catch (...)
  {
    o = json{ { "status", "throw" }, { "type", "?" }, { "what", "?" } };
  }
  if (!o.contains("solves"))
  {
    o["solves"] = json::array();
    for (const auto& s : solveRecords())
      o["solves"].push_back({ { "term", s.termination }, { "nres", s.num_residuals }, { "init", out(s.initial) },
                              { "final", out(s.final) }, { "iters", s.iterations } });
  }
  return o;
}

int main(int argc, char** argv)
{
  if (argc < 3) { std::cerr << "usage: harness CASES.ndjson TRACE.ndjson [timeout_s]\n"; return 2; }
  const int limit = argc > 3 ? std::atoi(argv[3]) : 60;
  std::signal(SIGPIPE, SIG_IGN);
  std::ifstream in(argv[1]);
  std::ofstream tr(argv[2]);
  std::string line;
  // cases that this run has no time left for are passed over
  const double budget = getenv("VF_BUDGET") ? std::atof(getenv("VF_BUDGET")) : 1e9;
  const auto begin = std::chrono::steady_clock::now();
  while (std::getline(in, line))
  {
    if (line.empty()) continue;
    const json c = json::parse(line);
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - begin).count() > budget)
    {
      tr << json{ { "id", c["id"] }, { "op", c["op"] }, { "in", c }, { "out", { { "status", "skipped" } } } }.dump() << "\n";
      continue;
    }
    int fd[2];
    if (pipe(fd)) return 2;
    const pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0)
    {
      close(fd[0]);
      setpgid(0, 0);
      const rlimit nocore{ 0, 0 };
      setrlimit(RLIMIT_CORE, &nocore);
      const int nul = open("/dev/null", O_RDWR);
      dup2(nul, 1);
      if (!getenv("VF_STDERR")) dup2(nul, 2);
      const std::string s = perform(c).dump(-1, ' ', true, json::error_handler_t::replace);
      std::size_t k = 0;
      while (k < s.size())
      {
        const ssize_t w = write(fd[1], s.data() + k, s.size() - k);
        if (w <= 0) break;
        k += w;
      }
      _exit(0);
    }
    close(fd[1]);
    std::string got;
    bool timeout = false;
    const auto end = std::chrono::steady_clock::now() + std::chrono::seconds(limit);
    for (;;)
    {
      const long left = std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count();
      if (left <= 0) { timeout = true; break; }
      pollfd p{ fd[0], POLLIN, 0 };
      const int r = poll(&p, 1, left);
      if (r < 0) continue;
      if (r == 0) { timeout = true; break; }
      char b[65536];
      const ssize_t n = read(fd[0], b, sizeof b);
      if (n <= 0) break;
      got.append(b, n);
    }
    close(fd[0]);
    if (timeout) kill(-pid, SIGKILL), kill(pid, SIGKILL);
    int st = 0;
    waitpid(pid, &st, 0);
    json o;
    if (timeout) o = { { "status", "timeout" } };
    else if (WIFSIGNALED(st)) o = { { "status", "crash" }, { "signal", WTERMSIG(st) } };
    else
    {
      o = json::parse(got, nullptr, false);
      if (o.is_discarded()) o = { { "status", "crash" }, { "signal", 0 } };
    }
    json t = { { "id", c["id"] }, { "op", c["op"] }, { "in", c }, { "out", o } };
    tr << t.dump() << "\n";
  }
  return 0;
}
