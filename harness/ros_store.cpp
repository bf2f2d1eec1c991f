// A directory of calibration data: saved, damaged by hand, loaded; inside a scratch directory of this case.
#include "hcommon.h"
#include <rct_ros_tools/data_set.h>
#include <rct_ros_tools/parameter_loaders.h>
#include <rct_ros_tools/exceptions.h>
#include <ros/console.h>
#include "ros_scratch.h"
#include <fstream>
#include <unistd.h>
#include <csignal>
#include <sys/resource.h>

namespace
{
void put(const fs::path& p, const std::string& text)
{
  boost::system::error_code e;
  fs::remove_all(p, e);
  fs::create_directories(p.parent_path(), e);
  std::ofstream(p.string()) << text;
}
// No file grows beyond a number of bytes: what a full disk does to a program
struct Room
{
  rlimit before{};
  explicit Room(long bytes)
  {
    getrlimit(RLIMIT_FSIZE, &before);
    if (bytes <= 0) return;
    std::signal(SIGXFSZ, SIG_IGN);
    rlimit now = before;
    now.rlim_cur = bytes;
    setrlimit(RLIMIT_FSIZE, &now);
  }
  ~Room() { setrlimit(RLIMIT_FSIZE, &before); }
};
}  // namespace

static Reg r_store("store", [](const json& c) {
  Scratch s;
  json steps = json::array();
  for (const auto& st : c["steps"])
  {
    const std::string what = st["do"];
    json o = json::object();
    ros_stub::log().clear();
    try
    {
      if (what == "save")
      {
        rct_ros_tools::ExtrinsicDataSet d;
        for (const auto& p : st["images"]) d.images.push_back(picture(p));
        for (const auto& p : st["poses"]) d.tool_poses.push_back(pose(p));
        Room room(integer(st["room"]));
        o["ok"] = rct_ros_tools::saveToDirectory(st["path"], d);
      }
      else if (what == "load")
      {
        const std::string dir = st.value("cd", std::string());
        if (!dir.empty()) fs::current_path(s.root / dir);
        boost::optional<rct_ros_tools::ExtrinsicDataSet> d;
        try { d = rct_ros_tools::parseFromFile(st["absolute"].get<bool>() ? (s.root / st["path"].get<std::string>()).string() : st["path"].get<std::string>()); }
        catch (...) { fs::current_path(s.root); throw; }
        fs::current_path(s.root);
        o["ok"] = static_cast<bool>(d);
        if (d)
        {
          o["images"] = json::array();
          o["poses"] = json::array();
          for (const auto& m : d->images) o["images"].push_back(whichPicture(m, c["pictures"]));
          for (const auto& p : d->tool_poses) o["poses"].push_back(out(p));
        }
      }
      else if (what == "remove") { boost::system::error_code e; fs::remove_all(s.root / st["file"].get<std::string>(), e); }
      else if (what == "write") put(s.root / st["file"].get<std::string>(), st["text"]);
      else if (what == "mkdir") { boost::system::error_code e; const fs::path p = s.root / st["file"].get<std::string>(); fs::remove_all(p, e); fs::create_directories(p / "keep", e); }
    }
    catch (const std::exception& e) { o = json{ { "ok", false }, { "thrown", e.what() } }; }
    int warned = 0;
    for (const auto& m : ros_stub::log()) warned += m.level == 'W' || m.level == 'E' || m.level == 'F';
    o["warned"] = warned;
    if (!o.contains("ok")) o["ok"] = true;
    steps.push_back(o);
  }
  return json{ { "steps", steps } };
});
