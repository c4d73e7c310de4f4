// U30: data file lookup, path conversion and command line options.
#include "../../mc/mc.h"
#include "../../mc/simox.h"
#include <VirtualRobot/RuntimeEnvironment.h>
#include <VirtualRobot/XML/BaseIO.h>
#include <cstdlib>
#include <fstream>
#include <limits.h>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;

struct Env : public RuntimeEnvironment
{
    static void reset(bool initialised)
    {
        processKeys.clear();
        dataPaths.clear();
        unrecognizedOptions.clear();
        keyValues.clear();
        pathInitialized = initialised;
    }
};
struct IO : public BaseIO
{
    using BaseIO::makeAbsolutePath;
    using BaseIO::makeRelativePath;
};
static std::string root()
{
    static std::string r;
    if (r.empty())
    {
        char b[PATH_MAX];
        r = realpath(mc::scratch().c_str(), b) ? b : mc::scratch();
    }
    return r;
}
static void wipe(const std::string& rel)
{
    // only below our own scratch directory
    std::string c = "find '" + root() + "/" + rel + "' -mindepth 1 -delete 2>/dev/null";
    if (system(c.c_str())) {}
}
static void dir(const std::string& d)
{
    mkdir((root() + "/" + d).c_str(), 0755);
}
static void file(const std::string& f, const std::string& c)
{
    std::ofstream o(f.c_str());
    o << c;
}
static std::string content(const std::string& f)
{
    std::ifstream in(f.c_str());
    std::ostringstream s;
    s << in.rdbuf();
    return s.str();
}
static bool isFile(const std::string& f)
{
    struct stat s;
    return stat(f.c_str(), &s) == 0 && S_ISREG(s.st_mode);
}
static void layout()
{
    static bool done = false;
    if (!done)
    {
        for (const char* d : {"cwd", "A", "B", "cwd/sub", "A/sub", "B/sub", "cwd/R", "cwd/R/sub", "S1", "S1/data", "S2", "S2/VirtualRobot", "S2/VirtualRobot/data"}) dir(d);
        if (symlink((root() + "/B").c_str(), (root() + "/linkB").c_str())) {}
        if (symlink((root() + "/nowhere").c_str(), (root() + "/dangling").c_str())) {}
        file(root() + "/plain", "x");
        done = true;
    }
    if (chdir((root() + "/cwd").c_str())) {}
    for (const char* v : {"SIMOX_DATA_PATH", "VIRTUAL_ROBOT_DATA_PATH", "Simox_DIR"}) unsetenv(v);
}
struct Reg
{
    std::string path;
    bool valid;
};
static std::vector<Reg> registrations()
{
    std::string R = root();
    return {{R + "/A", true}, {R + "/B", true}, {R + "/missing", false}, {"R", true}, {R + "/A/", true}, {R + "/linkB", true}, {R + "/plain", false}, {"", false}};
}
// the wanted names; the file lies in a place if its bit is set
static void lookup(mc::Run& r)
{
    layout();
    Env::reset(true);
    static const std::vector<std::string> names = {"f.xml", "sub/f.xml", "./f.xml", "sub/../f.xml"};
    std::string name = r.pick(names, "name"), bare = name.find("sub/f") == 0 ? name : "f.xml";
    static const std::vector<std::string> places = {"cwd", "A", "B", "cwd/R"};
    std::vector<int> kind(4);
    for (size_t i = 0; i < 4; i++)
    {
        std::string p = root() + "/" + places[i] + "/" + bare;
        unlink(p.c_str());
        rmdir(p.c_str());
    }
    for (size_t i = 0; i < 4; i++)
    {
        std::string p = root() + "/" + places[i] + "/" + bare;
        kind[i] = r.choose(3, "absent/file/directory");
        if (kind[i] == 1) file(p, "in " + places[i]);
        if (kind[i] == 2) mkdir(p.c_str(), 0755);
    }
    auto regs = registrations();
    int n = r.choose(r.thorough ? 4 : 3, "registrations");
    std::vector<std::string> order;
    for (int i = 0; i < n; i++)
    {
        const Reg& g = regs[(size_t)r.choose((int)regs.size(), "path")];
        r.step("add %s", g.path.c_str());
        bool ok = RuntimeEnvironment::addDataPath(g.path, true);
        r.check(ok == g.valid, ok ? "a path that is no directory is registered" : "a directory is not registered", "%s", g.path.c_str());
        if (ok) order.push_back(g.path);
    }
    r.check(RuntimeEnvironment::getDataPaths() == order, "the registered paths differ from the added ones", "%zu", order.size());
    // reference: the given path, then the data paths in order
    std::string want;
    if (isFile(name)) want = name;
    for (size_t i = 0; i < order.size() && want.empty(); i++)
        if (isFile(order[i] + "/" + name)) want = order[i] + "/" + name;
    std::string wantContent = want.empty() ? "" : content(want);
    std::string got = name;
    r.step("find %s", name.c_str());
    bool ok = RuntimeEnvironment::getDataFileAbsolute(got);
    r.compared();
    r.check(ok == !want.empty(), ok ? "a file that does not exist is found" : "an existing data file is not found", "%s -> %s, expected %s", name.c_str(), got.c_str(), want.c_str());
    if (ok)
    {
        r.check(!got.empty() && got[0] == '/', "the found file is not given as absolute path", "%s -> %s", name.c_str(), got.c_str());
        if (chdir("/")) {}
        r.check(content(got) == wantContent, "another file than that of the first path is found", "%s: '%s' instead of '%s'", got.c_str(), content(got).c_str(), wantContent.c_str());
        if (chdir((root() + "/cwd").c_str())) {}
        std::string again = got;
        r.check(RuntimeEnvironment::getDataFileAbsolute(again) && again == got, "an absolute path is not found as it is", "%s -> %s", got.c_str(), again.c_str());
    }
    else r.check(got == name, "a failed search changes the name", "%s -> %s", name.c_str(), got.c_str());
    // the option that names a file
    RuntimeEnvironment::addKeyValuePair("file", name);
    std::string std1 = root() + "/plain";
    std::string viaKey = RuntimeEnvironment::checkValidFileParameter("file", std1);
    r.check(viaKey == (ok ? got : std1), "a file option is not looked up, or the default is not used", "%s", viaKey.c_str());
    std::string viaDefault = RuntimeEnvironment::checkValidFileParameter("otherfile", name);
    r.check(viaDefault == (ok ? got : name), "the default file is not looked up", "%s", viaDefault.c_str());
    r.check(RuntimeEnvironment::checkValidFileParameter("otherfile", "").empty(), "no default file, but one is returned", "%s", name.c_str());
    mc::Hash h;
    r.state(h.s(got.substr(0, root().size()) == root() ? got.substr(root().size()) : got).i(ok));
    r.outcome(ok ? "found" : "not found");
}
static void oddNames(mc::Run& r)
{
    layout();
    Env::reset(true);
    RuntimeEnvironment::addDataPath(root() + "/A", true);
    file(root() + "/A/g.xml", "g");
    static const std::vector<std::string> names = {"", ".", "..", "/", "sub", "A", "g.xml/", "g.xml/x", "../A/g.xml", "../A", "g.xml", "/g.xml", "missing/../g.xml"};
    std::string name = r.pick(names, "name"), got = name;
    bool there = (!name.empty() && isFile(name)) || isFile(root() + "/A/" + name);
    if (name == "g.xml/") there = false;
    r.step("find '%s'", name.c_str());
    bool ok = RuntimeEnvironment::getDataFileAbsolute(got);
    r.compared();
    if (name != "missing/../g.xml") // the system and the file name library may resolve this differently
        r.check(ok == there, ok ? "something that is no file is found" : "an existing data file is not found", "'%s' -> %s", name.c_str(), got.c_str());
    if (ok) r.check(isFile(got), "the found path is no file", "%s", got.c_str());
    unlink((root() + "/A/g.xml").c_str());
    r.outcome(ok ? "found" : "not found");
}
static void environment(mc::Run& r)
{
    layout();
    Env::reset(false);
    std::string R = root();
    static const char* opt[4] = {nullptr, "/A", "/missing", "/B"};
    std::vector<std::string> want;
    auto set = [&](const char* var, const char* v) {
        if (v) setenv(var, (R + v).c_str(), 1);
    };
    int a = r.choose(4, "SIMOX_DATA_PATH"), b = r.choose(4, "VIRTUAL_ROBOT_DATA_PATH"), c = r.choose(4, "Simox_DIR");
    int before = r.choose(3, "added before"), after = r.choose(3, "added after"), trigger = r.choose(3, "trigger");
    set("SIMOX_DATA_PATH", opt[a]);
    set("VIRTUAL_ROBOT_DATA_PATH", opt[b]);
    static const char* dirs[4] = {nullptr, "/S1", "/S2", "/missing"};
    set("Simox_DIR", dirs[c]);
    const char* added[3] = {nullptr, "/A", "/cwd/sub"};
    if (before)
    {
        want.push_back(R + added[before]);
        r.check(RuntimeEnvironment::addDataPath(R + added[before], true), "a directory is not registered", "%s", added[before]);
    }
    bool any = false;
    for (int x : {a, b})
        if (x == 1 || x == 3)
        {
            want.push_back(R + opt[x]);
            any = true;
        }
    if (!any && c == 1) want.push_back(R + "/S1/data");
    if (!any && c == 2) want.push_back(R + "/S2/VirtualRobot/data");
    r.step("initialise");
    if (trigger == 0) RuntimeEnvironment::getDataPaths();
    if (trigger == 1)
    {
        std::string f = "no such file";
        RuntimeEnvironment::getDataFileAbsolute(f);
    }
    if (trigger == 2)
    {
        char nm[] = "prog";
        char* argv[2] = {nm, nullptr};
        RuntimeEnvironment::processCommandLine(1, argv);
    }
    if (after)
    {
        want.push_back(R + added[after]);
        r.check(RuntimeEnvironment::addDataPath(R + added[after], true), "a directory is not registered", "%s", added[after]);
    }
    r.compared();
    auto got = RuntimeEnvironment::getDataPaths();
    // the wanted ones in their order; others (system defaults) only after those of the environment
    size_t k = 0;
    for (auto& g : got)
    {
        if (k < want.size() && g == want[k]) k++;
        struct stat s;
        r.check(stat(g.c_str(), &s) == 0 && S_ISDIR(s.st_mode), "a data path is no directory", "%s", g.c_str());
    }
    r.check(k == want.size(), "a data path given by environment or program is missing or out of order", "%zu of %zu, missing %s", k, want.size(), k < want.size() ? want[k].c_str() : "");
    for (size_t i = 0; i < want.size() - (after ? 1 : 0); i++) r.check(got[i] == want[i], "another data path comes before those given", "%zu: %s", i, got[i].c_str());
    auto once = got;
    r.check(RuntimeEnvironment::getDataPaths() == once, "the data paths change without a change", "%zu", once.size());
    mc::Hash h;
    for (auto& g : got) h.s(g.find(R) == 0 ? g.substr(R.size()) : g);
    r.state(h);
    r.outcome(strf("%zu paths", want.size()));
}
// ------------------------------------------------------------ command line
struct Item
{
    std::vector<std::string> tokens;
    std::string key, value; // key "" = unknown
};
static std::vector<Item> items()
{
    std::string R = root();
    return {{{"--robot", "r1"}, "robot", "r1"},
            {{"--robot=r 2"}, "robot", "r 2"},
            {{"--object", "o1"}, "object", "o1"},
            {{"--object=a=b"}, "object", "a=b"},
            {{"--unknown"}, "", ""},
            {{"--unknown=5"}, "", ""},
            {{"plain"}, "", ""},
            {{"-x"}, "", ""},
            {{"--other", "value"}, "", ""},
            {{"--data-path", R + "/A"}, "data-path", R + "/A"},
            {{"--data-path=" + R + "/B"}, "data-path", R + "/B"},
            {{"--data-path", R + "/missing"}, "data-path", R + "/missing"}};
}
static void options(mc::Run& r)
{
    layout();
    Env::reset(true);
    static const std::vector<std::vector<std::string>> keySets = {{}, {"robot"}, {"robot", "object"}, {"object", "robot", "object"}};
    auto keys = r.pick(keySets, "keys");
    auto its = items();
    std::map<std::string, std::string> want;
    std::vector<std::string> rest, paths;
    bool pre = r.flip("preset value");
    if (pre)
    {
        RuntimeEnvironment::addKeyValuePair("robot", "preset");
        want["robot"] = "preset";
    }
    for (auto& k : keys) RuntimeEnvironment::considerKey(k);
    int calls = 1 + r.choose(r.thorough ? 2 : 1, "calls");
    for (int c = 0; c < calls; c++)
    {
        std::vector<std::string> av = {"prog"};
        int n = r.choose(calls == 2 ? 3 : r.thorough ? 5 : 4, "arguments");
        std::map<std::string, std::string> first;
        for (int i = 0; i < n; i++)
        {
            const Item& it = its[(size_t)r.choose((int)its.size(), "argument")];
            for (auto& t : it.tokens) av.push_back(t);
            bool known = !it.key.empty() && (it.key == "data-path" || std::find(keys.begin(), keys.end(), it.key) != keys.end());
            if (!known)
                for (auto& t : it.tokens) rest.push_back(t);
            else if (it.key == "data-path")
            {
                if (it.value.find("missing") == std::string::npos) paths.push_back(it.value);
            }
            else if (!first.count(it.key)) first[it.key] = it.value;
        }
        for (auto& f : first) want[f.first] = f.second;
        std::vector<char*> argv;
        for (auto& a : av) argv.push_back(&a[0]);
        argv.push_back(nullptr);
        r.step("process %d arguments", (int)av.size() - 1);
        try
        {
            RuntimeEnvironment::processCommandLine((int)av.size(), argv.data());
        }
        catch (const std::exception& e)
        {
            r.fail("a correct command line raises an exception", "%s", e.what());
        }
    }
    r.compared();
    auto got = RuntimeEnvironment::getKeyValuePairs();
    r.check(got == want, "the options differ from those given", "%zu instead of %zu, robot '%s'", got.size(), want.size(), got.count("robot") ? got["robot"].c_str() : "");
    for (const char* k : {"robot", "object", "data-path", "unknown", "other", ""})
    {
        bool has = want.count(k) > 0;
        r.check(RuntimeEnvironment::hasValue(k) == has, has ? "a given option is not known" : "an option that was not given is known", "%s", k);
        r.check(RuntimeEnvironment::getValue(k) == (has ? want[k] : ""), "the value of an option differs", "%s", k);
        r.check(RuntimeEnvironment::checkParameter(k, "default") == (has ? want[k] : "default"), "the default of an option is not used exactly if it is missing", "%s", k);
    }
    auto un = RuntimeEnvironment::getUnrecognizedOptions();
    std::string ua, ub;
    for (auto& x : un) ua += x + "|";
    for (auto& x : rest) ub += x + "|";
    r.check(un == rest, "the unknown options differ from those given", "%s instead of %s", ua.c_str(), ub.c_str());
    r.check(RuntimeEnvironment::getDataPaths() == paths, "the data paths differ from those given", "%zu instead of %zu", RuntimeEnvironment::getDataPaths().size(), paths.size());
    r.check(RuntimeEnvironment::getKeyValuePairs() == want, "querying options changes them", "%zu", want.size());
    mc::Hash h;
    for (auto& w : got) h.s(w.first).s(w.second);
    r.state(h.s(ua).i((long long)paths.size()));
    r.outcome(strf("%zu known, %zu unknown", want.size(), rest.size()));
}
static void vectors(mc::Run& r)
{
    static const std::vector<std::string> nums = {"0", "1.5", "-2", "+3", "1e3", " 4", "-0.125 "};
    static const double val[7] = {0, 1.5, -2, 3, 1000, 4, -0.125};
    int a = r.choose(7, "a"), b = r.choose(7, "b"), c = r.choose(7, "c"), how = r.choose(9, "how");
    std::string x = nums[(size_t)a], y = nums[(size_t)b], z = nums[(size_t)c], s = "(" + x + "," + y + "," + z + ")";
    bool good = how == 0;
    if (how == 1) s = s.substr(1);
    if (how == 2) s = s.substr(0, s.size() - 1);
    if (how == 3) s = "(" + x + "," + y + ")";
    if (how == 4) s = "(" + x + "," + y + "," + z + ",1)";
    if (how == 5) s = "()";
    if (how == 6) s = "";
    if (how == 7) s = "(" + x + ",inf," + z + ")";
    if (how == 8) s = "(" + x + "," + y + ",nan)";
    Eigen::Vector3f v(7, 8, 9);
    r.step("convert '%s'", s.c_str());
    bool ok = RuntimeEnvironment::toVector3f(s, v);
    r.compared();
    r.check(ok == good, ok ? "a string that is no vector is converted" : "a vector is not converted", "'%s'", s.c_str());
    Eigen::Vector3f want = ok ? Eigen::Vector3f((float)val[a], (float)val[b], (float)val[c]) : Eigen::Vector3f(7, 8, 9);
    r.check(v == want, "a converted vector differs", "'%s'", s.c_str());
    r.state(mc::Hash().i(ok).f(v(0)).f(v(1)).f(v(2)));
}
// ------------------------------------------------------------ relative and absolute paths
static void paths(mc::Run& r)
{
    layout();
    static bool tree = false;
    if (!tree)
    {
        for (const char* d : {"p", "p/q", "p/q/r", "p/s", "pq", "a b"}) dir(d);
        for (const char* f : {"p/f", "p/q/f", "p/q/r/f", "p/s/f", "pq/f", "a b/f", "f"}) file(root() + "/" + f, f);
        if (symlink((root() + "/p/q/r").c_str(), (root() + "/pq/deep").c_str())) {}
        tree = true;
    }
    static const std::vector<std::string> ds = {"", "p", "p/q", "p/q/r", "p/s", "pq", "a b", "pq/deep", "p/q/../s", "p/", "p//q", "p/./q"};
    static const std::vector<std::string> fs = {"/f", "/new", "", "/../f", "/x/y"};
    std::string base = root() + "/" + r.pick(ds, "base"), d = root() + "/" + r.pick(ds, "directory"), f = r.pick(fs, "file");
    while (base.size() > 1 && base.back() == '/' && r.flip("without slash")) base.pop_back();
    if (r.flip("base relative to the working directory"))
    {
        if (chdir(base.c_str())) {}
        base = ".";
    }
    while (f.empty() && !d.empty() && d.back() == '/') d.pop_back();
    std::string target = d + f, rel = target;
    char buf[PATH_MAX];
    auto real = [&](const std::string& p) -> std::string {
        if (realpath(p.c_str(), buf)) return buf;
        size_t k = p.rfind('/');
        if (k == std::string::npos || k == 0) return p;
        if (!realpath(p.substr(0, k).c_str(), buf))
        {
            size_t j = p.rfind('/', k - 1);
            if (j == std::string::npos || !realpath(p.substr(0, j).c_str(), buf)) return p;
            return std::string(buf) + p.substr(j);
        }
        return std::string(buf) + p.substr(k);
    };
    struct stat s;
    bool exists = stat(target.c_str(), &s) == 0;
    r.step("make %s relative to %s", target.c_str(), base.c_str());
    IO::makeRelativePath(base, rel);
    r.compared();
    r.check(!rel.empty() && rel[0] != '/', "a path is not made relative", "%s to %s: %s", target.c_str(), base.c_str(), rel.c_str());
    std::string abs = rel;
    IO::makeAbsolutePath(base, abs);
    r.check(real(abs) == real(target), "making a path relative and absolute again leads elsewhere", "%s at %s: %s -> %s", target.c_str(), base.c_str(), rel.c_str(), abs.c_str());
    (void)exists;
    // relative ones stay, empty ones stay
    std::string same = rel, none;
    IO::makeRelativePath(base, same);
    IO::makeRelativePath(base, none);
    r.check(same == rel && none.empty(), "a relative or empty path is changed", "%s -> %s", rel.c_str(), same.c_str());
    IO::makeAbsolutePath(base, none);
    r.check(none.empty(), "an empty path is changed", "%s", none.c_str());
    if (chdir((root() + "/cwd").c_str())) {}
    r.state(mc::Hash().s(rel));
    r.outcome(rel.substr(0, 2) == ".." ? "upwards" : "below");
}
int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    (void)wipe;
    mc::suite("lookup", lookup, 3);
    mc::suite("odd names", oddNames, 1);
    mc::suite("environment", environment, 3);
    mc::suite("options", options, 4);
    mc::suite("vectors", vectors, 2);
    mc::suite("paths", paths, 2);
    return mc::main(argc, argv);
}
