// P12: a client and its background planning or path processing run, in every schedule.
#include "ctlsched.h"
#include "plan2d.h"
#include <MotionPlanning/Planner/BiRrt.h>
#include <MotionPlanning/Planner/PlanningThread.h>
#include <MotionPlanning/Planner/Rrt.h>
#include <MotionPlanning/PostProcessing/PathProcessingThread.h>
#include <MotionPlanning/PostProcessing/ShortcutProcessor.h>
using mc::Run;

// ---- what the background run does and what was asked of it, seen by an omniscient observer (one thread runs at a time)
struct Watch
{
    int launched = 0;           // runs that began
    int active = 0, completed = 0;
    int duration = 0;           // loop passes of a run, -1: until it is stopped
    bool asked = false;         // a stop or interrupt call began since the last start from idle
    int requestReturned = 0;    // interrupt calls that returned during the present run
    bool begun = false;         // the present run has cleared its stop flag
    bool lastStopped = false;
    bool forgotten = false;     // an interrupt came between start and the begin of the run
    std::vector<CSpacePathPtr> results;
};
static Watch* w;

template <class Flag> static bool work(Flag& stop)
{
    // as the planners do
    w->launched++;
    w->active++;
    if (w->active > 1) sched::failed("two runs at the same time", "");
    w->requestReturned = 0;
    w->lastStopped = false;
    sched::point("begin");
    stop = false;
    w->begun = true;
    if (w->forgotten) sched::failed("an interrupt request before the begin of the run is forgotten", "");
    w->forgotten = false;
    bool stopped = false;
    for (int i = 0; w->duration < 0 || i < w->duration; i++)
    {
        sched::point("search");
        if (stop)
        {
            stopped = true;
            break;
        }
        if (w->requestReturned > 0) sched::failed("a request to a running search is ignored", "");
    }
    if (stopped && !w->asked) sched::failed("a run is stopped that nobody asked to stop", "");
    w->lastStopped = stopped;
    w->active--;
    w->begun = false;
    w->completed++;
    return !stopped;
}

struct StubPlanner : public MotionPlanner
{
    using MotionPlanner::MotionPlanner;
    bool plan(bool) override
    {
        return work(stopSearch);
    }
    void stopExecution() override
    {
        sched::point("request");
        MotionPlanner::stopExecution();
    }
    bool createSolution(bool) override
    {
        return true;
    }
    bool setStart(const VX&) override { return true; }
    bool setGoal(const VX&) override { return true; }
    void reset() override {}
};
struct StubProcessor : public PathProcessor
{
    using PathProcessor::PathProcessor;
    CSpacePathPtr optimize(int) override
    {
        work(stopOptimization);
        CSpacePathPtr p = path->clone();
        w->results.push_back(p);
        return p;
    }
    void stopExecution() override
    {
        sched::point("request");
        PathProcessor::stopExecution();
    }
};

// ---- the two kinds of background threads
struct Target
{
    virtual ~Target() {}
    virtual void start() = 0;
    virtual void interrupt(bool wait) = 0;
    virtual void stop() = 0;
    virtual bool running() = 0;
    virtual bool result(CSpacePathPtr&)
    {
        return false;
    }
};
struct Planning : Target
{
    boost::shared_ptr<PlanningThread> t;
    explicit Planning(MotionPlannerPtr p) : t(new PlanningThread(p)) {}
    void start() override { t->start(); }
    void interrupt(bool wait) override { t->interrupt(wait); }
    void stop() override { t->stop(); }
    bool running() override { return t->isRunning(); }
};
struct Processing : Target
{
    boost::shared_ptr<PathProcessingThread> t;
    explicit Processing(PathProcessorPtr p) : t(new PathProcessingThread(p)) {}
    void start() override { t->start(3); }
    void interrupt(bool wait) override { t->interrupt(wait); }
    void stop() override { t->stop(); }
    bool running() override { return t->isRunning(); }
    bool result(CSpacePathPtr& p) override
    {
        p = t->getProcessedPath();
        return true;
    }
};

static CSpacePathPtr path2(SpacePtr s, int kind = 0)
{
    const Env& e = *s->env;
    CSpacePathPtr p(new CSpacePath(s, "path"));
    p->addPoint(e.at[0]);
    if (kind)
    {
        p->addPoint(v2(0.6, 3.0));
        p->addPoint(v2(1.5, 3.6));
    }
    p->addPoint(v2(2.0, 3.4));
    p->addPoint(e.at[1]);
    return p;
}

enum { START, STOP, INTERRUPT, RUNNING, RESULT, WAIT, NOPS };
static const char* OP[] = {"start", "stop", "interrupt", "isRunning", "result", "wait for the end"};

static void stub(Run& r)
{
    bool proc = r.flip("kind");
    static const std::vector<int> D = {0, 2, -1};
    int duration = r.pick(D, "duration");
    int depth = r.thorough ? 4 : 3;
    std::vector<int> ops;
    for (int i = 0; i < depth; i++)
    {
        int k = r.choose(NOPS + 1, "call");
        if (k == NOPS) break;           // shorter program
        if (i == 0 && k != START && k != STOP) r.prune();
        if (k == RESULT && !proc) r.prune();
        if (!ops.empty() && k == ops.back() && (k == WAIT || k == RESULT)) r.prune();
        if (k == WAIT && duration < 0) r.prune();
        ops.push_back(k);
    }
    const Env& e = envs()[1];
    SpacePtr s = space(e);
    CSpacePathPtr path = path2(s);
    Watch watch;
    w = &watch;
    w->duration = duration;
    std::string name = proc ? "path processing" : "planning";
    auto t = std::unique_ptr<Target>();
    MotionPlannerPtr planner;
    PathProcessorPtr processor;
    if (proc) processor.reset(new StubProcessor(path));
    else planner.reset(new StubPlanner(s));

    sched::Options o;
    // two preemptions for programs of up to two calls (three: thorough), one for longer ones
    o.preemptions = (int)ops.size() <= (r.thorough ? 3 : 2) ? 2 : 1;
    o.patience = 12;
    o.maxPoints = 4000;
    sched::begin(r, o);
    auto bad = [&](const std::string& sig, const char* what) { sched::failed(sig, what); };
    {
        if (proc) t.reset(new Processing(processor));
        else t.reset(new Planning(planner));
        bool idle = true;             // known to the client
        bool clean = true;            // no request since the last start from idle
        int definite = 0, possible = 0;     // runs that must / may have been launched
        auto wentIdle = [&] {
            idle = true;
            if (w->active) bad("not running is reported while the run is active", "");
            if (clean && w->completed < definite) bad("not running is reported before the run took place", "");
            definite = possible = w->completed;
        };
        for (int k : ops)
        {
            r.note("  client: %s", OP[k]);
            if (k == START)
            {
                if (idle)
                {
                    w->asked = false;
                    w->forgotten = false;
                    clean = true;
                    definite = w->completed + 1;
                    possible = definite;
                }
                else
                {
                    possible++;
                    // a finished run may be restarted, then earlier requests do not count; only the observer could know
                }
                t->start();
                idle = false;
            }
            if (k == STOP)
            {
                w->asked = true;
                clean = false;
                t->stop();
                if (t->running()) bad("running is reported after stop", "");
                wentIdle();
                int n = w->launched;
                sched::point("after stop");
                if (w->launched != n || w->active) bad("a run begins after stop", "");
            }
            if (k == INTERRUPT)
            {
                w->asked = true;
                clean = false;
                bool begun = w->active && w->begun;
                int run = w->launched;
                bool was = !idle;
                t->interrupt(false);
                if (begun && w->active && w->launched == run) w->requestReturned++;
                else if (was && !begun && !w->active && w->launched == run && w->completed < definite) w->forgotten = true;
            }
            if (k == RUNNING)
            {
                bool b = t->running();
                if (b && idle) bad("running is reported while nothing was started", "");
                if (!b) wentIdle();
            }
            if (k == WAIT)
            {
                while (t->running()) sched_yield();
                wentIdle();
            }
            if (k == RESULT)
            {
                int before = w->completed;
                CSpacePathPtr p;
                t->result(p);
                if (p)
                {
                    bool known = false;
                    for (size_t i = 0; i < w->results.size(); i++) known = known || (w->results[i] == p && (int)i + 1 >= (idle ? w->completed : definite));
                    if (!known) bad("a result is reported that is not the one of the last run", "");
                }
                else if (idle && before > 0 && w->completed == before && clean) bad("the result of a completed run is not reported", "");
            }
            if (w->completed > possible && w->launched > possible) bad("more runs than starts", "");
        }
        r.note("  client: destroy");
        w->asked = true;
        t.reset();
        if (w->active) bad("the run goes on after its thread object was destroyed", "");
        int n = w->launched;
        sched::point("after destruction");
        if (w->launched != n) bad("a run begins after its thread object was destroyed", "");
    }
    r.at("end of %s", name.c_str());
    sched::end();
    r.step("%s, duration %d: %d calls, %d runs", name.c_str(), duration, (int)ops.size(), w->completed);
    r.compared();
    mc::Hash h;
    h.i(proc).i(duration).i(w->launched).i(w->completed).i(w->lastStopped).i(sched::now());
    for (int k : ops) h.i(k);
    r.state(h);
}

// ---- the real planners and the real path processor in the background
static void real(Run& r)
{
    int kind = r.choose(3, "planner");
    int e0 = r.choose(2, "layout");
    int prog = r.choose(5, "program");
    const Env& e = envs()[e0];
    uint64_t seed = 88172645463325252ull;
    auto next = [seed]() mutable {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        return seed;
    };
    g_random = [next]() mutable { return (next() >> 12) * (1.0 / 4503599627370496.0); };
    g_rand = [next]() mutable { return (int)(next() >> 40); };
    SpacePtr s = space(e);
    boost::shared_ptr<Rrt> planner;
    boost::shared_ptr<ShortcutProcessor> proc;
    if (kind == 0) planner.reset(new Rrt(s));
    if (kind == 1) planner.reset(new BiRrt(s));
    if (kind == 2) proc.reset(new ShortcutProcessor(path2(s, 1), s, false));
    if (planner)
    {
        planner->setMaxCycles(3);
        planner->setStart(e.at[0]);
        planner->setGoal(e.at[1]);
    }
    sched::Options o;
    o.preemptions = r.thorough ? 2 : 1;
    o.patience = 200;
    o.maxPoints = 20000;
    CSpacePathPtr got;
    bool finished = false;
    sched::begin(r, o);
    {
        std::unique_ptr<Target> t;
        if (planner) t.reset(new Planning(planner));
        else t.reset(new Processing(proc));
        auto res = [&] {
            if (planner) got = planner->getSolution();
            else t->result(got);
        };
        t->start();
        if (prog == 0)
        {
            while (t->running()) sched_yield();
            finished = true;
            res();
        }
        if (prog == 1)
        {
            t->stop();
            if (t->running()) sched::failed("running is reported after stop", "");
            res();
        }
        if (prog == 2)
        {
            t->interrupt(false);
            while (t->running()) sched_yield();
            res();
            if (planner) planner->reset();
            t->start();
            t->stop();
        }
        if (prog == 3)
        {
            t->stop();
            if (planner) planner->reset(), planner->setStart(e.at[0]), planner->setGoal(e.at[1]);
            t->start();
            while (t->running()) sched_yield();
            finished = true;
            res();
        }
        // prog 4: destroyed at once
    }
    sched::end();
    if (planner && prog == 4) got = planner->getSolution();
    r.step("%s in %s, program %d: %s", kind == 0 ? "Rrt" : kind == 1 ? "BiRrt" : "shortcuts", e.name, prog, got ? "result" : "no result");
    if (kind == 2 && finished) r.check((bool)got, "the result of a completed run is not reported", "shortcuts");
    if (got)
    {
        r.compared();
        r.check(got->getNrOfPoints() >= 2 && (got->getPoint(0) - e.at[0]).norm() < 1e-5 && (got->getPoint(got->getNrOfPoints() - 1) - e.at[1]).norm() < 1e-5, "the result of a background run does not join start and goal", "%s", e.name);
        for (unsigned i = 0; i < got->getNrOfPoints(); i++)
            r.check(Space::ok(e, got->getPoint(i), 2), "the result of a background run is not valid", "%s", e.name);
    }
    mc::Hash h;
    h.i(kind).i(e0).i(prog).i(sched::now()).i(got ? (int)got->getNrOfPoints() : -1);
    r.state(h);
    r.outcome(got ? "result" : "no result");
}

int main(int argc, char** argv)
{
    mc::setup([] {
        silence();
        // one run without schedules warms up statics and caches
        const Env& e = envs()[1];
        SpacePtr s = space(e);
        boost::shared_ptr<Rrt> p(new Rrt(s));
        p->setMaxCycles(1);
        p->setStart(e.at[0]);
        p->setGoal(e.at[1]);
        p->plan(true);
        boost::thread t([] {});
        t.join();
    });
    mc::hangSeconds(60);
    mc::suite("client-programs", stub, 3);
    mc::suite("real-planners", real, 3);
    return mc::main(argc, argv);
}
