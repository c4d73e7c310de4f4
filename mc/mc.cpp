#include "mc.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace mc
{
    namespace
    {
        const int MAXC = 20000;
        const size_t TRACE = 1 << 17;

        struct Shm
        {
            std::atomic<uint64_t> progress;
            uint64_t execs, pruned, steps, compares, comparedExecs, maxDepth;
            uint64_t prefixCounter;
            int suite;
            int nchoice;
            bool inExec, finished, truncated, suiteDone;
            uint64_t suiteExecs[256];
            bool suiteTrunc[256];
            size_t tlen;
            char at[512];
            uint16_t c[MAXC], n[MAXC];
            char trace[TRACE];
        };

        struct SuiteDef
        {
            std::string name;
            std::function<void(Run&)> body;
            int split;
            bool thoroughOnly;
        };
        std::vector<SuiteDef>& suites()
        {
            static std::vector<SuiteDef> s;
            return s;
        }
        std::vector<std::function<void()>>& setups()
        {
            static std::vector<std::function<void()>> s;
            return s;
        }
        int hangS = 30;
        Shm* S = nullptr;
        int W = 1, me = 0;
        bool replaying = false;
        bool owned = false;      // this execution belongs to this worker
        int planned = 0;         // choices taken from the DFS stack
        bool comparedThis = false;
        std::string dir, scratchDir;
        FILE* fstates = nullptr, *fviol = nullptr;
        std::unordered_set<uint64_t>* seen = nullptr;
        std::map<std::string, uint64_t>* outcomes = nullptr;
        std::vector<std::string> pendingSoftSig;
        double deadline = 0;
        bool thoroughTier = false;

        double now()
        {
            return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
        }

        void traceAdd(const char* fmt, va_list ap)
        {
            char buf[2048];
            int k = vsnprintf(buf, sizeof buf - 2, fmt, ap);
            if (k < 0) return;
            if (k > (int)sizeof buf - 3) k = sizeof buf - 3;
            buf[k++] = '\n';
            if (S->tlen + k + 1 >= TRACE) return;
            memcpy(S->trace + S->tlen, buf, k);
            S->tlen += k;
            S->trace[S->tlen] = 0;
        }

        std::string esc(const std::string& s)
        {
            std::string o;
            for (unsigned char ch : s)
            {
                if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
                else if (ch == '\n') o += "\\n";
                else if (ch == '\t') o += "\\t";
                else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
                else o += ch;
            }
            return o;
        }

        std::string choiceStr(const Shm* s)
        {
            std::ostringstream o;
            for (int i = 0; i < s->nchoice; i++) o << (i ? "." : "") << s->c[i];
            return o.str();
        }

        void writeViolation(FILE* f, const Shm* s, const std::string& sig, const std::string& msg, int worker)
        {
            std::string tr(s->trace, s->tlen);
            fprintf(f, "{\"suite\":\"%s\",\"choices\":\"%s\",\"sig\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\",\"worker\":%d}\n",
                    esc(suites()[s->suite].name).c_str(), choiceStr(s).c_str(), esc(sig).c_str(), esc(msg).c_str(), esc(tr).c_str(), worker);
            fflush(f);
        }

        void rmrf(const std::string& d)
        {
            // removes only below our own mkdtemp directory
            DIR* dp = opendir(d.c_str());
            if (!dp) return;
            while (dirent* e = readdir(dp))
            {
                std::string n = e->d_name;
                if (n == "." || n == "..") continue;
                std::string p = d + "/" + n;
                struct stat st;
                if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmrf(p);
                else unlink(p.c_str());
            }
            closedir(dp);
            rmdir(d.c_str());
        }
    }

    std::string strf(const char* fmt, ...)
    {
        char buf[8192];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        return buf;
    }

    const std::string& scratch()
    {
        return scratchDir;
    }
    void suite(const std::string& name, std::function<void(Run&)> body, int split, bool t)
    {
        suites().push_back({name, body, split, t});
    }
    void setup(std::function<void()> f)
    {
        setups().push_back(f);
    }
    void hangSeconds(int s)
    {
        hangS = s;
    }

    int Run::depth() const
    {
        return S->nchoice;
    }

    int Run::choose(int n, const char* label)
    {
        if (n <= 0)
        {
            fprintf(stderr, "choose(%d) %s\n", n, label ? label : "");
            abort();
        }
        int i = S->nchoice;
        if (i >= MAXC) { fprintf(stderr, "too many choices\n"); abort(); }
        int v;
        if (i < planned)
        {
            v = S->c[i];
            if (S->n[i] != 0 && S->n[i] != n && !replaying)
            {
                fprintf(stderr, "nondeterministic body in suite %s: choice %d had %d options, now %d\n", suites()[S->suite].name.c_str(), i, S->n[i], n);
                fail("harness-nondeterminism", "choice %d had %d options, now %d", i, S->n[i], n);
            }
            if (v >= n) { fprintf(stderr, "replay: choice %d = %d of %d\n", i, v, n); abort(); }
        }
        else v = 0;
        S->c[i] = v;
        S->n[i] = n;
        S->nchoice = i + 1;
        if ((uint64_t)S->nchoice > S->maxDepth) S->maxDepth = S->nchoice;
        if (label) note("  ? %s = %d/%d", label, v, n);
        if (!replaying && S->nchoice == suites()[S->suite].split)
        {
            // a new prefix is met exactly when the DFS changed something inside it
            bool fresh = planned <= S->nchoice;   // last advanced position lies within the prefix
            if (fresh)
            {
                owned = (int)(S->prefixCounter % W) == me;
                S->prefixCounter++;
            }
            if (!owned) throw Pruned();
        }
        return v;
    }

    void Run::step(const char* fmt, ...)
    {
        S->steps++;
        va_list ap;
        va_start(ap, fmt);
        traceAdd(fmt, ap);
        va_end(ap);
        va_start(ap, fmt);
        vsnprintf(S->at, sizeof S->at, fmt, ap);
        va_end(ap);
    }
    void Run::note(const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        traceAdd(fmt, ap);
        va_end(ap);
    }
    void Run::at(const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(S->at, sizeof S->at, fmt, ap);
        va_end(ap);
    }
    void Run::state(uint64_t h)
    {
        if (seen && seen->insert(h).second && fstates) fwrite(&h, sizeof h, 1, fstates);
    }
    void Run::outcome(const std::string& s)
    {
        std::string k = suites()[S->suite].name + ": " + s;
        if (outcomes && (outcomes->size() < 20000 || outcomes->count(k)))
        {
            (*outcomes)[k]++;
        }
    }
    void Run::compared(int n)
    {
        S->compares += n;
        comparedThis = true;
    }
    void Run::prune()
    {
        throw Pruned();
    }
    void Run::fail(const std::string& sig, const char* fmt, ...)
    {
        char buf[4096];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        throw Violation{sig, buf};
    }
    void Run::check(bool ok, const std::string& sig, const char* fmt, ...)
    {
        if (ok) return;
        char buf[4096];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        throw Violation{sig, buf};
    }
    static std::set<std::string> softSeen;
    void Run::soft(const std::string& sig, const char* fmt, ...)
    {
        char buf[4096];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (!softSeen.insert(sig).second) return;
        writeViolation(fviol, S, sig, buf, me);
    }

    // runs one execution; true if it counted
    static bool execute(int si)
    {
        Run r;
        r.thorough = thoroughTier;
        S->suite = si;
        S->nchoice = 0;
        S->tlen = 0;
        S->trace[0] = 0;
        S->at[0] = 0;
        S->inExec = true;
        comparedThis = false;
        S->progress++;
        bool counted = true;
        uint64_t steps0 = S->steps;
        std::string sig, msg;
        try
        {
            suites()[si].body(r);
        }
        catch (Pruned&)
        {
            counted = false;
            S->steps = steps0;
            S->pruned++;
        }
        catch (Violation& v)
        {
            sig = v.sig;
            msg = v.msg;
        }
        catch (std::exception& e)
        {
            sig = std::string("exception@") + S->at;
            msg = std::string("uncaught exception: ") + e.what();
        }
        catch (...)
        {
            sig = std::string("exception@") + S->at;
            msg = "uncaught exception of unknown type";
        }
        if (!sig.empty())
        {
            static std::map<std::string, int> per;
            if (per[sig]++ < 3) writeViolation(fviol, S, sig, msg, me);
        }
        if (counted && !replaying && S->nchoice < suites()[si].split)
        {
            // shorter than the split: owned by the worker the running prefix number names
            owned = (int)(S->prefixCounter % W) == me;
            S->prefixCounter++;
            if (!owned) { counted = false; S->steps = steps0; }
        }
        S->inExec = false;
        if (counted)
        {
            S->execs++;
            if (si < 256) S->suiteExecs[si]++;
            if (comparedThis) S->comparedExecs++;
        }
        return counted;
    }

    // advances the DFS stack in shared memory; false when exhausted
    static bool advance()
    {
        int d = S->nchoice;
        while (d > 0 && S->c[d - 1] + 1 >= S->n[d - 1]) d--;
        if (d == 0) return false;
        S->c[d - 1]++;
        planned = d;
        return true;
    }

    static void dumpOutcomes()
    {
        FILE* f = fopen((dir + strf("/outcomes.%d", me)).c_str(), "w");
        if (!f) return;
        for (auto& o : *outcomes) fprintf(f, "%llu\t%s\n", (unsigned long long)o.second, esc(o.first).c_str());
        fclose(f);
    }

    static void workerMain(bool resume, const std::string& onlySuite)
    {
        fstates = fopen((dir + strf("/states.%d", me)).c_str(), "ab");
        fviol = fopen((dir + strf("/viol.%d", me)).c_str(), "a");
        int efd = open((dir + strf("/err.%d", me)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (efd >= 0) { dup2(efd, 2); dup2(efd, 1); }
        std::cout.setstate(std::ios::failbit);
        std::cerr.setstate(std::ios::failbit);
        std::clog.setstate(std::ios::failbit);
        seen = new std::unordered_set<uint64_t>();
        outcomes = new std::map<std::string, uint64_t>();
        scratchDir = dir + strf("/w%d", me);
        mkdir(scratchDir.c_str(), 0700);
        for (auto& f : setups()) f();
        int s0 = 0;
        bool cont = false;
        if (resume)
        {
            s0 = S->suite;
            if (S->inExec)
            {
                S->inExec = false;
                cont = true;      // continue after the execution that died
            }
        }
        for (int si = s0; si < (int)suites().size(); si++)
        {
            if (suites()[si].thoroughOnly && !thoroughTier && onlySuite.empty()) continue;
            if (!onlySuite.empty() && suites()[si].name != onlySuite) continue;
            bool more = true;
            if (cont)
            {
                cont = false;
                // the dead execution may have been inside a prefix we own: keep ownership
                owned = true;
                more = advance();
            }
            else
            {
                S->suite = si;
                planned = 0;
                S->prefixCounter = 0;
                S->nchoice = 0;
            }
            while (more)
            {
                if (now() > deadline)
                {
                    S->truncated = true;
                    if (si < 256) S->suiteTrunc[si] = true;
                    break;
                }
                execute(si);
                more = advance();
            }
        }
        fclose(fstates);
        fclose(fviol);
        dumpOutcomes();
        S->finished = true;
        fflush(nullptr);
        _exit(0);
    }

    static std::string tail(const std::string& p, size_t n)
    {
        FILE* f = fopen(p.c_str(), "r");
        if (!f) return "";
        std::string s;
        char b[4096];
        size_t k;
        while ((k = fread(b, 1, sizeof b, f)) > 0) { s.append(b, k); if (s.size() > (1u << 20)) s.erase(0, s.size() - (1u << 19)); }
        fclose(f);
        // a sanitizer report is most useful at its beginning
        size_t e = s.find("ERROR:");
        size_t r = s.find("runtime error:");
        if (r != std::string::npos && (e == std::string::npos || r < e)) e = r > 200 ? r - 200 : 0;
        if (e != std::string::npos) return s.substr(e, n);
        if (s.size() > n) s.erase(0, s.size() - n);
        return s;
    }

    int main(int argc, char** argv)
    {
        std::string only, out = "", onlySuite;
        int onlyWorker = -1;
        double limit = 600;
        W = 8;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            if (a == "--tier" && i + 1 < argc) thoroughTier = std::string(argv[++i]) == "thorough";
            else if (a == "--only" && i + 1 < argc) only = argv[++i];
            else if (a == "--suite" && i + 1 < argc) onlySuite = argv[++i];
            else if (a == "--worker" && i + 1 < argc) onlyWorker = atoi(argv[++i]);
            else if (a == "--out" && i + 1 < argc) out = argv[++i];
            else if (a == "--deadline" && i + 1 < argc) limit = atof(argv[++i]);
            else if (a == "--workers" && i + 1 < argc) W = atoi(argv[++i]);
        }
        signal(SIGPIPE, SIG_IGN);
        char tmpl[] = "/tmp/simoxmc.XXXXXX";
        if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
        dir = tmpl;
        deadline = now() + limit;

        if (!only.empty())
        {
            // one execution, in a child so that a crash is seen
            size_t p = only.find(':');
            std::string sn = only.substr(0, p), cs = only.substr(p + 1);
            S = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            int si = -1;
            for (size_t i = 0; i < suites().size(); i++) if (suites()[i].name == sn) si = (int)i;
            if (si < 0) { fprintf(stderr, "no such suite\n"); rmrf(dir); return 2; }
            std::stringstream ss(cs);
            std::string tok;
            int k = 0;
            while (std::getline(ss, tok, '.')) if (!tok.empty()) S->c[k++] = atoi(tok.c_str());
            planned = k;
            replaying = true;
            S->suite = si;
            pid_t pid = fork();
            if (pid == 0)
            {
                fviol = fopen((dir + "/viol.0").c_str(), "a");
                int efd = open((dir + "/err.0").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                dup2(efd, 2);
                dup2(efd, 1);
                if (!getenv("MC_VERBOSE"))
                {
                    std::cout.setstate(std::ios::failbit);
                    std::cerr.setstate(std::ios::failbit);
                    std::clog.setstate(std::ios::failbit);
                }
                scratchDir = dir + "/w0";
                mkdir(scratchDir.c_str(), 0700);
                seen = new std::unordered_set<uint64_t>();
                outcomes = new std::map<std::string, uint64_t>();
                for (auto& f : setups()) f();
                execute(si);
                for (auto& o : *outcomes) fprintf(fviol, "{\"outcome\":\"%s\"}\n", esc(o.first).c_str());
                fclose(fviol);
                S->finished = true;
                fflush(nullptr);
                _exit(0);
            }
            int st = 0;
            double t0 = now();
            bool hang = false;
            while (waitpid(pid, &st, WNOHANG) == 0)
            {
                usleep(2000);
                if (now() - t0 > hangS * 3) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
            }
            FILE* f = fopen((dir + "/viol.0").c_str(), "a");
            if (!S->finished)
            {
                std::string where = S->at;
                std::string sig = (hang ? "hang@" : "crash@") + where;
                std::string msg = hang ? "no progress" : (WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st)));
                writeViolation(f, S, sig, msg + "\n" + tail(dir + "/err.0", 3000), 0);
            }
            fclose(f);
            FILE* in = fopen((dir + "/viol.0").c_str(), "r");
            FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
            static char line[1 << 20];
            while (in && fgets(line, sizeof line, in)) fputs(line, o);
            if (out.empty())
            {
                printf("--- trace\n%.*s", (int)S->tlen, S->trace);
                if (getenv("MC_VERBOSE")) printf("--- output\n%s\n", tail(dir + "/err.0", 100000).c_str());
            }
            else fclose(o);
            if (in) fclose(in);
            rmrf(dir);
            return 0;
        }

        std::vector<Shm*> shm(W);
        std::vector<pid_t> pid(W, 0);
        std::vector<uint64_t> last(W, 0);
        std::vector<double> lastT(W, 0);
        std::vector<int> crashes(W, 0);
        std::vector<bool> done(W, false);
        double t0 = now();
        auto spawn = [&](int w, bool resume)
        {
            pid_t p = fork();
            if (p == 0)
            {
                S = shm[w];
                me = w;
                workerMain(resume, onlySuite);
            }
            pid[w] = p;
            last[w] = shm[w]->progress;
            lastT[w] = now();
        };
        for (int w = 0; w < W; w++)
        {
            shm[w] = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (onlyWorker >= 0 && w != onlyWorker) { done[w] = true; continue; }
            spawn(w, false);
        }
        int lost = 0;
        while (true)
        {
            bool any = false;
            for (int w = 0; w < W; w++)
            {
                if (done[w]) continue;
                any = true;
                int st = 0;
                pid_t r = waitpid(pid[w], &st, WNOHANG);
                bool hang = false;
                if (r == 0)
                {
                    uint64_t p = shm[w]->progress;
                    if (p != last[w]) { last[w] = p; lastT[w] = now(); continue; }
                    if (now() - lastT[w] < hangS) continue;
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &st, 0);
                    hang = true;
                }
                if (shm[w]->finished) { done[w] = true; continue; }
                FILE* f = fopen((dir + strf("/viol.%d", w)).c_str(), "a");
                std::string where = shm[w]->at;
                std::string sig = (hang ? "hang@" : "crash@") + where;
                if (!shm[w]->inExec) sig = "crash-outside-execution";
                std::string msg = hang ? "no progress" : (WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st)));
                writeViolation(f, shm[w], sig, msg + "\n" + tail(dir + strf("/err.%d", w), 3000), w);
                fclose(f);
                shm[w]->execs++;
                if (!shm[w]->inExec || ++crashes[w] > 25) { done[w] = true; lost++; shm[w]->truncated = true; continue; }
                spawn(w, true);
            }
            if (!any) break;
            usleep(3000);
        }
        // ---- merge
        std::vector<uint64_t> all;
        for (int w = 0; w < W; w++)
        {
            FILE* f = fopen((dir + strf("/states.%d", w)).c_str(), "rb");
            if (!f) continue;
            uint64_t b[4096];
            size_t k;
            while ((k = fread(b, 8, 4096, f)) > 0) all.insert(all.end(), b, b + k);
            fclose(f);
        }
        std::sort(all.begin(), all.end());
        size_t states = std::unique(all.begin(), all.end()) - all.begin();
        std::map<std::string, uint64_t> oc;
        for (int w = 0; w < W; w++)
        {
            FILE* f = fopen((dir + strf("/outcomes.%d", w)).c_str(), "r");
            if (!f) continue;
            static char line[65536];
            while (fgets(line, sizeof line, f))
            {
                char* t = strchr(line, '\t');
                if (!t) continue;
                std::string k = t + 1;
                while (!k.empty() && k.back() == '\n') k.pop_back();
                oc[k] += strtoull(line, nullptr, 10);
            }
            fclose(f);
        }
        FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
        uint64_t ex = 0, pr = 0, stp = 0, cmp = 0, cex = 0, md = 0;
        bool trunc = false;
        for (auto s : shm)
        {
            ex += s->execs;
            pr += s->pruned;
            stp += s->steps;
            cmp += s->compares;
            cex += s->comparedExecs;
            md = std::max(md, s->maxDepth);
            trunc |= s->truncated;
        }
        fprintf(o, "{\"executions\":%llu,\"pruned\":%llu,\"steps\":%llu,\"compares\":%llu,\"compared_executions\":%llu,\"max_depth\":%llu,\"states\":%zu,\"truncated\":%s,\"wall\":%.3f,\n",
                (unsigned long long)ex, (unsigned long long)pr, (unsigned long long)stp, (unsigned long long)cmp, (unsigned long long)cex, (unsigned long long)md, states, trunc ? "true" : "false", now() - t0);
        fprintf(o, "\"suites\":{");
        bool first = true;
        for (size_t i = 0; i < suites().size() && i < 256; i++)
        {
            uint64_t e = 0;
            bool tr = false;
            for (auto s : shm) { e += s->suiteExecs[i]; tr |= s->suiteTrunc[i]; }
            if (!e && !tr) continue;
            fprintf(o, "%s\"%s\":{\"executions\":%llu,\"truncated\":%s}", first ? "" : ",", esc(suites()[i].name).c_str(), (unsigned long long)e, tr ? "true" : "false");
            first = false;
        }
        fprintf(o, "},\n\"distinct_outcomes\":%zu,\n\"outcomes\":[", oc.size());
        size_t cnt = 0;
        // spread the listed outcomes over the suites
        size_t stride = oc.size() > 60 ? oc.size() / 60 : 1, k = 0;
        for (auto& x : oc)
        {
            if (k++ % stride) continue;
            if (cnt >= 60) break;
            fprintf(o, "%s[\"%s\",%llu]", cnt ? "," : "", x.first.c_str(), (unsigned long long)x.second);
            cnt++;
        }
        fprintf(o, "],\n\"violations\":[");
        cnt = 0;
        for (int w = 0; w < W; w++)
        {
            FILE* f = fopen((dir + strf("/viol.%d", w)).c_str(), "r");
            if (!f) continue;
            static char line[1 << 20];
            while (fgets(line, sizeof line, f))
            {
                std::string l = line;
                while (!l.empty() && l.back() == '\n') l.pop_back();
                if (l.empty()) continue;
                if (cnt > 400) break;
                fprintf(o, "%s%s", cnt ? ",\n" : "", l.c_str());
                cnt++;
            }
            fclose(f);
        }
        fprintf(o, "]}\n");
        if (o != stdout) fclose(o);
        rmrf(dir);
        return 0;
    }
}
