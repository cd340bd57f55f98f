#include "pbt.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:hard_rss_limit_mb=3500:"
           "handle_segv=1:print_legend=0:malloc_context_size=12:max_allocation_size_mb=2000:alloc_dealloc_mismatch=0";
}

namespace pbt {

static uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t hashs(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
static double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static std::string g_tmp;
const std::string& Case::tmpdir() const
{
    return g_tmp;
}

uint64_t Case::draw(uint64_t n)
{
    uint64_t v;
    if (replay_) {
        v = pos_ < choices_.size() ? choices_[pos_] : 0;
        if (v > n)
            v = n == UINT64_MAX ? v : v % (n + 1);
        if (pos_ < choices_.size())
            choices_[pos_] = v;
        else
            choices_.push_back(v);
        pos_++;
        if (pos_ > 4000000)
            throw Discard{};
        return v;
    }
    rng_ += 0x9e3779b97f4a7c15ull;
    uint64_t z = mix(rng_);
    v = n == UINT64_MAX ? z : z % (n + 1);
    choices_.push_back(v);
    pos_++;
    return v;
}
bool Case::b(double p)
{
    uint64_t t = draw(999);
    return t >= 1000 - (uint64_t)std::llround(p * 1000);
}
size_t Case::w(std::initializer_list<double> ws)
{
    double sum = 0;
    for (double x : ws)
        sum += x;
    uint64_t t = draw(9999);
    double acc = 0;
    size_t k = 0;
    for (double x : ws) {
        acc += x;
        if (t < acc / sum * 10000)
            return k;
        k++;
    }
    return ws.size() - 1;
}
double Case::d(double lo, double hi)
{
    uint64_t k = draw(3);
    double v;
    if (k == 0 && std::ceil(lo) <= std::floor(hi)) {
        double a = std::ceil(lo), c = std::floor(hi);
        if (c - a < 9e15)
            v = a + (double)draw((uint64_t)(c - a));
        else
            v = dfine(lo, hi);
    } else if (k == 1) {
        v = lo + (hi - lo) * (double)draw(64) / 64.;
    } else {
        v = dfine(lo, hi);
    }
    return std::min(hi, std::max(lo, v));
}
std::vector<size_t> Case::perm(size_t n)
{
    std::vector<size_t> p(n);
    for (size_t k = 0; k < n; ++k)
        p[k] = k;
    for (size_t k = 0; k + 1 < n; ++k)
        std::swap(p[k], p[k + draw(n - 1 - k)]);
    return p;
}
std::vector<size_t> Case::subset(size_t n, size_t atLeast)
{
    std::vector<size_t> r;
    if (atLeast > n)
        atLeast = n;
    std::vector<bool> in(n);
    size_t cnt = 0;
    for (size_t k = 0; k < n; ++k) {
        in[k] = b(0.5);
        cnt += in[k];
    }
    for (size_t k = 0; k < n && cnt < atLeast; ++k)
        if (!in[k]) {
            in[k] = true;
            cnt++;
        }
    for (size_t k = 0; k < n; ++k)
        if (in[k])
            r.push_back(k);
    return r;
}
std::string num(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o + "\"";
}

static void rmtree(const std::string& d)
{
    // only ever called on scratch directories created by this process below /tmp
    if (d.compare(0, 12, "/tmp/verifc-") != 0)
        return;
    std::function<void(const std::string&)> rec = [&](const std::string& p) {
        struct stat st;
        if (lstat(p.c_str(), &st) != 0)
            return;
        if (S_ISDIR(st.st_mode)) {
            if (DIR* dd = opendir(p.c_str())) {
                std::vector<std::string> n;
                while (dirent* e = readdir(dd))
                    if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                        n.push_back(e->d_name);
                closedir(dd);
                for (auto& x : n)
                    rec(p + "/" + x);
            }
            rmdir(p.c_str());
        } else
            unlink(p.c_str());
    };
    rec(d);
}

enum Status { OK = 0, DISCARD = 1, FAILED = 2 };

struct Shared
{
    volatile int stop;
    volatile int failedWorker; // -1 none
    struct W
    {
        volatile uint64_t job;    // current global job
        volatile int running;     // in a case
        volatile double started;  // when
        volatile int failed;      // case failed (exception)
        volatile uint64_t done;
    } w[64];
};

static const int CPU_LIMIT = 40;   // seconds of cpu per case
static const int WALL_LIMIT = 200; // seconds of wall time per case
static void onProf(int)
{
    static const char m[] = "HANG: case exceeded its cpu time limit\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(98);
}
static void armCpu(int sec)
{
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, 0);
}

static Status runFn(const Fn& fn, Case& c, std::string& msg)
{
    try {
        armCpu(CPU_LIMIT);
        fn(c);
        armCpu(0);
        return OK;
    } catch (Discard&) {
        armCpu(0);
        return DISCARD;
    } catch (Fail& f) {
        armCpu(0);
        msg = f.msg;
        return FAILED;
    } catch (std::exception& e) {
        armCpu(0);
        msg = std::string("unexpected exception: ") + e.what();
        return FAILED;
    } catch (...) {
        armCpu(0);
        msg = "unexpected exception of unknown type";
        return FAILED;
    }
}

struct Engine
{
    Runner& r;
    uint64_t seed = 1;
    bool thorough = false;
    double tstart = now();
    double tcap = 420;
    int W = 8;
    double scale = 1;
    std::string scratch;
    Shared* sh = 0;
    std::vector<uint64_t> counts;
    uint64_t total = 0;
    std::string onlySub;

    Engine(Runner& rr)
        : r(rr)
    {
    }

    // global job -> (sub, index): subs interleaved proportionally
    void jobAt(uint64_t job, size_t& s, uint64_t& idx) const
    {
        // proportional interleave: job k of total; sub s gets counts[s]
        // use simple cumulative layout, permuted by a stride so that subs mix
        uint64_t k = job;
        for (s = 0; s < counts.size(); ++s) {
            if (k < counts[s]) {
                idx = k;
                return;
            }
            k -= counts[s];
        }
        s = counts.size() - 1;
        idx = 0;
    }
    std::vector<uint64_t> order; // interleaving
    void makeOrder()
    {
        // round-robin by fractional progress
        std::vector<uint64_t> base(counts.size(), 0), used(counts.size(), 0);
        for (size_t s = 1; s < counts.size(); ++s)
            base[s] = base[s - 1] + counts[s - 1];
        order.reserve(total);
        for (uint64_t k = 0; k < total; ++k) {
            size_t best = 0;
            double bp = 2;
            for (size_t s = 0; s < counts.size(); ++s)
                if (used[s] < counts[s]) {
                    double p = double(used[s] + 1) / double(counts[s]);
                    if (p < bp) {
                        bp = p;
                        best = s;
                    }
                }
            order.push_back(base[best] + used[best]++);
        }
    }
    uint64_t caseSeed(size_t s, uint64_t idx) const { return mix(mix(seed * 7919 + hashs(r.id_ + "/" + r.subs_[s].name)) + idx); }

    void worker(int w)
    {
        signal(SIGPROF, onProf);
        g_tmp = scratch + "/w" + std::to_string(w);
        mkdir(g_tmp.c_str(), 0700);
        std::string errf = scratch + "/err" + std::to_string(w);
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        if (r.init_)
            r.init_();
        uint64_t evals = 0, disc = 0, nontriv = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
        std::vector<uint64_t> subEv(counts.size(), 0);
        for (uint64_t j = w; j < total; j += W) {
            if (sh->stop)
                break;
            if (now() - tstart > tcap)
                break;
            size_t s;
            uint64_t idx;
            jobAt(order[j], s, idx);
            Case c;
            c.rng_ = caseSeed(s, idx);
            c.serial_ = j;
            sh->w[w].job = order[j];
            sh->w[w].started = now();
            sh->w[w].running = 1;
            std::string msg;
            Status st = runFn(r.subs_[s].fn, c, msg);
            if (st == FAILED) {
                sh->w[w].failed = 1;
                std::cerr << "failed: " << msg.substr(0, 1500) << "\n" << c.show().str().substr(0, 1500) << std::endl;
                break; // parent re-runs job
            }
            sh->w[w].running = 0;
            sh->w[w].done++;
            evals++;
            subEv[s]++;
            if (st == DISCARD) {
                disc++;
                labels[r.subs_[s].name + ":discarded"]++;
                continue;
            }
            for (auto& l : c.labels_)
                labels[r.subs_[s].name + ":" + l.first] += l.second;
            if (c.nontrivial_) {
                nontriv++;
                uint64_t h = hashs(r.subs_[s].name);
                for (uint64_t x : c.choices_)
                    h = mix(h ^ x);
                if (distinct.size() < 3000000)
                    distinct.insert(h);
                if (samples.size() < 3 * counts.size() && subEv[s] <= 3 && idx % 3 == 0 && c.show_.str().size())
                    samples.push_back("[" + r.subs_[s].name + " #" + std::to_string(idx) + "] " + c.show_.str().substr(0, 900));
            }
        }
        {
            std::ofstream o(scratch + "/stat" + std::to_string(w));
            o << evals << ' ' << disc << ' ' << nontriv << '\n';
            for (size_t s = 0; s < counts.size(); ++s)
                o << subEv[s] << ' ';
            o << '\n' << distinct.size() << '\n';
            for (uint64_t h : distinct)
                o << h << '\n';
            o << labels.size() << '\n';
            for (auto& l : labels)
                o << l.second << ' ' << l.first << '\n';
            o << samples.size() << '\n';
            for (auto& x : samples) {
                std::string y = x;
                std::replace(y.begin(), y.end(), '\n', ' ');
                o << y << '\n';
            }
        }
        fflush(0);
        _exit(sh->w[w].failed ? 97 : 0);
    }

    struct Res
    {
        Status st = OK;
        std::string msg, show;
        std::vector<uint64_t> choices;
        bool hang = false;
    };
    int execCount = 0;
    // execute one case in a forked child
    Res exec(size_t s, const std::vector<uint64_t>* choices, uint64_t cs)
    {
        Res res;
        int pfd[2];
        if (pipe(pfd) != 0)
            return res;
        std::string errf = scratch + "/err-exec";
        execCount++;
        pid_t p = fork();
        if (p == 0) {
            ::close(pfd[0]);
            signal(SIGPROF, onProf);
            int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
            dup2(fd, 2);
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            g_tmp = scratch + "/x";
            mkdir(g_tmp.c_str(), 0700);
            if (r.init_)
                r.init_();
            Case c;
            if (choices) {
                c.replay_ = true;
                c.choices_ = *choices;
            } else
                c.rng_ = cs;
            std::string msg;
            // write choices even on crash: not possible; crashing cases keep the candidate's own list
            Status st = runFn(r.subs_[s].fn, c, msg);
            std::string out;
            out += char('0' + st);
            uint64_t n = c.pos_;
            if (c.choices_.size() > n)
                c.choices_.resize(n);
            n = c.choices_.size();
            out.append((char*)&n, 8);
            out.append((char*)c.choices_.data(), 8 * n);
            n = msg.size();
            out.append((char*)&n, 8);
            out += msg;
            out += c.show_.str();
            size_t off = 0;
            while (off < out.size()) {
                ssize_t k = write(pfd[1], out.data() + off, out.size() - off);
                if (k <= 0)
                    break;
                off += k;
            }
            _exit(0);
        }
        ::close(pfd[1]);
        std::string in;
        char buf[65536];
        double t0 = now();
        bool killed = false;
        for (;;) {
            struct pollfd pf = {pfd[0], POLLIN, 0};
            int k = poll(&pf, 1, 1000);
            if (k > 0) {
                ssize_t n = read(pfd[0], buf, sizeof buf);
                if (n <= 0)
                    break;
                in.append(buf, n);
            }
            if (now() - t0 > WALL_LIMIT) {
                kill(p, SIGKILL);
                killed = true;
                break;
            }
        }
        ::close(pfd[0]);
        int ws;
        waitpid(p, &ws, 0);
        if (in.size() >= 17) {
            res.st = Status(in[0] - '0');
            uint64_t n;
            memcpy(&n, &in[1], 8);
            res.choices.resize(n);
            memcpy(res.choices.data(), &in[9], 8 * n);
            uint64_t m;
            memcpy(&m, &in[9 + 8 * n], 8);
            res.msg = in.substr(17 + 8 * n, m);
            res.show = in.substr(17 + 8 * n + m);
        } else {
            res.st = FAILED;
            if (choices)
                res.choices = *choices;
            std::ifstream e(errf);
            std::stringstream ss;
            ss << e.rdbuf();
            std::string t = ss.str();
            size_t a = t.find("ERROR: AddressSanitizer");
            if (a != std::string::npos)
                t = t.substr(a);
            if (t.size() > 1800)
                t = t.substr(0, 1800);
            if (killed || (WIFEXITED(ws) && WEXITSTATUS(ws) == 98))
                res.hang = true;
            std::ostringstream o;
            o << (res.hang ? "no answer within the time limit" : "process died") << " (wait status " << ws << "): " << t;
            res.msg = o.str();
        }
        return res;
    }
    // choices of a crashing random case: re-generate while logging draws to shared memory
    std::vector<uint64_t> choicesOf(size_t s, uint64_t cs)
    {
        const size_t CAP = 1 << 20;
        uint64_t* m = (uint64_t*)mmap(0, (CAP + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        m[0] = 0;
        pid_t p = fork();
        if (p == 0) {
            signal(SIGPROF, onProf);
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            dup2(nul, 2);
            g_tmp = scratch + "/x";
            mkdir(g_tmp.c_str(), 0700);
            if (r.init_)
                r.init_();
            struct LogCase : Case
            {
            } c;
            c.rng_ = cs;
            c.choices_.reserve(CAP);
            // the vector's storage is private; copy it out from a watcher thread-free way: use an at-crash copy
            static Case* cp;
            static uint64_t* mm;
            cp = &c;
            mm = m;
            struct H
            {
                static void dump()
                {
                    size_t n = std::min(cp->choices_.size(), (size_t)(1 << 20));
                    memcpy(mm + 1, cp->choices_.data(), 8 * n);
                    mm[0] = n;
                }
                static void sig(int)
                {
                    dump();
                    _exit(95);
                }
            };
            atexit(H::dump);
            extern void setDeathCallback(void (*)());
            setDeathCallback(H::dump);
            signal(SIGABRT, H::sig);
            signal(SIGPROF, H::sig);
            signal(SIGALRM, H::sig);
            alarm(WALL_LIMIT);
            std::string msg;
            runFn(r.subs_[s].fn, c, msg);
            H::dump();
            _exit(0);
        }
        int ws;
        waitpid(p, &ws, 0);
        std::vector<uint64_t> v(m + 1, m + 1 + m[0]);
        munmap(m, (CAP + 1) * 8);
        return v;
    }

    Res shrink(size_t s, Res best, double budget)
    {
        double t0 = now();
        auto tryIt = [&](std::vector<uint64_t> cand) {
            if (now() - t0 > budget)
                return false;
            Res q = exec(s, &cand, 0);
            if (q.st == FAILED && !q.hang) {
                // accept only if not larger
                auto& a = q.choices;
                if (a.size() < best.choices.size() || (a.size() == best.choices.size() && a < best.choices)) {
                    best = q;
                    return true;
                }
            }
            return false;
        };
        bool prog = true;
        while (prog && now() - t0 < budget) {
            prog = false;
            for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 1; k /= 2) {
                for (size_t pos = best.choices.size(); pos >= k && now() - t0 < budget;) {
                    pos = std::min(pos, best.choices.size());
                    if (pos < k)
                        break;
                    auto cand = best.choices;
                    cand.erase(cand.begin() + (pos - k), cand.begin() + pos);
                    if (tryIt(cand))
                        prog = true;
                    if (pos < k)
                        break;
                    pos -= std::min(pos, k);
                }
            }
            for (size_t k = std::max<size_t>(1, best.choices.size() / 4); k >= 1; k /= 2)
                for (size_t pos = 0; pos + k <= best.choices.size() && now() - t0 < budget; pos += k) {
                    auto cand = best.choices;
                    bool ch = false;
                    for (size_t q = pos; q < pos + k; ++q)
                        if (cand[q]) {
                            cand[q] = 0;
                            ch = true;
                        }
                    if (ch && tryIt(cand))
                        prog = true;
                }
            for (size_t pos = 0; pos < best.choices.size() && now() - t0 < budget; ++pos) {
                uint64_t hi = best.choices[pos], lo = 0;
                while (lo + 1 < hi && pos < best.choices.size() && now() - t0 < budget) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    auto cand = best.choices;
                    cand[pos] = mid;
                    if (tryIt(cand)) {
                        prog = true;
                        if (pos >= best.choices.size())
                            break;
                        hi = best.choices[pos];
                    } else
                        lo = mid;
                }
            }
        }
        return best;
    }

    std::string verifDir;
    int run();
    int replay(const std::string& file);
    std::string writeReplay(size_t s, uint64_t idx, const Res& b, const std::string& note);
    bool listed(const std::string& key)
    {
        std::ifstream f(verifDir + "/known-findings.txt");
        std::string line;
        while (std::getline(f, line))
            if (line.compare(0, 6, "known:") == 0 && line.find("property=" + r.id_ + " ") != std::string::npos &&
                (line + " ").find("key=" + key + " ") != std::string::npos)
                return true;
        return false;
    }
};

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
void setDeathCallback(void (*f)())
{
    __sanitizer_set_death_callback(f);
}
#else
static void (*g_death)();
static void onSegv(int)
{
    g_death();
    _exit(95);
}
void setDeathCallback(void (*f)())
{
    g_death = f;
    signal(SIGSEGV, onSegv);
    signal(SIGFPE, onSegv);
    signal(SIGBUS, onSegv);
}
#endif

std::string Engine::writeReplay(size_t s, uint64_t idx, const Res& b, const std::string& note)
{
    std::string dir = verifDir + "/replays";
    mkdir(dir.c_str(), 0755);
    std::string f = dir + "/" + r.id_ + "-" + r.subs_[s].name + "-s" + std::to_string(seed) + "-" + std::to_string(idx) + ".replay";
    std::ofstream o(f);
    o << "property " << r.id_ << "\nsub " << r.subs_[s].name << "\nseed " << seed << "\nindex " << idx << "\nchoices " << b.choices.size() << "\n";
    for (uint64_t c : b.choices)
        o << c << ' ';
    o << "\n--- how to replay: python3 bin/check.py " << r.id_ << " --replay " << f << "\n";
    o << "--- note: " << note << "\n--- message\n" << b.msg << "\n--- case\n" << b.show << "\n";
    return f;
}

int Engine::replay(const std::string& file)
{
    std::ifstream f(file);
    std::string w, subname, id;
    uint64_t sd = 0, idx = 0, n = 0;
    f >> w >> id >> w >> subname >> w >> sd >> w >> idx >> w >> n;
    std::vector<uint64_t> ch(n);
    for (auto& c : ch)
        f >> c;
    for (size_t s = 0; s < r.subs_.size(); ++s)
        if (r.subs_[s].name == subname) {
            Res q = exec(s, &ch, 0);
            std::cout << (q.st == FAILED ? "FAILED: " : q.st == OK ? "OK" : "DISCARDED") << q.msg << "\n" << q.show << std::endl;
            if (q.st == FAILED) {
                std::cout << "VIOLATION property=" << r.id_ << " replay=" << file << std::endl;
                return 1;
            }
            return 0;
        }
    std::cout << "no such sub-check " << subname << std::endl;
    return 2;
}

int Engine::run()
{
    struct KF
    {
        std::string key;
        bool fails;
    };
    std::vector<std::string> knownLines;
    int violations = 0;
    // known findings: demonstrate each
    for (auto& k : r.known_) {
        fflush(0);
        pid_t p = fork();
        if (p == 0) {
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            dup2(nul, 2);
            g_tmp = scratch + "/k";
            mkdir(g_tmp.c_str(), 0700);
            if (r.init_)
                r.init_();
            bool f = true;
            try {
                f = k.stillFails();
            } catch (...) {
                f = true;
            }
            _exit(f ? 7 : 0);
        }
        int ws;
        waitpid(p, &ws, 0);
        bool fails = !(WIFEXITED(ws) && WEXITSTATUS(ws) == 0);
        if (fails) {
            if (listed(k.key)) {
                std::cout << "KNOWN-FINDING: property=" << r.id_ << " " << k.key << ": " << k.what << std::endl;
                knownLines.push_back(k.key);
            } else {
                std::string dir = verifDir + "/replays";
                mkdir(dir.c_str(), 0755);
                std::string f = dir + "/" + r.id_ + "-" + k.key + ".replay";
                std::ofstream o(f);
                o << "property " << r.id_ << "\nfixed demonstration " << k.key << "\n" << k.what << "\n";
                std::cout << "VIOLATION property=" << r.id_ << " replay=" << f << std::endl;
                violations++;
            }
        }
    }

    for (auto& s : r.subs_) {
        uint64_t n = (uint64_t)std::llround((thorough ? s.thorough : s.quick) * scale);
        if (onlySub.size() && s.name != onlySub)
            n = 0;
        counts.push_back(n);
        total += n;
    }
    makeOrder();
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof *sh);
    std::vector<pid_t> pids(W, 0);
    fflush(0);
    for (int w = 0; w < W; ++w) {
        pid_t p = fork();
        if (p == 0)
            worker(w);
        pids[w] = p;
    }
    int alive = W;
    std::vector<int> failedW;
    while (alive) {
        int ws;
        pid_t p = waitpid(-1, &ws, WNOHANG);
        if (p > 0) {
            for (int w = 0; w < W; ++w)
                if (pids[w] == p) {
                    pids[w] = 0;
                    alive--;
                    if (!(WIFEXITED(ws) && WEXITSTATUS(ws) == 0)) {
                        failedW.push_back(w);
                        sh->stop = 1;
                    }
                }
            continue;
        }
        usleep(20000);
        double t = now();
        for (int w = 0; w < W; ++w)
            if (pids[w] && sh->w[w].running && t - sh->w[w].started > WALL_LIMIT + 10)
                kill(pids[w], SIGKILL);
    }
    int unreproduced = 0;
    std::vector<std::string> violNotes;
    for (int w : failedW) {
        if (violations)
            break;
        if (!sh->w[w].running && !sh->w[w].failed) {
            unreproduced++;
            std::cerr << "worker " << w << " ended outside a case" << std::endl;
            continue;
        }
        size_t s;
        uint64_t idx;
        jobAt(sh->w[w].job, s, idx);
        uint64_t cs = caseSeed(s, idx);
        std::cerr << "failing case: sub " << r.subs_[s].name << " index " << idx << std::endl;
        Res q;
        int hits = 0, tries = 0;
        for (tries = 0; tries < 25 && hits < 1; ++tries) {
            q = exec(s, 0, cs);
            if (q.st == FAILED)
                hits++;
            if (q.hang)
                break;
        }
        if (!hits) {
            std::cerr << "not reproduced" << std::endl;
            std::ifstream e(scratch + "/err" + std::to_string(w));
            std::string line;
            for (int k = 0; k < 30 && std::getline(e, line); ++k)
                std::cerr << line << "\n";
            unreproduced++;
            continue;
        }
        std::cerr << "message: " << q.msg.substr(0, 1500) << std::endl;
        bool crash = q.choices.empty();
        if (crash)
            q.choices = choicesOf(s, cs);
        Res best = q;
        if (!q.hang) {
            Res v = exec(s, &q.choices, 0);
            if (v.st == FAILED) {
                if (v.choices.empty())
                    v.choices = q.choices;
                best = shrink(s, v, getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : thorough ? 120 : 40);
            }
        }
        int ok = 0;
        for (int k = 0; k < 3; ++k) {
            Res v = exec(s, &best.choices, 0);
            if (v.st == FAILED)
                ok++;
            if (v.hang) {
                ok = 3;
                break;
            }
        }
        std::string note = "shrunk; reproduced 3/3";
        if (ok < 3) {
            best = q;
            note = "not deterministic: shrunk case reproduced " + std::to_string(ok) + "/3; the original case is given";
        }
        std::string f = writeReplay(s, idx, best, note);
        std::cerr << "minimal case (" << note << ", " << execCount << " executions):\n" << best.msg << "\n" << best.show << std::endl;
        std::cout << "VIOLATION property=" << r.id_ << " replay=" << f << std::endl;
        violations++;
    }

    // collect stats
    uint64_t ev = 0, di = 0, nt = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::vector<uint64_t> subEv(counts.size(), 0);
    for (int w = 0; w < W; ++w) {
        std::ifstream f(scratch + "/stat" + std::to_string(w));
        uint64_t a, b, c, n;
        if (!(f >> a >> b >> c))
            continue;
        ev += a;
        di += b;
        nt += c;
        for (auto& x : subEv) {
            f >> n;
            x += n;
        }
        f >> n;
        for (uint64_t k = 0, h; k < n && f >> h; ++k)
            distinct.insert(h);
        f >> n;
        std::string line;
        for (uint64_t k = 0, c2; k < n && f >> c2; ++k) {
            std::getline(f, line);
            labels[line.substr(1)] += c2;
        }
        f >> n;
        std::getline(f, line);
        for (uint64_t k = 0; k < n && std::getline(f, line); ++k)
            samples.push_back(line);
    }
    // a few samples of every sub
    std::vector<std::string> keep;
    for (auto& s : r.subs_) {
        int k = 0;
        for (auto& x : samples)
            if (x.compare(0, s.name.size() + 2, "[" + s.name + " ") == 0 && k < 2) {
                keep.push_back(x);
                k++;
            }
    }
    double wall = now() - tstart;
    {
        std::string dir = verifDir + "/evidence";
        mkdir(dir.c_str(), 0755);
        std::string f = dir + "/" + r.id_ + ".json";
        std::ofstream o(f + ".tmp");
        o << "{\n \"property\": " << jstr(r.id_) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"discarded\": " << di
          << ",\n  \"nontrivial\": " << nt << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << jstr(r.rule_)
          << ",\n  \"planned\": " << total << ",\n  \"unreproduced_failures\": " << unreproduced << ",\n  \"sub_checks\": {";
        for (size_t s = 0; s < counts.size(); ++s)
            o << (s ? ", " : "") << jstr(r.subs_[s].name) << ": " << subEv[s];
        o << "},\n  \"labels\": {";
        bool first = true;
        for (auto& l : labels) {
            o << (first ? "" : ", ") << jstr(l.first) << ": " << l.second;
            first = false;
        }
        o << "},\n  \"known_findings_reproduced\": [";
        for (size_t k = 0; k < knownLines.size(); ++k)
            o << (k ? ", " : "") << jstr(knownLines[k]);
        o << "],\n  \"samples\": [";
        for (size_t k = 0; k < keep.size(); ++k)
            o << (k ? ",\n    " : "\n    ") << jstr(keep[k]);
        o << "]\n },\n \"assumptions\": [";
        for (size_t k = 0; k < r.assumptions_.size(); ++k)
            o << (k ? ", " : "") << jstr(r.assumptions_[k]);
        o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
        o.close();
        rename((f + ".tmp").c_str(), f.c_str());
    }
    std::cout << r.id_ << ": " << ev << " cases (" << di << " discarded, " << distinct.size() << " distinct non-trivial), " << violations
              << " violations, " << wall << " s" << std::endl;
    return violations ? 1 : 0;
}

int Runner::main(int argc, char** argv)
{
    setenv("TZ", "UTC", 1);
    Engine e(*this);
    const char* v;
    if ((v = getenv("VERIF_SEED")))
        e.seed = strtoull(v, 0, 10);
    if ((v = getenv("PBT_SCALE")))
        e.scale = atof(v);
    if ((v = getenv("PBT_WORKERS")))
        e.W = std::max(1, std::min(64, atoi(v)));
    if ((v = getenv("PBT_SUB")))
        e.onlySub = v;
    e.verifDir = (v = getenv("VERIF_DIR")) ? v : "/verif";
    std::string rep;
    for (int k = 1; k < argc; ++k) {
        std::string a = argv[k];
        if (a == "--thorough")
            e.thorough = true;
        else if (a == "--replay" && k + 1 < argc)
            rep = argv[++k];
    }
    e.tcap = e.thorough ? 5400 : 420;
    if ((v = getenv("PBT_CAP")))
        e.tcap = atof(v);
    char t[] = "/tmp/verifc-XXXXXX";
    if (!mkdtemp(t)) {
        perror("mkdtemp");
        return 2;
    }
    e.scratch = t;
    int rc;
    if (rep.size())
        rc = e.replay(rep);
    else
        rc = e.run();
    rmtree(e.scratch);
    return rc;
}

} // namespace pbt
