// Small property-based testing engine used by every check in /verif.
//
//  * A generator draws a sequence of bounded integers ("choices"); every random decision of a
//    case goes through T::choice, so a case is a pure function of its choice sequence.
//  * Cases are run by forked workers; an abort, a signal or a CPU-time hang of the code under test is
//    caught in the parent and turned into a failing case like any other.
//  * A failing case is shrunk by editing the choice sequence (delete blocks, zero, halve, decrement),
//    each attempt in its own forked child, and replayed three times before it is reported.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {
struct Fail {
    std::string msg;
};
struct Discard {};

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h;
}

constexpr size_t MAXCH  = 1u << 18;
constexpr size_t MAXTXT = 1u << 18;

struct Shared {  // one per running case, in shared memory so that the parent sees it after a crash
    volatile int law;
    volatile long idx;
    volatile int busy;
    volatile uint64_t nch;
    uint64_t ch[MAXCH];
    volatile int status;  // 0 not finished, 1 pass, 2 fail, 3 discard
    char text[MAXTXT];
};

class T {
  public:
    bool replay = false;
    std::vector<uint64_t> in;
    size_t pos   = 0;
    uint64_t rng = 0;
    Shared* sh   = nullptr;
    int tier     = 0;
    std::vector<uint64_t> rec;
    std::map<std::string, int> labels;
    bool nontriv = false;
    std::ostringstream notes;
    std::string tmpdir;

    uint64_t choice(uint64_t n) {
        uint64_t v = 0;
        if (n > 1) {
            if (replay) {
                v = pos < in.size() ? in[pos] : 0;
                if (v >= n)
                    v = n - 1;
            } else {
                v = splitmix(rng) % n;
            }
        }
        ++pos;
        rec.push_back(v);
        if (sh && rec.size() <= MAXCH) {
            sh->ch[rec.size() - 1] = v;
            sh->nch                = rec.size();
        }
        return v;
    }
    long i(long lo, long hi) { return lo + static_cast<long>(choice(static_cast<uint64_t>(hi - lo) + 1)); }
    bool b() { return choice(2) == 1; }
    // true with probability pc/100, shrinks to false
    bool chance(int pc) { return static_cast<int>(choice(100)) >= 100 - pc; }
    template <typename V>
    typename V::value_type pick(const V& v) {
        return v[choice(v.size())];
    }
    template <typename X>
    X pick(std::initializer_list<X> l) {
        return *(l.begin() + choice(l.size()));
    }
    // real in [lo,hi]; the simplest value (choice 0) is lo
    double r(double lo, double hi) {
        uint64_t style = choice(10);
        double u;
        if (style == 0)
            u = choice(17) / 16.0;
        else if (style == 1)
            u = choice(1001) / 1000.0;
        else
            u = choice(1ull << 40) / double((1ull << 40) - 1);
        return lo + (hi - lo) * u;
    }
    // real in [-a,a], simplest 0
    double s(double a) {
        bool neg = b();
        double v = r(0.0, a);
        return neg ? -v : v;
    }
    // log-uniform in [lo,hi]
    double lg(double lo, double hi) { return std::exp(r(std::log(lo), std::log(hi))); }
    std::vector<unsigned> perm(unsigned n) {
        std::vector<unsigned> p(n);
        for (unsigned k = 0; k < n; ++k)
            p[k] = k;
        for (unsigned k = 0; k + 1 < n; ++k)
            std::swap(p[k], p[k + choice(n - k)]);
        return p;
    }
    void label(const std::string& l) { ++labels[l]; }
    void nontrivial() { nontriv = true; }
    [[noreturn]] void discard() { throw Discard(); }
};

struct Law {
    std::string prop, name, rule;
    long nq, nt;
    std::function<void(T&)> fn;
};
inline std::vector<Law>& laws() {
    static std::vector<Law> l;
    return l;
}
struct Reg {
    Reg(const char* p, const char* n, const char* rule, long nq, long nt, std::function<void(T&)> f) {
        laws().push_back({p, n, rule, nq, nt, f});
    }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// LAW(property, name, rule: what makes a case non-trivial, cases quick, cases thorough) { body using t }
// -DONLY=n leaves out the laws of other properties (they take long to compile)
#ifdef ONLY
#define SEL(n) ((n) == ONLY)
#else
#define SEL(n) 1
#endif
#define LAW(prop, name, rule, nq, nt)                                                \
    static void PBT_CAT(law_##prop##_, name)(pbt::T & t);                            \
    static pbt::Reg PBT_CAT(reg_##prop##_, name)(#prop, #name, rule, nq, nt, PBT_CAT(law_##prop##_, name)); \
    static void PBT_CAT(law_##prop##_, name)(pbt::T & t)

#define PCHECK(cond, what)                                                                     \
    do {                                                                                       \
        if (!(cond)) {                                                                         \
            std::ostringstream os_;                                                            \
            os_ << std::setprecision(17) << what << "   [violated: " << #cond << "]";          \
            throw pbt::Fail{os_.str()};                                                        \
        }                                                                                      \
    } while (0)
// |a-b| <= tol, NaN-safe
#define PNEAR(a, b, tol, what)                                                                                \
    do {                                                                                                      \
        double a_ = (a), b_ = (b), t_ = (tol);                                                                \
        if (!(std::abs(a_ - b_) <= t_)) {                                                                     \
            std::ostringstream os_;                                                                           \
            os_ << std::setprecision(17) << what << ": got " << a_ << ", expected " << b_ << " (difference " \
                << (a_ - b_) << ", tolerance " << t_ << ")";                                                  \
            throw pbt::Fail{os_.str()};                                                                       \
        }                                                                                                     \
    } while (0)
#define PNOTE(x)              \
    do {                      \
        t.notes << x << "\n"; \
        if (getenv("VERIF_NOTES")) \
            std::cerr << "note: " << x << std::endl; \
    } while (0)

enum Status { PASS = 1, FAIL = 2, DISCARD = 3, CRASH = 4, HANG = 5 };

struct Outcome {
    int status = 0;
    std::string msg, notes;
    std::vector<uint64_t> ch;
};

inline std::string& base_tmp() {
    static std::string s;
    return s;
}
inline int rm_cb(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
inline void rm_tree(const std::string& p) {
    if (p.compare(0, 5, "/tmp/") != 0 || p.find("..") != std::string::npos || p.size() < 8)
        return;
    ::nftw(p.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS);
}
inline int& case_cpu_limit() {
    static int s = 150;
    return s;
}
// explorations stop taking new cases at this time (each worker runs one case of every law all the same)
inline double& deadline() {
    static double t = 1e300;
    return t;
}
inline double now() {
    struct timeval tv;
    gettimeofday(&tv, nullptr);
    return tv.tv_sec + 1e-6 * tv.tv_usec;
}
inline double cpu_used() {
    struct rusage r;
    getrusage(RUSAGE_SELF, &r);
    return r.ru_utime.tv_sec + r.ru_stime.tv_sec + 1e-6 * (r.ru_utime.tv_usec + r.ru_stime.tv_usec);
}
inline void on_cpu(int) { _exit(77); }
inline void arm(int sec) {
    struct itimerval it;
    std::memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
    it.it_value.tv_sec = 4 * sec;  // for code that blocks without using CPU time
    setitimer(ITIMER_REAL, &it, nullptr);
}

inline int run_one(const Law& law, T& t, std::string& msg) {
    t.tmpdir = base_tmp() + "/w" + std::to_string(getpid());
    rm_tree(t.tmpdir);
    ::mkdir(t.tmpdir.c_str(), 0700);
    if (::chdir(t.tmpdir.c_str()) != 0)
        ;
    arm(case_cpu_limit());
    int st = PASS;
    try {
        law.fn(t);
    } catch (const Fail& f) {
        st  = FAIL;
        msg = f.msg;
    } catch (const Discard&) {
        st = DISCARD;
    } catch (const std::exception& e) {
        st  = FAIL;
        msg = std::string("unexpected exception: ") + e.what();
    } catch (const std::string& e) {
        st  = FAIL;
        msg = "unexpected exception: " + e;
    } catch (...) {
        st  = FAIL;
        msg = "unexpected exception of unknown type";
    }
    arm(0);
    if (::chdir("/tmp") != 0)
        ;
    rm_tree(t.tmpdir);
    return st;
}

inline Shared* new_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return static_cast<Shared*>(p);
}

inline void redirect(const std::string& f) {
    int fd = ::open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
    }
}
inline std::string slurp(const std::string& f) {
    std::ifstream is(f);
    std::stringstream ss;
    ss << is.rdbuf();
    return ss.str();
}

// Runs one case given by its choice sequence in a forked child.
inline Outcome exec(const Law& law, const std::vector<uint64_t>& ch, int tier, bool loud = false) {
    static Shared* sh = new_shared();
    static long cnt   = 0;
    sh->nch           = 0;
    sh->status        = 0;
    sh->text[0]       = 0;
    std::string err   = base_tmp() + "/err" + std::to_string(getpid()) + "_" + std::to_string(cnt++);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        signal(SIGPROF, on_cpu);
        signal(SIGALRM, on_cpu);
        if (!loud)
            redirect(err);
        T t;
        t.replay = true;
        t.in     = ch;
        t.sh     = sh;
        t.tier   = tier;
        std::string msg;
        int st           = run_one(law, t, msg);
        std::string text = msg + '\x01' + t.notes.str();
        std::strncpy(sh->text, text.c_str(), MAXTXT - 1);
        sh->status = st;
        _exit(0);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    Outcome o;
    o.ch.assign(sh->ch, sh->ch + std::min<uint64_t>((uint64_t)sh->nch, MAXCH));
    std::string text(sh->text);
    size_t sep = text.find('\x01');
    o.msg      = text.substr(0, sep);
    if (sep != std::string::npos)
        o.notes = text.substr(sep + 1);
    o.status = sh->status;
    if (sh->status == 0) {
        if (WIFEXITED(ws) && WEXITSTATUS(ws) == 77) {
            o.status = HANG;
            o.msg    = "case used more than " + std::to_string(case_cpu_limit()) + " s of CPU time (or blocked for long)";
        } else {
            o.status      = CRASH;
            std::string e = slurp(err);
            if (e.size() > 1500)
                e = e.substr(e.size() - 1500);
            o.msg = WIFSIGNALED(ws) ? std::string("killed by signal ") + strsignal(WTERMSIG(ws))
                                    : "process exited with code " + std::to_string(WEXITSTATUS(ws));
            o.msg += "; last output: " + e;
        }
    }
    ::unlink(err.c_str());
    rm_tree(base_tmp() + "/w" + std::to_string(pid));
    return o;
}
inline bool is_bad(int s) { return s == FAIL || s == CRASH || s == HANG; }

inline Outcome shrink(const Law& law, Outcome best, int tier, double budget, long& attempts) {
    double t0  = now();
    auto over  = [&] { return now() - t0 > budget || attempts > 3000 || now() > deadline(); };
    auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        return a.size() != b.size() ? a.size() < b.size() : a < b;
    };
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (over())
            return false;
        ++attempts;
        int limit        = case_cpu_limit();
        case_cpu_limit() = std::min(limit, 20);
        Outcome o        = exec(law, c, tier);
        case_cpu_limit() = limit;
        if (is_bad(o.status) && o.status != HANG && (better(o.ch, best.ch))) {
            best = o;
            return true;
        }
        return false;
    };
    if (best.status == HANG)
        return best;
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        for (size_t len : {size_t(64), size_t(16), size_t(8), size_t(4), size_t(2), size_t(1)}) {
            for (size_t p = 0; p + len <= best.ch.size() && !over();) {  // delete blocks
                auto c = best.ch;
                c.erase(c.begin() + p, c.begin() + p + len);
                if (attempt(c))
                    progress = true;
                else
                    p += len;
            }
        }
        for (size_t len : {size_t(16), size_t(4), size_t(1)})
            for (size_t p = 0; p < best.ch.size() && !over(); p += len) {  // zero blocks
                auto c    = best.ch;
                bool some = false;
                for (size_t k = p; k < std::min(p + len, c.size()); ++k)
                    if (c[k]) {
                        c[k] = 0;
                        some = true;
                    }
                if (some && attempt(c))
                    progress = true;
            }
        for (size_t p = 0; p < best.ch.size() && !over(); ++p) {  // binary search each value down
            uint64_t lo = 0, hi = p < best.ch.size() ? best.ch[p] : 0;
            while (lo + 1 < hi && !over()) {
                auto c       = best.ch;
                uint64_t mid = lo + (hi - lo) / 2;
                if (p >= c.size())
                    break;
                c[p] = mid;
                if (attempt(c)) {
                    progress = true;
                    if (p >= best.ch.size())
                        break;
                    hi = best.ch[p];
                } else
                    lo = mid;
            }
        }
    }
    return best;
}

inline std::string jesc(const std::string& s) {
    std::ostringstream o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\')
            o << '\\' << c;
        else if (c == '\n')
            o << "\\n";
        else if (c < 32 || c > 126)
            o << "\\u" << std::hex << std::setw(4) << std::setfill('0') << int(c) << std::dec;
        else
            o << c;
    }
    return o.str();
}

struct LawStat {
    long eval = 0, disc = 0, nontriv = 0;
    double cpu = 0;  // largest CPU time of a case
    std::set<uint64_t> distinct;
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
};

inline int main_(int argc, char** argv) {
    uint64_t seed  = 1;
    int tier       = 0;
    int workers    = 8;
    double scale   = 1.0, shrink_budget = 60;
    std::string out, replay_law, filter, prop;
    std::vector<uint64_t> replay_ch;
    bool do_replay = false, loud = false;
    std::vector<std::pair<std::string, uint64_t>> excluded;
    for (int a = 1; a < argc; ++a) {
        std::string s = argv[a];
        auto nx       = [&] { return std::string(a + 1 < argc ? argv[++a] : ""); };
        if (s == "--seed")
            seed = std::stoull(nx());
        else if (s == "--tier")
            tier = nx() == "thorough";
        else if (s == "--workers")
            workers = std::stoi(nx());
        else if (s == "--out")
            out = nx();
        else if (s == "--scale")
            scale = std::stod(nx());
        else if (s == "--shrink")
            shrink_budget = std::stod(nx());
        else if (s == "--law")
            filter = nx();
        else if (s == "--prop")
            prop = nx();
        else if (s == "--deadline")
            deadline() = std::stod(nx());
        else if (s == "--cpu")
            case_cpu_limit() = std::stoi(nx());
        else if (s == "--loud")
            loud = true;
        else if (s == "--replay") {  // --replay law choice,choice,...
            do_replay  = true;
            replay_law = nx();
            std::stringstream ss(nx());
            std::string x;
            while (std::getline(ss, x, ','))
                if (!x.empty())
                    replay_ch.push_back(std::stoull(x));
        } else if (s == "--list") {
            for (auto& l : laws())
                std::cout << l.prop << " " << l.name << " " << l.nq << " " << l.nt << "\n";
            return 0;
        }
    }
    char tb[] = "/tmp/pbtXXXXXX";
    if (!mkdtemp(tb)) {
        perror("mkdtemp");
        return 3;
    }
    base_tmp() = tb;
    chmod(tb, 0700);

    if (do_replay) {
        int rc = 3;
        for (auto& l : laws())
            if (l.name == replay_law && (prop.empty() || l.prop == prop)) {
                Outcome o = exec(l, replay_ch, tier, loud);
                std::cout << (is_bad(o.status) ? "FAIL " : o.status == DISCARD ? "DISCARD " : "PASS ") << l.prop << "/"
                          << l.name << ": " << o.msg << "\n"
                          << o.notes << std::endl;
                rc = is_bad(o.status) ? 1 : 0;
            }
        rm_tree(base_tmp());
        return rc;
    }

    struct Ctl {
        std::atomic<int> failed[256];
    };
    Ctl* ctl = static_cast<Ctl*>(mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    for (auto& f : ctl->failed)
        f = 0;
    std::vector<int> active;
    for (size_t k = 0; k < laws().size(); ++k)
        if ((prop.empty() || laws()[k].prop == prop) && (filter.empty() || laws()[k].name == filter))
            active.push_back(k);
    std::vector<Shared*> sh(workers);
    std::vector<pid_t> pid(workers, 0);
    std::vector<int> gen(workers, 0);
    struct Failure {
        int law;
        Outcome o;
    };
    std::map<int, Outcome> fails;  // first failure per law
    double t0 = now();

    auto spawn = [&](int w, int from_pos, long from_idx) {
        sh[w]->busy   = 0;
        sh[w]->status = 0;
        std::string of = base_tmp() + "/out" + std::to_string(w) + "_" + std::to_string(gen[w]++);
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            signal(SIGPROF, on_cpu);
        signal(SIGALRM, on_cpu);
            if (!loud)
                redirect(base_tmp() + "/log" + std::to_string(w));
            std::ofstream os(of);
            for (int ap = from_pos; ap < (int)active.size(); ++ap) {
                int li          = active[ap];
                const Law& law  = laws()[li];
                long n          = std::max(1L, (long)((tier ? law.nt : law.nq) * scale));
                LawStat st;
                long start = (ap == from_pos && from_idx >= 0) ? from_idx : w;
                for (long idx = start; idx < n; idx += workers) {
                    if (ctl->failed[ap] || (idx != start && now() > deadline()))
                        break;
                    if (!loud && (idx / workers) % 16 == 0) {  // keep the log small
                        if (::ftruncate(1, 0) != 0)
                            ;
                        ::lseek(1, 0, SEEK_SET);
                    }
                    T t;
                    t.tier        = tier;
                    uint64_t s    = seed * 0x9e3779b97f4a7c15ull + hash_str(law.prop + "/" + law.name);
                    uint64_t s2   = splitmix(s) + 0xd1342543de82ef95ull * (uint64_t)(idx + 1);
                    t.rng         = splitmix(s2);
                    t.sh          = sh[w];
                    sh[w]->nch    = 0;
                    sh[w]->law    = ap;
                    sh[w]->idx    = idx;
                    sh[w]->status = 0;
                    sh[w]->busy   = 1;
                    std::string msg;
                    double c0 = cpu_used();
                    int r     = run_one(law, t, msg);
                    st.cpu    = std::max(st.cpu, cpu_used() - c0);
                    if (r == FAIL) {
                        std::strncpy(sh[w]->text, msg.c_str(), MAXTXT - 1);
                        sh[w]->status   = FAIL;
                        ctl->failed[ap] = 1;
                        // stays "busy": the parent picks the case up
                        os.flush();
                        _exit(5);
                    }
                    sh[w]->busy = 0;
                    if (r == DISCARD) {
                        ++st.disc;
                        continue;
                    }
                    ++st.eval;
                    for (auto& l : t.labels)
                        ++st.labels[l.first];
                    if (t.nontriv) {
                        ++st.nontriv;
                        uint64_t h = 1469598103934665603ull;
                        for (auto c : t.rec) {
                            h ^= c;
                            h *= 1099511628211ull;
                            h ^= h >> 29;
                        }
                        st.distinct.insert(h);
                        if (w == 0 && st.samples.size() < 2 && !t.notes.str().empty())
                            st.samples.push_back(t.notes.str().substr(0, 1200));
                    }
                }
                os << "L " << ap << " " << st.eval << " " << st.disc << " " << st.nontriv << " " << st.cpu << "\n";
                for (auto& l : st.labels)
                    os << "B " << ap << " " << l.second << " " << l.first << "\n";
                for (auto h : st.distinct)
                    os << "H " << ap << " " << h << "\n";
                for (auto& s : st.samples)
                    os << "S " << ap << " " << jesc(s) << "\n";
                os.flush();
            }
            os.close();
            _exit(0);
        }
        pid[w] = p;
    };
    for (int w = 0; w < workers; ++w) {
        sh[w] = new_shared();
        spawn(w, 0, -1);
    }
    int live = workers;
    long lost = 0;
    while (live > 0) {
        int ws;
        pid_t p = waitpid(-1, &ws, 0);
        if (p < 0)
            break;
        int w = -1;
        for (int k = 0; k < workers; ++k)
            if (pid[k] == p)
                w = k;
        if (w < 0)
            continue;
        rm_tree(base_tmp() + "/w" + std::to_string(p));
        if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) {
            --live;
            continue;
        }
        // failure, crash or hang in the current case
        if (!sh[w]->busy) {
            std::cerr << "worker died outside a case\n";
            ++lost;
            --live;
            continue;
        }
        int ap   = sh[w]->law;
        long idx = sh[w]->idx;
        Outcome o;
        o.ch.assign(sh[w]->ch, sh[w]->ch + std::min<uint64_t>((uint64_t)sh[w]->nch, MAXCH));
        if (WIFEXITED(ws) && WEXITSTATUS(ws) == 5) {
            o.status = FAIL;
            o.msg    = sh[w]->text;
        } else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 77) {
            o.status = HANG;
        } else
            o.status = CRASH;
        (void)idx;
        ctl->failed[ap] = 1;
        if (!fails.count(ap))
            fails[ap] = o;
        if (ap + 1 < (int)active.size())
            spawn(w, ap + 1, -1);
        else
            --live;
    }
    double t_explore = now() - t0;

    // merge
    std::vector<LawStat> st(active.size());
    for (int w = 0; w < workers; ++w)
        for (int g = 0; g < gen[w]; ++g) {
            std::ifstream is(base_tmp() + "/out" + std::to_string(w) + "_" + std::to_string(g));
            std::string line;
            while (std::getline(is, line)) {
                std::istringstream ls(line);
                char k;
                int ap;
                ls >> k >> ap;
                if (k == 'L') {
                    long a, b, c;
                    double cpu;
                    ls >> a >> b >> c >> cpu;
                    st[ap].cpu = std::max(st[ap].cpu, cpu);
                    st[ap].eval += a;
                    st[ap].disc += b;
                    st[ap].nontriv += c;
                } else if (k == 'B') {
                    long c;
                    std::string l;
                    ls >> c;
                    std::getline(ls, l);
                    st[ap].labels[l.substr(1)] += c;
                } else if (k == 'H') {
                    uint64_t h;
                    ls >> h;
                    st[ap].distinct.insert(h);
                } else if (k == 'S') {
                    std::string l;
                    std::getline(ls, l);
                    st[ap].samples.push_back(l.substr(1));
                }
            }
        }

    std::ostringstream js;
    js << "{\"explore_s\":" << t_explore << ",\"lost_workers\":" << lost << ",\"laws\":[";
    for (size_t ap = 0; ap < active.size(); ++ap) {
        const Law& l = laws()[active[ap]];
        js << (ap ? "," : "") << "\n{\"property\":\"" << l.prop << "\",\"law\":\"" << l.name << "\",\"rule\":\"" << jesc(l.rule)
           << "\",\"evaluations\":" << st[ap].eval << ",\"discarded\":" << st[ap].disc
           << ",\"nontrivial\":" << st[ap].nontriv << ",\"distinct_nontrivial\":" << st[ap].distinct.size()
           << ",\"max_cpu_s\":" << st[ap].cpu << ",\"labels\":{";
        bool f = true;
        for (auto& lb : st[ap].labels) {
            js << (f ? "" : ",") << "\"" << jesc(lb.first) << "\":" << lb.second;
            f = false;
        }
        js << "},\"samples\":[";
        f = true;
        for (auto& s : st[ap].samples) {
            js << (f ? "" : ",") << "\"" << s << "\"";
            f = false;
        }
        js << "]}";
    }
    js << "],\"failures\":[";
    bool first = true;
    for (auto& kv : fails) {
        const Law& law = laws()[active[kv.first]];
        long attempts  = 0;
        Outcome o      = kv.second;
        Outcome r      = exec(law, o.ch, tier);
        bool stable    = is_bad(r.status);
        if (stable) {
            r = shrink(law, r, tier, shrink_budget / std::max<size_t>(1, fails.size()), attempts);
            for (int k = 0; k < (r.status == HANG || now() > deadline() ? 1 : 3); ++k) {
                Outcome q = exec(law, r.ch, tier);
                if (!is_bad(q.status))
                    stable = false;
                else
                    r = q;
            }
            if (!stable) {  // the shrunk case is not reliable: fall back to the original one
                stable = true;
                for (int k = 0; k < (r.status == HANG || now() > deadline() ? 1 : 3); ++k) {
                    Outcome q = exec(law, o.ch, tier);
                    if (!is_bad(q.status))
                        stable = false;
                    else
                        r = q;
                }
            }
        } else {
            // only fails inside the worker (state of earlier cases): try again a few times
            r.msg = o.msg;
        }
        js << (first ? "" : ",") << "\n{\"property\":\"" << law.prop << "\",\"law\":\"" << law.name << "\",\"stable\":"
           << (stable ? "true" : "false") << ",\"status\":" << r.status << ",\"attempts\":" << attempts
           << ",\"message\":\"" << jesc(r.msg) << "\",\"case\":\"" << jesc(r.notes) << "\",\"choices\":[";
        for (size_t k = 0; k < r.ch.size(); ++k)
            js << (k ? "," : "") << r.ch[k];
        js << "]}";
        first = false;
    }
    js << "]}\n";
    if (out.empty())
        std::cout << js.str();
    else {
        std::ofstream os(out);
        os << js.str();
    }
    rm_tree(base_tmp());
    return fails.empty() ? (lost ? 3 : 0) : 1;
}
}
#ifndef PBT_NO_MAIN
int main(int argc, char** argv) {
    return pbt::main_(argc, argv);
}
#endif
#endif
