#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <algorithm>
#include <new>

// Fresh heap memory holds NaN patterns, so reads of uninitialised buffers are visible.
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_NO_NEW)
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, 0xFF, n); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif

namespace pbt {
namespace {

static const int MAXS = 96, MAXL = 400, LLEN = 56, MAXW = 16; static const size_t MAXH = 400000;
struct Shm {                                  // one per worker
    volatile int32_t cur_suite; volatile uint32_t cur_idx; uint32_t nch; uint64_t ch[Src::MAXC];
    uint32_t evals[MAXS], disc[MAXS]; 
    int32_t fail_set[MAXS]; uint32_t fail_idx[MAXS]; char fail_key[MAXS][128]; char fail_msg[MAXS][1200];
    uint32_t known_hits[MAXS];
    char lab[MAXL][LLEN]; uint64_t labn[MAXL];
    uint32_t nh; uint64_t h[MAXH];
    uint32_t ns; char sample[12][900]; 
    uint32_t round_done; int32_t finished;
    // single-case evaluation result
    int32_t res; char rkey[128]; char rmsg[1800]; char rdesc[6000];
};
enum { RS_OK = 0, RS_FAIL = 1, RS_DISC = 2, RS_CRASH = 3 };

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
template <size_t N> void cpy(char (&d)[N], const std::string& s) { std::snprintf(d, N, "%s", s.c_str()); }
uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9e3779b97f4a7c15ull ^ (b + 0x632be59bd9b4e019ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; return z ? z : 1; }
uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (unsigned char)c) * 0x100000001b3ull; return h; }
Shm* mkshm() { void* p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return (Shm*)p; }

int cpu_limit = 40;
void arm(int s) { itimerval t; std::memset(&t, 0, sizeof t); t.it_value.tv_sec = s; setitimer(ITIMER_VIRTUAL, &t, 0); }

struct Known { std::string prop, key, replay, text; };
std::vector<Known> knowns;
bool is_known(const std::string& key) { for (auto& k : knowns) if (k.key == key) return true; return false; }

int exec_case(const Suite& su, Src& s, std::string& key, std::string& msg) {
    arm(cpu_limit);
    int r = RS_OK;
    try { su.fn(s); }
    catch (const Discard&) { r = RS_DISC; }
    catch (const Fail& f) { r = RS_FAIL; key = su.name + "/" + f.key; msg = f.msg; }
    catch (const std::exception& e) { r = RS_FAIL; key = su.name + "/exception"; msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { r = RS_FAIL; key = su.name + "/exception"; msg = "unexpected non-std exception"; }
    arm(0);
    return r;
}

struct Opt { std::string prop, tier = "quick", out, replay, suite, vdir = ".", known; uint64_t seed = 1; int jobs = 8; double budget = 60; double scale = 1; int retry = 1; bool stats = false; long only = -1; } opt;

void add_label(Shm* m, const std::string& l) {
    for (int k = 0; k < MAXL; ++k) {
        if (!m->lab[k][0]) { cpy(m->lab[k], l); m->labn[k] = 1; return; }
        if (!std::strncmp(m->lab[k], l.c_str(), LLEN - 1)) { ++m->labn[k]; return; }
    }
}

uint32_t total(const Suite& s) { double c = (opt.tier == "thorough" ? s.thorough : s.quick) * opt.scale; return c < 1 ? 1 : (uint32_t)c; }
static const uint32_t ROUNDS = 16;

void worker(Shm* m, int w, int W, double t_end, uint32_t from_round, int from_suite) {
    auto& S = suites();
    for (uint32_t r = from_round; r < ROUNDS; ++r) {
        for (size_t k = (r == from_round ? from_suite : 0); k < S.size(); ++k) {
            uint32_t N = total(S[k]);
            uint32_t a = (uint64_t)N * r / ROUNDS, b = (uint64_t)N * (r + 1) / ROUNDS;
            for (uint32_t idx = a; idx < b; ++idx) {
                if ((int)(idx % W) != w) continue;
                if (m->fail_set[k]) break;
                if (opt.only >= 0 && idx != opt.only) continue;
                if (now() > t_end) goto done;
                m->cur_suite = (int)k; m->cur_idx = idx; m->round_done = r;
                Src s(m->ch, &m->nch, mix(mix(opt.seed, hstr(S[k].name)), idx));
                s.verbose = m->ns < 12 && (idx / W) % 7 == 3;
                std::string key, msg;
                int res = exec_case(S[k], s, key, msg);
                ++m->evals[k];
                if (res == RS_DISC) { ++m->disc[k]; continue; }
                if (res == RS_FAIL) {
                    if (is_known(key)) { ++m->known_hits[k]; continue; }
                    m->fail_set[k] = 1; m->fail_idx[k] = idx; cpy(m->fail_key[k], key); cpy(m->fail_msg[k], msg);
                    break;
                }
                for (auto& l : s.labels) add_label(m, S[k].name + ":" + l);
                if (s.nt && m->nh < MAXH) m->h[m->nh++] = mix(s.hash(), hstr(S[k].name));
                if (s.nt && s.verbose && m->ns < 12 && !s.desc.empty()) cpy(m->sample[m->ns++], S[k].name + "#" + std::to_string(idx) + ": " + s.desc);
            }
        }
    }
done:
    m->cur_suite = -1; m->finished = 1;
}

// evaluate one choice list in a forked child
Shm* ev = 0;
int eval_fork(const Suite& su, const std::vector<uint64_t>& ch, uint64_t rng, bool verbose) {
    ev->res = RS_CRASH; ev->rkey[0] = ev->rmsg[0] = ev->rdesc[0] = 0; ev->nch = 0;
    std::fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        { FILE* f = freopen("/dev/null", "w", stderr); (void)f; }
        std::string key, msg; int r;
        if (rng) { Src s(ev->ch, &ev->nch, rng); s.verbose = verbose; if (verbose) { s.live = ev->rdesc; s.liven = sizeof ev->rdesc; } r = exec_case(su, s, key, msg); if (verbose) cpy(ev->rdesc, s.desc); }
        else { Src s(ev->ch, &ev->nch, ch); s.verbose = verbose; if (verbose) { s.live = ev->rdesc; s.liven = sizeof ev->rdesc; } r = exec_case(su, s, key, msg); if (verbose) cpy(ev->rdesc, s.desc); }
        cpy(ev->rkey, key); cpy(ev->rmsg, msg); ev->res = r; _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || ev->res == RS_CRASH) {
        ev->res = RS_FAIL;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) { cpy(ev->rkey, su.name + "/nontermination"); cpy(ev->rmsg, "no result within " + std::to_string(cpu_limit) + " s of CPU time"); }
        else { cpy(ev->rkey, su.name + "/crash"); cpy(ev->rmsg, WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "abnormal exit (sanitizer report or abort), status " + std::to_string(WEXITSTATUS(st))); }
    }
    return ev->res;
}

// schedule-dependent checks: a failing case may pass in some runs, so it gets several attempts
int eval_retry(const Suite& su, const std::vector<uint64_t>& ch, uint64_t rng, bool verbose, int tries) { int r = RS_FAIL + 1; for (int k = 0; k < tries && (r = eval_fork(su, ch, rng, verbose)) != RS_FAIL; ++k) {} return r; }

std::vector<uint64_t> shrink(const Suite& su, std::vector<uint64_t> best, const std::string& key) {
    double t0 = now(); int evals = 0; const int maxe = 3000; const double maxt = opt.retry > 1 ? 10 : key.find("nontermination") != std::string::npos ? 20 : 30;
    auto ok = [&](const std::vector<uint64_t>& c) {
        if (evals++ > maxe || now() - t0 > maxt) return false;
        if (eval_retry(su, c, 0, false, (opt.retry + 3) / 4) == RS_FAIL && key == ev->rkey) return true;
        return false;
    };
    bool progress = true;
    while (progress && evals < maxe && now() - t0 < maxt) {
        progress = false;
        // drop the tail
        for (size_t cut = best.size() / 2; cut >= 1; cut /= 2)
            while (best.size() >= cut) { auto c = best; c.resize(c.size() - cut); if (ok(c)) { best = c; progress = true; } else break; }
        // delete blocks
        for (size_t len : {16, 8, 4, 2, 1})
            for (size_t a = 0; a + len <= best.size();) { auto c = best; c.erase(c.begin() + a, c.begin() + a + len); if (ok(c)) { best = c; progress = true; } else a += len; if (evals > maxe) break; }
        // zero blocks, then single values
        for (size_t len : {8, 4, 2, 1})
            for (size_t a = 0; a + len <= best.size(); a += len) {
                bool any = false; auto c = best; for (size_t j = a; j < a + len; ++j) { if (c[j]) any = true; c[j] = 0; }
                if (any && ok(c)) { best = c; progress = true; }
            }
        for (size_t a = 0; a < best.size(); ++a) {
            uint64_t lo = 0, hi = best[a];
            while (lo + 1 < hi) { uint64_t mid = lo + (hi - lo) / 2; auto c = best; c[a] = mid; if (ok(c)) { best = c; hi = mid; progress = true; } else lo = mid; if (evals > maxe) break; }
        }
    }
    while (!best.empty() && best.back() == 0) best.pop_back();
    return best;
}

std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += ' '; else o += c; } return o; }

bool load_replay(const std::string& f, std::string& suite, std::vector<uint64_t>& ch) {
    std::ifstream in(f); std::string l; bool got = false;
    while (std::getline(in, l)) {
        if (l.compare(0, 6, "suite ") == 0) suite = l.substr(6);
        if (l.compare(0, 8, "choices ") == 0 || l == "choices") { std::istringstream i(l.substr(7)); uint64_t v; ch.clear(); while (i >> v) ch.push_back(v); got = true; }
    }
    return got;
}
const Suite* find_suite(const std::string& n) { for (auto& s : suites()) if (s.name == n) return &s; return 0; }
} // namespace

int run_main(int argc, char** argv) {
    for (int k = 1; k < argc; ++k) {
        std::string a = argv[k]; auto v = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
        if (a == "--prop") opt.prop = v(); else if (a == "--tier") opt.tier = v(); else if (a == "--seed") opt.seed = std::strtoull(v().c_str(), 0, 10);
        else if (a == "--out") opt.out = v(); else if (a == "--jobs") opt.jobs = atoi(v().c_str()); else if (a == "--budget") opt.budget = atof(v().c_str());
        else if (a == "--scale") opt.scale = atof(v().c_str()); else if (a == "--retry") opt.retry = atoi(v().c_str()); else if (a == "--replay") opt.replay = v(); else if (a == "--suite") opt.suite = v();
        else if (a == "--vdir") opt.vdir = v(); else if (a == "--known") opt.known = v(); else if (a == "--stats") opt.stats = true; else if (a == "--cpu") cpu_limit = atoi(v().c_str()); else if (a == "--only") opt.only = atol(v().c_str());
    }
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    std::sort(suites().begin(), suites().end(), [](const Suite& a, const Suite& b) { return a.name < b.name; });
    if (!opt.known.empty()) {
        std::ifstream in(opt.known); std::string l;
        while (std::getline(in, l)) {
            if (l.compare(0, 6, "known:") != 0) continue;
            Known k; std::istringstream i(l.substr(6)); std::string tok;
            while (i >> tok) { if (tok.compare(0, 9, "property=") == 0) k.prop = tok.substr(9); else if (tok.compare(0, 4, "key=") == 0) k.key = tok.substr(4); else if (tok.compare(0, 7, "replay=") == 0) k.replay = tok.substr(7); else { std::getline(i, k.text); k.text = tok + k.text; } }
            if (k.prop == opt.prop) knowns.push_back(k);
        }
    }
    ev = mkshm();
    if (!opt.replay.empty()) {
        std::string sn; std::vector<uint64_t> ch; if (!load_replay(opt.replay, sn, ch)) { std::cerr << "bad replay file\n"; return 3; }
        const Suite* s = find_suite(sn); if (!s) { std::cerr << "no suite " << sn << "\n"; return 3; }
        int r = eval_retry(*s, ch, 0, true, opt.retry);
        std::cout << "case: " << ev->rdesc << "\n" << (r == RS_FAIL ? std::string("FAIL ") + ev->rkey + ": " + ev->rmsg : r == RS_DISC ? "DISCARDED" : "PASS") << "\n";
        if (r == RS_FAIL) { std::cout << "VIOLATION property=" << opt.prop << " replay=" << opt.replay << "\n"; return 1; }
        return 0;
    }
    if (!opt.suite.empty()) { auto& S = suites(); S.erase(std::remove_if(S.begin(), S.end(), [](const Suite& s) { return s.name.find(opt.suite) == std::string::npos; }), S.end()); }
    auto& S = suites();
    if (S.size() > (size_t)MAXS) { std::cerr << "too many suites\n"; return 3; }
    double t0 = now(), t_end = t0 + opt.budget;

    // 1. listed findings must still be the ones listed
    int nviol = 0; std::vector<std::string> flaky;
    for (auto& k : knowns) {
        std::string sn; std::vector<uint64_t> ch;
        if (!load_replay(opt.vdir + "/" + k.replay, sn, ch)) continue;
        const Suite* s = find_suite(sn); if (!s) continue;
        if (eval_fork(*s, ch, 0, false) == RS_FAIL && k.key == ev->rkey) std::cout << "KNOWN-FINDING: property=" << k.prop << " " << k.text << std::endl;
    }

    // 2. search
    int W = std::max(1, std::min(opt.jobs, MAXW)); std::vector<Shm*> m(W); std::map<pid_t, int> pids;
    for (int w = 0; w < W; ++w) { m[w] = mkshm(); m[w]->cur_suite = -1; }
    auto spawn = [&](int w, uint32_t fr, int fs) {
        std::fflush(stdout); std::cout.flush();
        pid_t p = fork();
        if (p == 0) { FILE* f = freopen("/dev/null", "w", stderr); (void)f; worker(m[w], w, W, t_end, fr, fs); _exit(0); }
        pids[p] = w;
    };
    for (int w = 0; w < W; ++w) spawn(w, 0, 0);
    while (!pids.empty()) {
        int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break;
        auto it = pids.find(p); if (it == pids.end()) continue;
        int w = it->second; pids.erase(it);
        if (m[w]->finished) continue;
        int k = m[w]->cur_suite; if (k < 0) continue;
        m[w]->fail_set[k] = 1; m[w]->fail_idx[k] = m[w]->cur_idx;
        bool tmo = WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM;
        cpy(m[w]->fail_key[k], S[k].name + (tmo ? "/nontermination" : "/crash")); cpy(m[w]->fail_msg[k], "crash");
        ++m[w]->evals[k];
        spawn(w, m[w]->round_done, k);
    }
    double t_search = now() - t0;

    // 3. shrink and confirm
    for (size_t k = 0; k < S.size(); ++k) {
        std::vector<std::pair<uint32_t, int>> cand; for (int w = 0; w < W; ++w) if (m[w]->fail_set[k]) cand.push_back({m[w]->fail_idx[k], w});
        if (cand.empty()) continue;
        std::sort(cand.begin(), cand.end()); if (opt.retry <= 1) cand.resize(1);
        uint32_t idx = 0; std::string key, unrep; std::vector<uint64_t> ch; bool confirmed = false, known = false;
        for (auto& cw : cand) {
            idx = cw.first; key = m[cw.second]->fail_key[k]; if (unrep.empty()) unrep = key + " #" + std::to_string(idx);
            uint64_t rng = mix(mix(opt.seed, hstr(S[k].name)), idx);
            // reproduce from the seed to obtain the choices
            if (eval_retry(S[k], {}, rng, false, opt.retry) != RS_FAIL) continue;
            key = ev->rkey; ch.assign(ev->ch, ev->ch + ev->nch); const std::vector<uint64_t> full = ch;
            if (is_known(key)) { known = true; break; }
            if (nviol < 3) ch = shrink(S[k], ch, key);
            auto confirm = [&] { int again = 0; for (int r = 0; r < (opt.retry > 1 ? 1 : 3); ++r) if (eval_retry(S[k], ch, 0, true, opt.retry) == RS_FAIL && key == ev->rkey) ++again; return again == (opt.retry > 1 ? 1 : 3); };
            if (confirm()) { confirmed = true; break; }
            if (opt.retry > 1) { ch = full; if (confirm()) { confirmed = true; break; } }
        }
        if (known) continue;
        if (!confirmed) { flaky.push_back(unrep); continue; }
        ::mkdir((opt.vdir + "/replays").c_str(), 0777);
        std::string rf = "replays/" + opt.prop + "_" + S[k].name + ".replay";
        { std::ofstream o(opt.vdir + "/" + rf); o << "property " << opt.prop << "\nsuite " << S[k].name << "\nkey " << key << "\nseed " << opt.seed << " index " << idx << "\nchoices"; for (auto c : ch) o << " " << c; o << "\nwhat " << ev->rmsg << "\ncase " << ev->rdesc << "\nrerun ./run.py " << opt.prop << " --replay " << rf << "\n"; }
        std::cout << "FAILED " << key << ": " << ev->rmsg << "\n  case: " << ev->rdesc << std::endl;
        std::cout << "VIOLATION property=" << opt.prop << " replay=" << rf << std::endl; ++nviol;
    }

    // 4. evidence
    uint64_t evals = 0, disc = 0; std::set<uint64_t> hs; std::map<std::string, uint64_t> lab; std::vector<std::string> samp;
    std::ostringstream per; bool first = true; uint64_t knownhits = 0;
    for (size_t k = 0; k < S.size(); ++k) { uint64_t e = 0, d = 0, kh = 0; for (int w = 0; w < W; ++w) { e += m[w]->evals[k]; d += m[w]->disc[k]; kh += m[w]->known_hits[k]; } evals += e; disc += d; knownhits += kh; per << (first ? "" : ",") << "\"" << S[k].name << "\":{\"cases\":" << e << ",\"planned\":" << total(S[k]) << ",\"discarded\":" << d << ",\"known_finding_hits\":" << kh << "}"; first = false; }
    for (int w = 0; w < W; ++w) { hs.insert(m[w]->h, m[w]->h + m[w]->nh); for (int k = 0; k < MAXL && m[w]->lab[k][0]; ++k) lab[m[w]->lab[k]] += m[w]->labn[k]; }
    for (uint32_t j = 0; j < 12 && samp.size() < 12; ++j) for (int w = 0; w < W && samp.size() < 12; ++w) if (j < m[w]->ns) samp.push_back(m[w]->sample[j]);
    std::string rules; for (auto& s : S) rules += s.name + ": " + s.rule + "; ";
    if (!opt.out.empty()) {
        std::ofstream o(opt.out);
        o << "{\"property\":\"" << opt.prop << "\",\"tier\":\"" << opt.tier << "\",\"seed\":" << opt.seed << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << hs.size()
          << ",\"discarded\":" << disc << ",\"known_finding_hits\":" << knownhits << ",\"rule\":\"" << jesc("cases are drawn as bounded choice streams from VERIF_SEED; non-trivial per suite - " + rules) << "\",\"samples\":[";
        for (size_t k = 0; k < samp.size(); ++k) o << (k ? "," : "") << "\"" << jesc(samp[k]) << "\"";
        o << "],\"suites\":{" << per.str() << "},\"classes\":{"; first = true;
        for (auto& l : lab) { o << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
        o << "},\"unreproducible\":["; for (size_t k = 0; k < flaky.size(); ++k) o << (k ? "," : "") << "\"" << jesc(flaky[k]) << "\"";
        o << "],\"search_s\":" << t_search << "},\"wall_s\":" << now() - t0 << ",\"violations\":" << nviol << "}\n";
    }
    std::cout << opt.prop << " " << opt.tier << " seed=" << opt.seed << ": " << evals << " cases, " << hs.size() << " distinct non-trivial, " << disc << " discarded, " << nviol << " violations, " << flaky.size() << " unreproducible, " << t_search << " s" << std::endl;
    for (auto& f : flaky) std::cout << "  unreproducible: " << f << std::endl;
    if (opt.stats) { for (size_t k = 0; k < S.size(); ++k) { uint64_t e = 0, d = 0; for (int w = 0; w < W; ++w) { e += m[w]->evals[k]; d += m[w]->disc[k]; } std::cout << "  " << S[k].name << " " << e << "/" << total(S[k]) << " disc " << d << "\n"; } for (auto& l : lab) std::cout << "    " << l.first << " " << l.second << "\n"; }
    return nviol ? 1 : 0;
}
} // namespace pbt
int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
