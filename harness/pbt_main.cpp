#include "pbt.hpp"
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <fstream>

namespace pbt {
Shared* g_shared = nullptr;
std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
std::vector<Finding>& findings() { static std::vector<Finding> s; return s; }

static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static uint64_t strhash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
static const int CASE_CPU_SECONDS = 30;   // a case takes milliseconds; the margin is > 10^3

static void arm() { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = CASE_CPU_SECONDS; setitimer(ITIMER_PROF, &t, nullptr); }
static void disarm() { struct itimerval t; memset(&t, 0, sizeof t); setitimer(ITIMER_PROF, &t, nullptr); }

static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += '?'; else r += char(c); }
    return r;
}

enum Outcome { PASS, FAILED, DISCARDED };
static Outcome run_case(const Fn& fn, Src& s, Ctx& c, std::string& msg) {
    try { fn(s, c); return PASS; }
    catch (const Fail& f) { msg = f.what(); return FAILED; }
    catch (const Discard&) { return DISCARDED; }
    catch (const std::exception& e) { msg = std::string("exception: ") + e.what(); return FAILED; }
}
static std::string signame(int st) {
    if (WIFSIGNALED(st)) {
        int g = WTERMSIG(st);
        if (g == SIGPROF) return "case did not terminate within " + std::to_string(CASE_CPU_SECONDS) + " s of CPU time";
        return std::string("killed by signal ") + strsignal(g);
    }
    return "exited with status " + std::to_string(WEXITSTATUS(st));
}

/** an assertion ends the child: what was said about the case so far still reaches the report */
static Ctx* g_ctx = nullptr; static int g_fd = -1;
static void on_abort(int) { signal(SIGABRT, SIG_DFL); std::string t = "T" + g_ctx->text.str(); if (write(g_fd, t.data(), t.size()) < 0) {} raise(SIGABRT); }
/** run one choice sequence in a forked child: returns PASS/FAILED/DISCARDED */
static Outcome forked(const Fn& fn, const std::vector<uint64_t>& v, std::string& msg, std::string* text = nullptr, std::vector<uint64_t>* norm = nullptr) {
    int p[2]; if (pipe(p)) { perror("pipe"); _exit(2); }
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        g_shared = nullptr; arm();
        Src s(v); Ctx c; c.want_text = text != nullptr; std::string m;
        if (text) { g_ctx = &c; g_fd = p[1]; signal(SIGABRT, on_abort); }
        Outcome o = run_case(fn, s, c, m);
        std::string out(1, char('0' + o));
        auto put = [&](const std::string& x) { uint32_t n = x.size(); out.append((char*)&n, 4); out += x; };
        put(m); put(c.text.str());
        auto vals = s.values(); out.append((char*)vals.data(), vals.size() * 8);
        size_t off = 0; while (off < out.size()) { ssize_t k = write(p[1], out.data() + off, out.size() - off); if (k <= 0) break; off += k; }
        _exit(0);
    }
    close(p[1]);
    std::string in; char buf[65536]; ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) in.append(buf, k);
    close(p[0]); int st = 0; waitpid(pid, &st, 0);
    if (in.empty() || !WIFEXITED(st) || WEXITSTATUS(st)) { msg = signame(st); if (text && !in.empty() && in[0] == 'T') *text = in.substr(1); return FAILED; }
    size_t off = 1; auto get = [&]() { uint32_t n; memcpy(&n, &in[off], 4); std::string r = in.substr(off + 4, n); off += 4 + n; return r; };
    msg = get(); std::string t = get(); if (text) *text = t;
    if (norm) { norm->resize((in.size() - off) / 8); memcpy(norm->data(), &in[off], norm->size() * 8); }
    return Outcome(in[0] - '0');
}

static std::vector<uint64_t> shrink(const Fn& fn, std::vector<uint64_t> v, int budget) {
    std::string m; auto t0 = std::chrono::steady_clock::now();
    auto still = [&](const std::vector<uint64_t>& c) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 25) budget = 0;   // shrinking only improves the report
        if (budget-- <= 0) return false; return forked(fn, c, m) == FAILED; };
    bool progress = true;
    while (progress && budget > 0) {
        progress = false;
        for (size_t len = std::max<size_t>(1, v.size() / 2); len >= 1 && budget > 0; len /= 2) {      // delete chunks
            for (size_t i = 0; i + len <= v.size() && budget > 0;) {
                auto c = v; c.erase(c.begin() + i, c.begin() + i + len);
                if (still(c)) { v = c; progress = true; } else i += len;
            }
            if (len == 1) break;
        }
        for (size_t len = std::max<size_t>(1, v.size() / 2); len >= 1 && budget > 0; len /= 2) {      // zero chunks
            for (size_t i = 0; i + len <= v.size() && budget > 0; i += len) {
                auto c = v; bool ch = false; for (size_t j = i; j < i + len; j++) { ch |= c[j] != 0; c[j] = 0; }
                if (ch && still(c)) { v = c; progress = true; }
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < v.size() && budget > 0; i++) {                                          // reduce values
            uint64_t lo = 0, hi = v[i];
            int g = 0;
            while (lo < hi && g++ < 8 && budget > 0) { auto c = v; c[i] = lo + (hi - lo) / 2; if (still(c)) { hi = c[i]; v = c; progress = true; } else lo = c[i] + 1; }
        }
        while (!v.empty() && v.back() == 0) v.pop_back();
    }
    return v;
}

struct Failure { size_t sub; std::vector<uint64_t> v; std::string msg; };

static std::string hexv(const std::vector<uint64_t>& v) { std::ostringstream o; for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i]; return o.str(); }

int main_(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    mallopt(M_PERTURB, 0xA5);
    // code under test may print: keep our stdout, silence theirs
    int keep = dup(1);
    FILE* out = fdopen(keep, "w");
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    if (!getenv("PBT_STDERR")) dup2(dn, 2);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);

    if (a.count("--replay")) {       // file: line 1 sub name, line 2 choices
        std::ifstream f(a["--replay"]); std::string name, line; std::getline(f, name); std::getline(f, line);
        std::istringstream is(line); std::vector<uint64_t> v; uint64_t x; while (is >> x) v.push_back(x);
        for (auto& s : subs()) if (s.name == name) {
            std::string msg, text; Outcome o = forked(s.fn, v, msg, &text);
            fprintf(out, "%s\n%s\n%s\n", o == FAILED ? "FAIL" : o == PASS ? "PASS" : "DISCARD", msg.c_str(), text.c_str()); fflush(out);
            return o == FAILED ? 1 : 0;
        }
        fprintf(out, "unknown sub-property %s\n", name.c_str()); fflush(out); return 3;
    }

    uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), nullptr, 10) : 1;
    bool thorough = a["--tier"] == "thorough";
    double scale = a.count("--scale") ? atof(a["--scale"].c_str()) : 1.0;
    int W = a.count("--workers") ? atoi(a["--workers"].c_str()) : 8;
    double limit = a.count("--limit") ? atof(a["--limit"].c_str()) : 1e9;
    std::string only = a.count("--only") ? a["--only"] : "";
    std::string dir = a.count("--dir") ? a["--dir"] : "/tmp";
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };

    // --- workers -----------------------------------------------------------------------------------------
    struct SubStat { uint64_t evals = 0, disc = 0, nt = 0; std::map<std::string, uint64_t> labels; };
    std::vector<SubStat> stat(subs().size());
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::vector<Failure> fails;
    bool truncated = false;

    struct Worker { pid_t pid; int fd; Shared* sh; std::string buf; uint64_t start_sub, start_idx; bool done; };
    std::vector<Worker> ws(W);
    std::vector<uint64_t> count(subs().size());
    for (size_t k = 0; k < subs().size(); k++) {
        double n = thorough ? subs()[k].thorough : subs()[k].quick;
        count[k] = (only.empty() || subs()[k].name.find(only) != std::string::npos) ? uint64_t(std::max(1.0, n * scale)) : 0;
    }
    std::vector<char> sub_dead(subs().size(), 0);

    auto spawn = [&](int w) {
        Worker& wk = ws[w];
        int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]); g_shared = wk.sh;
            auto emit = [&](const std::string& l) { std::string s = l + "\n"; size_t off = 0; while (off < s.size()) { ssize_t k = write(p[1], s.data() + off, s.size() - off); if (k <= 0) _exit(9); off += k; } };
            for (uint64_t k = wk.start_sub; k < subs().size(); k++) {
                SubStat st; std::vector<uint64_t> hs; int nsamp = 0;
                uint64_t i0 = k == wk.start_sub ? wk.start_idx : w;
                auto flush = [&]() {
                    std::ostringstream o; o << "S " << k << " " << st.evals << " " << st.disc << " " << st.nt; emit(o.str());
                    for (auto& l : st.labels) { std::ostringstream q; q << "L " << k << " " << l.second << " " << l.first; emit(q.str()); }
                    std::ostringstream h; h << "H"; for (auto x : hs) h << " " << x; emit(h.str());
                    st = SubStat(); hs.clear();
                };
                if (sub_dead[k]) continue;
                for (uint64_t i = i0; i < count[k]; i += W) {
                    if ((st.evals & 63) == 63) { flush(); if (elapsed() > limit) { emit("T"); emit("E"); _exit(0); } }
                    uint64_t cs = mix(mix(seed ^ strhash(subs()[k].name)) + i);
                    wk.sh->sub = k; wk.sh->index = i; wk.sh->n = 0; wk.sh->running = 1;
                    Src s(cs); Ctx c; std::string msg;
                    c.want_text = w == 0 && nsamp < 1 && i > i0;
                    arm(); Outcome o = run_case(subs()[k].fn, s, c, msg); disarm();
                    wk.sh->running = 0;
                    st.evals++;
                    if (o == DISCARDED) { st.disc++; continue; }
                    for (auto& l : c.labels) st.labels[l.first] += l.second;
                    if (c.nontrivial) { st.nt++; uint64_t h = strhash(subs()[k].name); for (auto& q : s.log()) h = mix(h ^ q.v); hs.push_back(h);
                        if (c.want_text) { nsamp++; emit("X " + subs()[k].name + ": " + esc(c.text.str())); } }
                    if (o == FAILED) { flush(); std::ostringstream q; q << "F " << k << " " << s.log().size(); for (auto& x : s.log()) q << " " << x.v; q << " " << esc(msg); emit(q.str()); break; }
                }
                flush();
            }
            emit("E"); _exit(0);
        }
        close(p[1]); wk.pid = pid; wk.fd = p[0]; wk.buf.clear(); wk.done = false;
    };
    for (int w = 0; w < W; w++) {
        ws[w].sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        ws[w].start_sub = 0; ws[w].start_idx = w; spawn(w);
    }
    int live = W, timeouts = 0;
    while (live > 0) {
        fd_set fs; FD_ZERO(&fs); int mx = 0;
        for (auto& wk : ws) if (!wk.done) { FD_SET(wk.fd, &fs); mx = std::max(mx, wk.fd); }
        if (select(mx + 1, &fs, nullptr, nullptr, nullptr) < 0) continue;
        for (int w = 0; w < W; w++) {
            Worker& wk = ws[w]; if (wk.done || !FD_ISSET(wk.fd, &fs)) continue;
            char buf[65536]; ssize_t n = read(wk.fd, buf, sizeof buf);
            if (n > 0) { wk.buf.append(buf, n); continue; }
            close(wk.fd); int st = 0; waitpid(wk.pid, &st, 0);
            bool clean = false;
            std::istringstream is(wk.buf); std::string line;
            while (std::getline(is, line)) {
                std::istringstream l(line.substr(1)); char k = line.empty() ? ' ' : line[0];
                if (k == 'S') { uint64_t s, e, d, nt; l >> s >> e >> d >> nt; stat[s].evals += e; stat[s].disc += d; stat[s].nt += nt; }
                else if (k == 'L') { uint64_t s, c; std::string nm; l >> s >> c; std::getline(l, nm); stat[s].labels[nm.substr(1)] += c; }
                else if (k == 'H') { uint64_t h; while (l >> h) distinct.insert(h); }
                else if (k == 'X') { samples.push_back(line.substr(2)); }
                else if (k == 'F') { Failure f; size_t nv; l >> f.sub >> nv; f.v.resize(nv); for (auto& x : f.v) l >> x; std::getline(l, f.msg); fails.push_back(f); }
                else if (k == 'T') truncated = true;
                else if (k == 'E') clean = true;
            }
            if (clean) { wk.done = true; live--; continue; }
            if (wk.sh->running) {   // the code under test crashed in this case
                Failure f; f.sub = wk.sh->sub; for (uint64_t i = 0; i < wk.sh->n; i++) f.v.push_back(wk.sh->c[i].v);
                f.msg = signame(st); fails.push_back(f); stat[f.sub].evals++; timeouts += f.msg.find("terminate") != std::string::npos;
                if (timeouts > 2 * W || elapsed() > limit) { truncated = true; wk.done = true; live--; continue; }
                sub_dead[f.sub] = 1; wk.start_sub = f.sub + 1; wk.start_idx = w; wk.sh->running = 0;
                spawn(w);
            } else { fprintf(out, "{\"error\": \"worker died outside a case: %s\"}\n", signame(st).c_str()); fflush(out); return 2; }
        }
    }

    // --- findings -----------------------------------------------------------------------------------------
    std::ostringstream js; js << "{\n \"findings\": [";
    bool first = true;
    if (only.empty()) for (auto& f : findings()) {
        std::string msg, text; Outcome o = forked(f.fn, {}, msg, &text);
        js << (first ? "" : ",") << "\n  {\"name\": \"" << f.name << "\", \"fails\": " << (o == FAILED ? "true" : "false") << ", \"msg\": \"" << esc(msg) << "\"}"; first = false;
    }
    js << "],\n \"failures\": [";
    // --- confirm and shrink: the first failure of each sub-property -----------------------------------------
    std::set<size_t> seen; first = true; int flaky = 0; int shrunk = 0;
    for (auto& f : fails) {
        if (seen.count(f.sub)) continue;
        const Fn& fn = subs()[f.sub].fn; std::string m; int rep = 0, reps = f.msg.find("terminate") != std::string::npos ? 1 : 3;
        if (reps == 1 && elapsed() > limit / 2 && !seen.empty()) continue;
        for (int i = 0; i < reps; i++) rep += forked(fn, f.v, m) == FAILED;
        if (rep < reps) { flaky++; fprintf(stderr, "flaky\n"); continue; }
        seen.insert(f.sub);
        std::vector<uint64_t> v = f.v;
        if (shrunk++ < 3 && reps == 3) v = shrink(fn, f.v, 1500);
        std::string text; int r2 = 0; for (int i = 0; i < reps; i++) r2 += forked(fn, v, m, &text) == FAILED;
        if (r2 < reps) { v = f.v; forked(fn, v, m, &text); }
        std::string path = dir + "/" + subs()[f.sub].name + ".case";
        { std::ofstream o(path); o << subs()[f.sub].name << "\n" << hexv(v) << "\n# " << esc(m) << "\n# " << esc(text) << "\n"; }
        js << (first ? "" : ",") << "\n  {\"sub\": \"" << subs()[f.sub].name << "\", \"replay\": \"" << path << "\", \"msg\": \"" << esc(m) << "\", \"case\": \"" << esc(text) << "\"}"; first = false;
    }
    js << "],\n \"flaky\": " << flaky << ",\n \"truncated\": " << (truncated ? "true" : "false") << ",\n \"subs\": {";
    uint64_t ev = 0, nt = 0; first = true;
    for (size_t k = 0; k < subs().size(); k++) {
        ev += stat[k].evals; nt += stat[k].nt;
        js << (first ? "" : ",") << "\n  \"" << subs()[k].name << "\": {\"evaluations\": " << stat[k].evals << ", \"discarded\": " << stat[k].disc << ", \"nontrivial\": " << stat[k].nt << ", \"labels\": {";
        bool ff = true; for (auto& l : stat[k].labels) { js << (ff ? "" : ", ") << "\"" << esc(l.first) << "\": " << l.second; ff = false; }
        js << "}}"; first = false;
    }
    js << "},\n \"evaluations\": " << ev << ",\n \"nontrivial\": " << nt << ",\n \"distinct_nontrivial\": " << distinct.size() << ",\n \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) js << (i ? "," : "") << "\n  \"" << samples[i].substr(0, 1500) << "\"";
    js << "],\n \"wall_s\": " << elapsed() << "\n}\n";
    fputs(js.str().c_str(), out); fflush(out);
    return 0;
}
}  // namespace pbt
#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
