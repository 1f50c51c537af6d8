// Support for the bounded-exhaustive explorers in this directory.
//
// A harness describes a finite space of behaviours (operation sequences,
// configurations, inputs, schedules), visits ALL of it, and judges every
// visited state with an oracle.  This header has the bookkeeping: counting,
// violations (deduplicated by a stable key), splitting the space over
// processes, and attributing a crash to the state that was being visited.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <nlohmann/json.hpp>
#include <spdlog/spdlog.h>

namespace mc {

using json = nlohmann::json;

struct Violation { std::string what; std::string state; uint64_t count = 1; };

struct Report {
    uint64_t states = 0;        // distinct model / implementation states judged
    uint64_t transitions = 0;   // operations executed on the implementation
    uint64_t traces = 0;        // complete traces replayed on the implementation and compared with the model
    uint64_t nontrivial = 0;    // states whose verdict was not trivially true
    std::map<std::string, Violation> violations;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> counters;

    void violation(const std::string& key, const std::string& what, const std::string& state) {
        auto it = violations.find(key);
        if (it == violations.end()) violations[key] = {what, state, 1};
        else it->second.count++;
    }
    void sample(const std::string& s) { if (samples.size() < 8) samples.push_back(s); }
    void merge(const Report& o) {
        states += o.states; transitions += o.transitions; traces += o.traces; nontrivial += o.nontrivial;
        for (auto& kv : o.violations) {
            auto it = violations.find(kv.first);
            if (it == violations.end()) violations[kv.first] = kv.second; else it->second.count += kv.second.count;
        }
        for (auto& s : o.samples) sample(s);
        for (auto& kv : o.counters) counters[kv.first] += kv.second;
    }
    json to_json() const {
        json j;
        j["states"] = states; j["transitions"] = transitions; j["traces"] = traces; j["nontrivial"] = nontrivial;
        j["samples"] = samples; j["counters"] = counters; j["violations"] = json::array();
        for (auto& kv : violations)
            j["violations"].push_back({{"key", kv.first}, {"what", kv.second.what}, {"state", kv.second.state}, {"count", kv.second.count}});
        return j;
    }
    static Report from_json(const json& j) {
        Report r;
        r.states = j["states"]; r.transitions = j["transitions"]; r.traces = j["traces"]; r.nontrivial = j["nontrivial"];
        for (auto& s : j["samples"]) r.samples.push_back(s);
        for (auto& [k, v] : j["counters"].items()) r.counters[k] = v;
        for (auto& v : j["violations"]) r.violations[v["key"]] = {v["what"], v["state"], v["count"]};
        return r;
    }
};

struct Options {
    std::string tier = "quick", out, scratch, data, repo = "/repo", mode;
    int jobs = 8;
    bool thorough() const { return tier == "thorough"; }
};

inline Options& options() { static Options o; return o; }

inline void init(int argc, char** argv) {
    auto& o = options();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--tier") o.tier = v;
        else if (a == "--out") o.out = v;
        else if (a == "--scratch") o.scratch = v;
        else if (a == "--data") o.data = v;
        else if (a == "--repo") o.repo = v;
        else if (a == "--mode") o.mode = v;
        else if (a == "--jobs") o.jobs = std::stoi(v);
    }
    spdlog::set_level(spdlog::level::off);
    spdlog::apply_all([](std::shared_ptr<spdlog::logger> l) { l->set_level(spdlog::level::off); });
}

// The label of the state being visited, kept where the parent can read it
// should the visit bring the process down.
inline char*& label_slot() { static char* p = nullptr; return p; }
constexpr size_t kLabel = 4096;
// A visit that burns this many seconds of processor time is taken for a hang.
inline int& visit_limit() { static int s = 100; return s; }
inline void visiting(const std::string& s) {
    if (label_slot()) { itimerval t{{0, 0}, {visit_limit(), 0}}; setitimer(ITIMER_PROF, &t, nullptr); }
    if (char* p = label_slot()) { size_t n = std::min(s.size(), kLabel - 1); memcpy(p, s.data(), n); p[n] = 0; }
}

// Runs fn(item, report) for every item in [0,n), spread over processes.  A
// worker that dies is a violation attributed to the label it had set; the item
// after the one that killed it is taken up by a new worker.
inline Report parallel(size_t n, const std::function<void(size_t, Report&)>& fn,
                       const std::function<std::string(const std::string&)>& crash_key = nullptr) {
    auto& o = options();
    size_t W = std::max<size_t>(1, std::min<size_t>(o.jobs, n));
    std::string dir = o.scratch.empty() ? "/tmp" : o.scratch;
    char* shm = (char*)mmap(nullptr, W * (kLabel + 64), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto* next_p = (size_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *next_p = 0;
    struct Slot { pid_t pid; std::string file; };
    static int generation = 0;
    Report total;
    std::vector<Slot> slots(W);
    auto spawn = [&](size_t w) {
        std::string file = dir + "/mc-" + std::to_string(getpid()) + "-" + std::to_string(w) + "-" + std::to_string(generation++) + ".json";
        std::cout.flush(); std::cerr.flush(); fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            label_slot() = shm + w * (kLabel + 64);
            label_slot()[0] = 0;
            rlimit nocore{0, 0}; setrlimit(RLIMIT_CORE, &nocore);
            Report r;
            auto flush = [&] {
                std::ofstream f(file + ".tmp"); f << r.to_json().dump(-1, ' ', false, json::error_handler_t::replace); f.close();
                rename((file + ".tmp").c_str(), file.c_str());
            };
            auto last = std::chrono::steady_clock::now();
            for (;;) {
                size_t i = __sync_fetch_and_add(next_p, 1);
                if (i >= n) break;
                visiting("item " + std::to_string(i));
                try { fn(i, r); }
                catch (const std::exception& e) {
                    r.violation("harness-exception:" + std::string(label_slot()).substr(0, 120), std::string("unexpected exception: ") + e.what(), label_slot());
                }
                auto now = std::chrono::steady_clock::now();
                if (now - last > std::chrono::milliseconds(200)) { flush(); last = now; }
            }
            flush();
            _exit(0);
        }
        slots[w] = {pid, file};
    };
    for (size_t w = 0; w < W; ++w) spawn(w);
    size_t alive = W, crashes = 0;
    while (alive) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        for (size_t w = 0; w < W; ++w) if (slots[w].pid == p) {
            std::ifstream f(slots[w].file);
            if (f) { json j; f >> j; total.merge(Report::from_json(j)); }
            f.close(); unlink(slots[w].file.c_str());
            bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            if (!ok) {
                std::string lab = shm + w * (kLabel + 64);
                std::string how = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF ? std::string("did not come to an end (stopped)") : WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st))
                                                  : "exited with status " + std::to_string(WEXITSTATUS(st));
                std::string key = crash_key ? crash_key(lab) : lab;
                total.violation("crash:" + key, "process " + how + " while visiting: " + lab, lab);
                if (++crashes < 64) { spawn(w); break; }
            }
            slots[w].pid = -1; --alive;
        }
    }
    munmap(shm, W * (kLabel + 64)); munmap(next_p, 4096);
    return total;
}

inline int finish(const Report& r) {
    std::ofstream f(options().out.empty() ? "/dev/stdout" : options().out);
    f << r.to_json().dump(1, ' ', false, json::error_handler_t::replace) << "\n";
    return 0;
}

inline std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
inline std::string num6(double v) { char b[64]; snprintf(b, sizeof b, "%.6g", v); return b; }

// identical, where NaN equals NaN
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool close(double a, double b, double rel, double abs_ = 0.0) {
    if (same(a, b)) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

} // namespace mc
