// Case driver and event monitor shared by all drivers.
//
// A driver is a list of independent cases. Case k of seed s is generated by Rng(s, k) only, so that every case can be
// replayed on its own. Every oracle decision is reported through Mon::check; what was observed is summarised in json.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP

#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

inline std::string fmt(const char *f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

struct Rng {
    uint64_t s;

    explicit Rng(uint64_t seed, uint64_t c = 0) : s(seed * 0x9E3779B97F4A7C15ull + c * 0xD1B54A32D192ED03ull + 0x1234567) {
        for (int i = 0; i < 4; ++i) next();
    }

    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    double U(double a = 0, double b = 1) { return a + (b - a) * ((next() >> 11) * 0x1.0p-53); }

    double L(double a, double b) { return std::exp(U(std::log(a), std::log(b))); } // log-uniform

    int I(int a, int b) { return a + (int) (next() % (uint64_t) (b - a + 1)); }    // inclusive

    bool P(double p) { return U() < p; }

    double S() { return next() & 1 ? 1 : -1; }
};

inline std::string jsonEscape(const std::string &s) {
    std::string r;
    for (unsigned char c: s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c < 0x20) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r;
}

class Mon {
    std::mutex mtx;
public:
    std::string prop, outFile;
    uint64_t seed = 1;
    bool thorough = false, verbose = false, replay = false;
    long caseNo = 0, cases = 0, skipped = 0, evaluations = 0, violations = 0;
    std::string desc;
    std::map<std::string, long> counts;          // evaluations per oracle
    std::map<std::string, double> worst;         // largest observed error / allowed error
    std::map<std::string, std::string> worstCase;
    std::map<std::string, long> observed;        // coverage counters
    std::set<uint64_t> distinctSet;
    std::vector<std::string> samples;
    FILE *viol = nullptr;

    static uint64_t hash(const std::string &s) {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c: s) h = (h ^ c) * 1099511628211ull;
        return h;
    }

    void describe(const std::string &d) {
        desc = d;
        if (samples.size() < 6) samples.push_back(fmt("case %ld: ", caseNo) + d);
    }

    void seen(const std::string &what, long n = 1) {
        std::lock_guard<std::mutex> g(mtx);
        observed[what] += n;
    }

    void distinct(const std::string &token) {
        std::lock_guard<std::mutex> g(mtx);
        distinctSet.insert(hash(token));
    }

    void violation(const std::string &oracle, const std::string &detail) {
        std::lock_guard<std::mutex> g(mtx);
        ++violations;
        if (violations <= 200) {
            std::string line = fmt("{\"case\":%ld,\"oracle\":\"%s\",\"detail\":\"%s\",\"problem\":\"%s\"}\n", caseNo,
                                   jsonEscape(oracle).c_str(), jsonEscape(detail).substr(0, 1500).c_str(),
                                   jsonEscape(desc).substr(0, 1500).c_str());
            if (viol) {
                fputs(line.c_str(), viol);
                fflush(viol);
            }
            if (verbose) fputs(line.c_str(), stdout);
        }
    }

    bool check(bool ok, const char *oracle, const std::function<std::string()> &detail) {
        {
            std::lock_guard<std::mutex> g(mtx);
            ++evaluations;
            ++counts[oracle];
        }
        if (!ok) violation(oracle, detail());
        return ok;
    }

    bool check(bool ok, const char *oracle, const std::string &detail = "") {
        return check(ok, oracle, [&] { return detail; });
    }

    // error <= allowed, remembering the worst quotient. NaN is a violation.
    bool within(double error, double allowed, const char *oracle, const std::function<std::string()> &detail) {
        double q = error / allowed;
        if (error == 0) q = 0;
        {
            std::lock_guard<std::mutex> g(mtx);
            auto &w = worst[oracle];
            if (q > w || std::isnan(q)) {
                w = q;
                worstCase[oracle] = fmt("case %ld ", caseNo) + (desc.size() > 300 ? desc.substr(0, 300) : desc);
            }
        }
        return check(q <= 1, oracle, [&] { return fmt("error %.3g allowed %.3g: ", error, allowed) + detail(); });
    }

    bool within(double error, double allowed, const char *oracle, const std::string &detail = "") {
        return within(error, allowed, oracle, [&] { return detail; });
    }

    void write(bool done) {
        if (outFile.empty()) return;
        std::string tmp = outFile + ".tmp";
        FILE *f = fopen(tmp.c_str(), "w");
        fprintf(f, "{\"done\":%s,\"cases\":%ld,\"skipped\":%ld,\"evaluations\":%ld,\"violations\":%ld,\n\"counts\":{",
                done ? "true" : "false", cases, skipped, evaluations, violations);
        const char *sep = "";
        for (auto &c: counts) {
            fprintf(f, "%s\"%s\":%ld", sep, jsonEscape(c.first).c_str(), c.second);
            sep = ",";
        }
        fprintf(f, "},\n\"observed\":{");
        sep = "";
        for (auto &c: observed) {
            fprintf(f, "%s\"%s\":%ld", sep, jsonEscape(c.first).c_str(), c.second);
            sep = ",";
        }
        fprintf(f, "},\n\"worst\":{");
        sep = "";
        for (auto &c: worst) {
            fprintf(f, "%s\"%s\":[%s,\"%s\"]", sep, jsonEscape(c.first).c_str(),
                    std::isfinite(c.second) ? fmt("%.4g", c.second).c_str() : "1e999",
                    jsonEscape(worstCase[c.first]).c_str());
            sep = ",";
        }
        fprintf(f, "},\n\"distinct\":[");
        sep = "";
        for (auto &c: distinctSet) {
            fprintf(f, "%s%llu", sep, (unsigned long long) c);
            sep = ",";
        }
        fprintf(f, "],\n\"samples\":[");
        sep = "";
        for (auto &c: samples) {
            fprintf(f, "%s\"%s\"", sep, jsonEscape(c).c_str());
            sep = ",";
        }
        fprintf(f, "]}\n");
        fclose(f);
        rename(tmp.c_str(), outFile.c_str());
    }

    struct Skip : std::runtime_error {
        using std::runtime_error::runtime_error;
    };

    // Give up on this case: the generated problem is outside of the scope of the property
    [[noreturn]] static void skip(const std::string &why) { throw Skip(why); }

    // driver --seed S --tier quick|thorough --cases N --shard k/n --start c --only c --out file --progress file
    template<typename Case>
    int run(int argc, char **argv, const char *property, Case &&oneCase) {
        prop = property;
        long n = 100, shard = 0, shards = 1, start = 0, only = -1;
        std::string progress, violFile;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--tier") thorough = val() == "thorough";
            else if (a == "--cases") n = atol(val().c_str());
            else if (a == "--shard") {
                std::string v = val();
                sscanf(v.c_str(), "%ld/%ld", &shard, &shards);
            } else if (a == "--start") start = atol(val().c_str());
            else if (a == "--only") only = atol(val().c_str()), verbose = replay = true;
            else if (a == "--out") outFile = val();
            else if (a == "--viol") violFile = val();
            else if (a == "--progress") progress = val();
            else if (a == "-v") verbose = true;
        }
        if (!violFile.empty()) viol = fopen(violFile.c_str(), "a");
        FILE *prog = progress.empty() ? nullptr : fopen(progress.c_str(), "a");
        for (long c = only >= 0 ? only : 0; c < (only >= 0 ? only + 1 : n); ++c) {
            if (only < 0 && (c % shards != shard || c < start)) continue;
            caseNo = c;
            desc = "";
            if (prog) {
                fprintf(prog, "%ld\n", c);
                fflush(prog);
            }
            Rng rng(seed, c);
            auto t0 = std::chrono::steady_clock::now();
            try {
                oneCase(rng, *this);
                ++cases;
            } catch (Skip &e) {
                ++skipped;
                seen(std::string("skipped: ") + e.what());
            } catch (std::exception &e) {
                violation("unexpected exception", e.what());
            } catch (...) {
                violation("unexpected exception", "unknown type");
            }
            double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (verbose && t > 2) printf("case %ld took %.2f s: %s\n", c, t, desc.c_str());
            if (c % 16 == shard) write(false);
        }
        write(true);
        if (prog) {
            fprintf(prog, "done\n");
            fclose(prog);
        }
        if (verbose) {
            printf("cases %ld skipped %ld evaluations %ld violations %ld distinct %zu\n", cases, skipped, evaluations,
                   violations, distinctSet.size());
            for (auto &w: worst)
                printf("  worst %-40s %.3g  %s\n", w.first.c_str(), w.second, worstCase[w.first].c_str());
            for (auto &w: counts) printf("  count %-40s %ld\n", w.first.c_str(), w.second);
            for (auto &w: observed) printf("  seen  %-40s %ld\n", w.first.c_str(), w.second);
        }
        return violations ? 1 : 0;
    }
};

#endif
