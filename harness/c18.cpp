// C18: queries do not change what they ask. The answers to a set of queries are the same bits on every object made in
// the same way, in any order, repeated, and from several threads at the same time.
#include <thread>
#include "program.hpp"

using namespace std;
using namespace prog;

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif
#ifndef TSAN
#define TSAN 0
#endif

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C18", [](Rng &r, Mon &m) {
        Factory f = randomFactory(r);
        m.describe(f.text);
        auto probe = [] {
            auto p = make_shared<Probe>();
            p->watch = false;
            return p;
        };
        uint64_t seed = r.next();
        int n = TSAN ? r.I(4, 10) : r.I(6, 16);
        auto queries = [&](const Object &o) { // the same for every object of the factory
            Rng q(seed);
            vector<Query> v;
            for (int i = 0; i < n; ++i) v.push_back(o.query(q));
            return v;
        };
        Object first = f.build(probe());
        vector<Query> qs = queries(first);
        // threads on an object nobody asked anything before, started as close together as possible
        int threads = r.P(.8) ? r.I(2, 8) : 1, rounds = r.I(1, TSAN ? 2 : 3);
        vector<vector<pair<int, Answer>>> got(threads);
        {
            vector<vector<int>> order(threads);
            vector<vector<int>> delay(threads);
            bool focus = r.P(.5); // all threads make the same two queries
            int a = r.I(0, n - 1), b = r.I(0, n - 1);
            for (int t = 0; t < threads; ++t)
                for (int k = 0; k < rounds * n; ++k) {
                    order[t].push_back(focus ? (r.P(.5) ? a : b) : r.I(0, n - 1));
                    delay[t].push_back(r.P(.2) ? r.I(0, 2000) : 0);
                }
            atomic<int> ready{0}, failed{0};
            vector<thread> ts;
            for (int t = 0; t < threads; ++t)
                ts.emplace_back([&, t] {
                    ++ready;
                    while (ready < threads) this_thread::yield();
                    try {
                        for (size_t k = 0; k < order[t].size(); ++k) {
                            for (volatile int d = delay[t][k]; d > 0; d = d - 1);
                            got[t].emplace_back(order[t][k], qs[order[t][k]].ask());
                        }
                    } catch (...) {
                        ++failed;
                    }
                });
            for (auto &t: ts) t.join();
            m.check(!failed, "no exceptions in threads");
        }
        // the expected answers: every query on its own, on another object
        vector<Answer> expected(n);
        Object second = f.build(probe());
        vector<Query> qs2 = queries(second);
        for (int i = 0; i < n; ++i) expected[i] = qs2[i].ask();
        for (int t = 0; t < threads; ++t)
            for (auto &g: got[t])
                m.check(identical(g.second, expected[g.first]), "same answer from a thread", [&] {
                    return qs[g.first].text + ": " + show(g.second) + "instead of " + show(expected[g.first]);
                });
        m.seen("answers from threads", threads * rounds * n);
        m.seen(fmt("%d threads", threads));
        // repeated in any order, by one thread
        for (int k = 0; k < 2 * n; ++k) {
            int i = r.I(0, n - 1);
            Answer again = (r.P(.5) ? qs : qs2)[i].ask();
            m.check(identical(again, expected[i]), "same answer when repeated", [&] { return qs[i].text + ": " + show(again) + "instead of " + show(expected[i]); });
        }
        // in reverse order on a third object, with another solver in between
        Object third = f.build(probe());
        vector<Query> qs3 = queries(third);
        Factory g = randomFactory(r);
        m.describe(f.text + " ; " + g.text);
        Object other = g.build(probe());
        for (int i = n - 1; i >= 0; --i) {
            if (r.P(.3)) other.query(r).ask();
            Answer again = qs3[i].ask();
            m.check(identical(again, expected[i]), "same answer in another order", [&] { return qs[i].text + ": " + show(again) + "instead of " + show(expected[i]); });
        }
        m.seen(f.kind);
        for (auto &q: qs) {
            m.seen(f.kind + " " + q.text.substr(0, q.text.find_first_of("( ")));
            m.distinct(f.kind + q.text.substr(0, q.text.find_first_of("( ")) + to_string(threads) + f.text.substr(0, 30));
        }
    });
}
