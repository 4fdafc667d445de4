#include "common.h"
#include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C10";
const char *pbt::RULE =
    "history of enqueue/dequeue/clear/reset operations with start times anywhere in +-2^40 (wrap-around of the 32-bit times included) and gaps "
    "of any bit length below half the range; oracle: multiset of 64-bit times. Non-trivial: >=8 operations with >=3 dequeues that advance time";
typedef int64_t i64;
static pm::DetectorNode *fake(size_t i) { return (pm::DetectorNode *)(uintptr_t)(0x1000 + i * 16); }
template <bool V>
static void run(Gen &g, Ctx &c) {
    pm::radix_heap_queue<V> q;
    std::map<i64, std::multiset<int>> model;  // time -> ids (kind encoded in id)
    i64 cur = 0;
    size_t n = 0, advances = 0, ops = 0;
    int next_id = 0;
    auto set_start = [&]() {
        switch (g.choice(5)) {
            case 0: cur = 0; break;
            case 1: cur = (i64)g.choice(100); break;
            case 2: cur = (i64)0xFFFFFFFF - (i64)g.choice(64) + ((i64)g.choice(4) << 32); break;
            case 3: cur = (i64)0x7FFFFFFF - (i64)g.choice(64); break;
            default: cur = (i64)g.choice((uint64_t)1 << 40);
        }
        q.cur_time = cur;
    };
    set_start();
    c.desc << "start " << cur << ":";
    int len = (int)g.range(1, g.scale ? 300 : 120);
    int style = (int)g.choice(4);
    auto deq = [&]() {
        auto ev = q.dequeue();
        ops++;
        if (n == 0) {
            CHECK(ev.tentative_event_type == pm::NO_FLOOD_CHECK_EVENT, "dequeue from an empty queue returned an event");
            return;
        }
        auto it = model.begin();
        CHECK(ev.tentative_event_type != pm::NO_FLOOD_CHECK_EVENT, "non-empty queue returned no event");
        CHECK(ev.time.value == (uint32_t)it->first, "dequeued time " << ev.time.value << ", earliest is " << it->first);
        CHECK(q.cur_time == it->first, "current time " << q.cur_time << " after dequeuing an event of time " << it->first);
        CHECK(q.cur_time >= cur, "current time moved backwards");
        size_t id = ((uintptr_t)ev.data_look_at_node - 0x1000) / 16;
        int kind = ev.tentative_event_type == pm::LOOK_AT_NODE ? 0 : ev.tentative_event_type == pm::LOOK_AT_SHRINKING_REGION ? 1 : 2;
        auto f = it->second.find((int)id * 3 + kind);
        CHECK(f != it->second.end(), "dequeued an event that was not pending at this time (id " << id << ")");
        it->second.erase(f);
        if (it->second.empty()) model.erase(it);
        if (q.cur_time > cur) advances++;
        cur = q.cur_time;
        n--;
    };
    auto enq = [&](i64 t, int kind) {
        int id = next_id++;
        pm::cyclic_time_int ct{t};
        if (kind == 0) q.enqueue(pm::FloodCheckEvent(fake(id), ct));
        else if (kind == 1) q.enqueue(pm::FloodCheckEvent((pm::GraphFillRegion *)fake(id), ct));
        else q.enqueue(pm::FloodCheckEvent((pm::SearchDetectorNode *)fake(id), ct));
        model[t].insert(id * 3 + kind);
        n++;
        ops++;
    };
    int bulk_at = g.chance(1, 150) ? (int)g.choice(len) : -1;
    for (int k = 0; k < len; k++) {
        if (k == bulk_at) {  // many events at once, latest first or scattered
            int count = 100 + (int)g.choice(g.chance(1, 4) ? 70000 : 1500), bits = (int)g.choice(31);
            uint64_t x = g.choice(1 << 20), way = g.choice(3);
            c.desc << " bulk " << count << " events, " << bits << " bits, " << x << "/" << way;
            c.commit();
            for (int i = 0; i < count; i++) {
                x = x * 6364136223846793005ull + 1442695040888963407ull;
                i64 span = (i64)1 << bits, gap = way == 0 ? (i64)((x >> 33) % span) : way == 1 ? span - 1 - (i64)i % span : (i64)i % span;
                enq(cur + gap, (int)(x >> 60) % 3);
            }
            c.label("bulk");
        }
        int op = (int)(style == 0 ? g.weighted({6, 5, 0}) : style == 1 ? g.weighted({8, 2, 0}) : style == 2 ? g.weighted({10, 10, 1}) : g.weighted({5, 6, 0}));
        if (op == 0) {
            int bits = (int)g.choice(32);
            i64 gap = bits == 0 ? 0 : (i64)g.choice((uint64_t)1 << bits);
            // Land close to powers of two of the absolute time now and then.
            if (g.chance(1, 4)) {
                int b = (int)g.choice(31);
                i64 t = ((cur >> b) + 1) << b;
                t += (i64)g.choice(3) - 1;
                if (t >= cur) gap = t - cur;
            }
            if (gap > (i64)0x7FFFFFFE) gap = 0x7FFFFFFE;
            // Events stay within half the range of each other because all lie within half the range of now.
            i64 t = cur + gap;
            c.desc << " +" << t;
            c.commit();
            enq(t, (int)g.choice(3));
        } else if (op == 1) {
            c.desc << " pop";
            c.commit();
            deq();
        } else {
            bool reset = g.chance(1, 2);
            c.desc << (reset ? " reset" : " clear");
            c.commit();
            if (reset) { q.reset(); CHECK(q.cur_time == 0, "reset did not set time to 0"); cur = 0; }
            else q.clear();
            model.clear();
            n = 0;
            CHECK(q.empty() && q.size() == 0, "queue not empty after clear/reset");
            if (g.chance(1, 2)) { set_start(); c.desc << " start " << cur; }
        }
        CHECK(q.size() == n && q.empty() == (n == 0), "size " << q.size() << ", model " << n);
    }
    if (g.chance(1, 4)) {
        auto v = q.to_vector();
        CHECK(v.size() == n, "listing has " << v.size() << " events, the queue " << n);
        size_t i = 0;
        for (auto &m : model)
            for (size_t j = 0; j < m.second.size(); j++, i++)
                CHECK(v[i].time.value == (uint32_t)m.first, "listing is not in time order at position " << i);
    }
    if (g.chance(3, 4)) {
        c.desc << " drain";
        c.commit();
        while (n) deq();
        CHECK(q.empty(), "queue not empty after draining");
        deq();
    }
    if (ops >= 8 && advances >= 3) c.nontrivial = true;
    if (c.want_labels) {
        if (ops > 50) c.label(">50 operations");
        if ((uint64_t)cur >> 32) c.label("beyond one 32-bit cycle");
    }
}
void pbt::property(Gen &g, Ctx &c) {
    if (g.chance(1, 2)) run<true>(g, c);
    else run<false>(g, c);
}
