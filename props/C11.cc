#include "common.h"
#include "pymatching/sparse_blossom/tracker/queued_event_tracker.h"
using namespace pbt;
const char *pbt::PROPERTY_ID = "C11";
const char *pbt::RULE =
    "interleaving of set / cancel / dequeue over 1..5 trackers sharing a queue, times from now to beyond the 32-bit wrap; oracle: the "
    "desired time per entity. Non-trivial: >=2 accepted wake-ups and >=1 reschedule or cancel of a pending request";
typedef int64_t i64;
void pbt::property(Gen &g, Ctx &c) {
    int k = 1 + (int)g.choice(5);
    std::vector<pm::QueuedEventTracker> tr(k);
    std::vector<i64> want(k, -1);
    pm::radix_heap_queue<false> q;
    i64 cur = 0;
    switch (g.choice(4)) {
        case 0: break;
        case 1: cur = (i64)g.choice(50); break;
        case 2: cur = (i64)0xFFFFFFFF - (i64)g.choice(100); break;
        default: cur = (i64)0x7FFFFFFF - (i64)g.choice(100);
    }
    q.cur_time = cur;
    size_t requests = 0, accepted = 0, resched = 0;
    auto fake = [&](int i) { return (pm::DetectorNode *)(uintptr_t)(0x1000 + i * 16); };
    c.desc << k << " entities, start " << cur << ":";
    int len = (int)g.range(1, g.scale ? 200 : 80);
    auto step = [&]() -> bool {
        auto ev = q.dequeue();
        if (ev.tentative_event_type == pm::NO_FLOOD_CHECK_EVENT) return false;
        CHECK(q.cur_time >= cur, "time moved backwards");
        cur = q.cur_time;
        for (int i = 0; i < k; i++) CHECK(want[i] < 0 || want[i] >= cur, "wake-up of entity " << i << " at " << want[i] << " was lost: time is already " << cur);
        int i = (int)(((uintptr_t)ev.data_look_at_node - 0x1000) / 16);
        CHECK(i >= 0 && i < k, "unknown entity");
        bool acc = tr[i].dequeue_decision(ev, q);
        if (acc) {
            CHECK(want[i] >= 0, "entity " << i << " woken at " << cur << " without a request in force");
            CHECK(want[i] == cur, "entity " << i << " woken at " << cur << " but requested " << want[i]);
            want[i] = -1;
            accepted++;
        }
        CHECK(q.size() <= requests, "queue holds " << q.size() << " entries after only " << requests << " requests");
        return true;
    };
    for (int s = 0; s < len; s++) {
        int op = (int)g.weighted({6, 2, 6, 1});
        if (op == 0) {
            int i = (int)g.choice(k);
            int bits = (int)g.choice(8) < 6 ? (int)g.choice(6) : (int)g.choice(31);
            i64 t = cur + (bits ? (i64)g.choice((uint64_t)1 << bits) : 0);
            if (want[i] >= 0 && want[i] != t) resched++;
            c.desc << " set" << i << "@" << t;
            c.commit();
            tr[i].set_desired_event(pm::FloodCheckEvent(fake(i), pm::cyclic_time_int{t}), q);
            want[i] = t;
            requests++;
        } else if (op == 1) {
            int i = (int)g.choice(k);
            if (want[i] >= 0) resched++;
            c.desc << " cancel" << i;
            c.commit();
            tr[i].set_no_desired_event();
            want[i] = -1;
        } else if (op == 2) {
            c.desc << " pop";
            c.commit();
            step();
        } else if (q.empty()) {  // end of a shot
            for (auto &t : tr) t.clear();
            for (auto &w : want) { CHECK(w < 0, "request in force but the queue is empty"); w = -1; }
            q.reset();
            cur = 0;
            requests = 0;
            c.desc << " newshot";
        }
    }
    c.desc << " drain";
    c.commit();
    while (step()) {}
    for (int i = 0; i < k; i++) CHECK(want[i] < 0, "wake-up of entity " << i << " at " << want[i] << " never happened");
    if (accepted >= 2 && resched >= 1) c.nontrivial = true;
    if (c.want_labels) { if (resched > 5) c.label(">5 reschedules/cancels"); if (accepted > 5) c.label(">5 wake-ups"); }
}
