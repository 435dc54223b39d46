ID = "poll-heap-after-remove"
PROP = "P01"
EDITS = [("src/poll_plan.h", """            this->c.erase(it);
            std::make_heap(this->c.begin(), this->c.end(), this->comp);
""", """            *it = std::move(this->c.back());
            this->c.pop_back();
""")]
NEEDS = "an entry other than the last one of the heap is removed while several others wait"
BREAKS = "after a removal the queue is no heap any more: later deadlines are taken before earlier ones"
FILES = {"t.cpp": r'''
#include <poll_plan.h>
#include <cstdio>
#include <vector>
using namespace std::chrono;
int main()
{
    int bad = 0;
    for (int victim = 0; victim < 12; ++victim) {
        TPriorityQueueSchedule<int, std::less<int>> q;
        steady_clock::time_point t0;
        int d[12] = {5, 1, 9, 3, 7, 12, 2, 30, 11, 4, 25, 8};
        for (int i = 0; i < 12; ++i)
            q.AddEntry(i, t0 + seconds(d[i]));
        q.Remove(victim);
        steady_clock::time_point last;
        while (!q.IsEmpty()) {
            auto x = q.GetTop().Deadline;
            if (x < last) {
                printf("after removing %d: out of order\n", victim);
                bad = 1;
            }
            last = x;
            q.Pop();
        }
    }
    return bad;
}
'''}
#DEMO
# import os, subprocess, sys, tempfile
# here = os.path.dirname(os.path.abspath(__file__))
# with tempfile.TemporaryDirectory() as t:
#     subprocess.run(["g++", "-std=c++20", "-Isrc", here + "/t.cpp", "-o", t + "/t"], check=True)
#     sys.exit(subprocess.run([t + "/t"], timeout=60).returncode)
#END
