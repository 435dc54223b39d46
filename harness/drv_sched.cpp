// Runs the real TScheduler / TRateLimiter on operation sequences and records what they do.
// usage: sched SCENARIOS.ndjson TRACE.ndjson ; a scenario is {"id":..,"lag":ms,"rl":limit,"ops":[...]}, times in us
#include "poll_plan.h"
#include "vh.h"
using namespace std::chrono;
typedef TScheduler<int> TSched;
typedef steady_clock::time_point TTime;
static TTime Tp(int64_t us)
{
    return TTime() + microseconds(us);
}
static Json::Value Us(TTime t)
{
    return t == TTime::max() ? Json::Value(-1)
                             : Json::Value((Json::Int64)duration_cast<microseconds>(t.time_since_epoch()).count());
}
struct TAcc
{
    int K;
    Json::Value Calls{Json::arrayValue};
    bool operator()(int e, TItemAccumulationPolicy p, milliseconds limit)
    {
        Json::Value c;
        c["e"] = e;
        c["force"] = (p == TItemAccumulationPolicy::Force);
        c["limit"] = limit == milliseconds::max() ? -1 : (int)limit.count();
        Calls.append(c);
        return K-- > 0;
    }
};
int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    vh::TOut out;
    out.Open(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Json::Value sc = WBMQTT::JSON::Parse(ss);
        TSched s(milliseconds(sc["lag"].asInt()));
        TRateLimiter rl(sc["rl"].asInt());
        Json::Value r;
        r["o"] = "start";
        r["lag"] = sc["lag"];
        r["rl"] = sc["rl"];
        r["id"] = sc["id"];
        out.Write(r);
        for (auto& op: sc["ops"]) {
            Json::Value e = op;
            std::string o = op["o"].asString();
            TPriority p = op["p"].asString() == "H" ? TPriority::High : TPriority::Low;
            if (o == "add") {
                s.AddEntry(op["e"].asInt(), Tp(op["d"].asInt64()), p);
            } else if (o == "acc") {
                TAcc a{op["k"].asInt()};
                s.AccumulateNext(Tp(op["t"].asInt64()),
                                 a,
                                 op["only"].asBool() ? TItemSelectionPolicy::OnlyHighPriority
                                                     : TItemSelectionPolicy::All);
                e["calls"] = a.Calls;
            } else if (o == "upd") {
                s.UpdateSelectionTime(milliseconds(op["ms"].asInt()), p);
            } else if (o == "rst") {
                s.ResetLoadBalancing();
            } else if (o == "rem") {
                s.Remove(op["e"].asInt());
            } else if (o == "rnew") {
                for (int i = 0; i < op["n"].asInt(); ++i) {
                    rl.NewItem(Tp(op["t"].asInt64()));
                }
                e["over"] = rl.IsOverLimit(Tp(op["t"].asInt64()));
            } else if (o == "rover") {
                e["over"] = rl.IsOverLimit(Tp(op["t"].asInt64()));
            }
            e["tot"] = (int)s.GetTotalTime().count();
            e["dl"] = Us(s.GetDeadline());
            e["hd"] = Us(s.GetHighPriorityDeadline());
            e["ld"] = Us(s.GetLowPriorityDeadline());
            e["emp"] = s.IsEmpty();
            if (op.isMember("e")) {
                e["has"] = s.Contains(op["e"].asInt());
            }
            out.Write(e);
        }
    }
    return 0;
}
