// Common part of the conformance drivers: virtual clock, trace output, seeded randomness
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include <wblib/json_utils.h>

namespace vh
{
    // Virtual time. While Enabled, steady_clock::now() and system_clock::now() read it and every sleep or timed wait
    // of the code under test advances it (vclock.cpp interposes the library functions).
    extern bool Enabled;
    extern int64_t NowNs;
    const int64_t EPOCH_NS = 1000LL * 1000000000LL; // steady clock value at the start of a scenario

    inline int64_t NowUs()
    {
        return (NowNs - EPOCH_NS) / 1000;
    }
    extern std::function<void()> OnWait, OnWaitBegin;
    void Start();
    void AdvanceUs(int64_t us);

    // What happens around the code under test at a given virtual time. inBus: may also happen in the middle of a
    // transaction (otherwise only while the code waits).
    void At(int64_t us, std::function<void()> f, bool inBus = false);
    void ClearActions();
    bool RunDue(bool inBus);
    int64_t NextActionUs(); // -1 if none

    struct TOut
    {
        std::ofstream F;
        size_t Count = 0;
        void Open(const std::string& fn)
        {
            F.open(fn);
        }
        void Write(const Json::Value& v)
        {
            Json::StreamWriterBuilder b;
            b["indentation"] = "";
            F << Json::writeString(b, v) << "\n";
            ++Count;
            if (v["o"] == "start") {
                // a crash or a hang is blamed on the scenario started last
                F.flush();
                alarm(25);
            }
        }
    };
}
