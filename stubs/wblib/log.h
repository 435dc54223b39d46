#pragma once
#include <iostream>
#include <sstream>
#include <string>
#include <chrono>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <algorithm>
#include <vector>
#include <memory>
#include <functional>
#include <cstring>
namespace WBMQTT
{
    // Stand-in logger: drops everything unless VERIF_LOG is set
    class TLogger
    {
        std::string Prefix;
        bool Enabled;

    public:
        enum TOutput
        {
            StdErr,
            StdOut
        };
        enum TColor
        {
            RED = 1,
            YELLOW,
            GREY,
            WHITE,
            GREEN
        };
        enum class EColorUsage
        {
            ON,
            OFF,
            AUTO
        };
        class TLine
        {
            std::ostringstream S;
            bool On;

        public:
            TLine(const std::string& p, bool on): On(on)
            {
                if (On)
                    S << p;
            }
            TLine(TLine&& o) = default;
            ~TLine()
            {
                if (On) {
                    S << "\n";
                    std::cerr << S.str();
                }
            }
            template<class T> TLine& operator<<(const T& v)
            {
                // formatted even when off: a side effect or a crash in a log argument stays visible
                S << v;
                return *this;
            }
            TLine& operator<<(std::ostream& (*f)(std::ostream&))
            {
                S << f;
                return *this;
            }
        };
        TLogger(const std::string& prefix, TOutput = StdErr, int = 0, bool enabled = true, EColorUsage = EColorUsage::AUTO)
            : Prefix(prefix), Enabled(enabled)
        {}
        bool IsEnabled() const
        {
            return Enabled;
        }
        void SetEnabled(bool e)
        {
            Enabled = e;
        }
        TLine Log()
        {
            static bool on = getenv("VERIF_LOG") != nullptr;
            return TLine(Prefix, on);
        }
    };
    extern TLogger Error, Warn, Info, Debug;
}
