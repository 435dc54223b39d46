#pragma once
#include <string>
#include <vector>
namespace WBMQTT
{
    inline std::vector<std::string> GetUnitTypes()
    {
        return {"V", "A"};
    }
}
