#include "wblib/log.h"
namespace WBMQTT
{
    TLogger Error(""), Warn(""), Info(""), Debug("", TLogger::StdErr, 0, false);
}
