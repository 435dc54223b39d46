// devices/dlms_device.cpp cannot be built without gurux
#include "devices/dlms_device.h"
void TDlmsDevice::Register(TSerialDeviceFactory&)
{}
namespace DLMS
{
    void PrintDeviceTemplateGenerationOptionsUsage()
    {}
    void GenerateDeviceTemplate(TDeviceTemplateGenerationMode,
                                PPort,
                                const std::string&,
                                const std::string&,
                                const std::vector<std::string>&)
    {}
}
