// Stand-in for gurux (not installed): only what dlms_device.h names
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
enum DLMS_SECURITY { DLMS_SECURITY_NONE };
enum DLMS_AUTHENTICATION { DLMS_AUTHENTICATION_NONE };
enum DLMS_INTERFACE_TYPE { DLMS_INTERFACE_TYPE_HDLC };
class CGXByteBuffer {};
class CGXReplyData {};
class CGXDLMSObject {};
class CGXDLMSObjectCollection {};
class CGXDLMSSecureClient {};
