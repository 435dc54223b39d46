#pragma once
#include "driver.h"
#include "log.h"
#include "utils.h"
