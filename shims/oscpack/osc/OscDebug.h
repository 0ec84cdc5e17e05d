#pragma once
#include <oscpack/osc/OscPrintReceivedElements.h>
