#pragma once
#include <websocketpp/vp_ws.hpp>
