// The library's public headers, usable from C++.
#pragma once
#include <atomic>
#include <condition_variable>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include <cmath>
#include <climits>
#include <cerrno>
#include <cstdbool>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <ctime>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#define template template_
extern "C" {
#include "mcp_types.h"
#include "mcp_json.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_log.h"
}
#undef template
#include "pbt.hpp"
inline void quiet_logs() { mcp_log_set_quiet(true); mcp_log_set_level(MCP_LOG_LEVEL_FATAL); }
