// What PMap's headers expect to be included before them.
#pragma once
#include <cassert>
#include <algorithm>
#include <array>
#include <chrono>
#include <cstring>
#include <fstream>
#include <list>
#include <map>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
