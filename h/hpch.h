// Precompiled header of the harnesses.
#pragma once
#include <core/bldopts.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <functional>
#include <algorithm>
#include <unordered_set>
#include <unordered_map>
#include <Windows.h>
#include "pbt.h"
