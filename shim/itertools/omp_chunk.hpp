#pragma once
#include "./itertools.hpp"
