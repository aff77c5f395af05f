#pragma once
#include <nda/clef.hpp>
