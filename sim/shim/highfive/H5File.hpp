#pragma once
#include "H5Easy.hpp"
