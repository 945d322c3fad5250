#pragma once
#include "nttstub.hpp"
