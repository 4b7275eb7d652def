#pragma once
#include "options_description.hpp"
