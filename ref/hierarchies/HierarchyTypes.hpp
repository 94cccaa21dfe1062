#pragma once
#include "ref/flags.hpp"
