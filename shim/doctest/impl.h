#pragma once
#define DOCTEST_CONFIG_IMPLEMENT
#include <doctest/doctest.h>
