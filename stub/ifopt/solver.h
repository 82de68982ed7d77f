#pragma once
#include <ifopt/problem.h>
