#pragma once
#include <ifopt/composite.h>
