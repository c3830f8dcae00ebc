#pragma once
#include <pybind11/stl.h>
