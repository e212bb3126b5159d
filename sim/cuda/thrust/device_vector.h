#pragma once
#include <thrust/device_ptr.h>
