#pragma once
#include "sx_streams.h"
