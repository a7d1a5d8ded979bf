#pragma once
#include "linalg/Matrix.h"
