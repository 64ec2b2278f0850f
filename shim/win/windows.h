#include "Windows.h"
