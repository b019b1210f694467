#include "m_map.h"
