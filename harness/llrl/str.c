#include "m_str.h"
