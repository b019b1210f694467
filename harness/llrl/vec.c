#include "m_list.h"
